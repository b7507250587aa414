#!/usr/bin/env python3
"""Try planted bugs in a scratch copy of the repository (never in /repo itself).

  plant.py verify ID...        build, tests, demo with and without the patch
  plant.py check ID... [-p C01,C02]   run the check(s) against the patched copy

The scratch copy is /tmp/plant/<ID>; it is removed afterwards unless -k is given."""
import json, os, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ROOT = "/tmp/plant"
BASE = ROOT + "/base"
CM = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=ON", "-DCLOUDINI_BUILD_TOOLS=OFF",
      "-DCLOUDINI_BUILD_BENCHMARKS=ON", "-DCLOUDINI_FORCE_VENDORED_DEPS=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
      "-DCMAKE_CXX_FLAGS=-Wno-error"]
ENV = dict(os.environ, CC="gcc", CXX="g++", HOME="/root", LC_ALL="C.UTF-8")


def sh(cmd, cwd=None, timeout=900, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       shell=isinstance(cmd, str))
    return r.returncode, r.stdout.decode(errors="replace")


def tree(name, patch=None):
    d = "%s/%s" % (ROOT, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    rc, out = sh("git -C /repo archive HEAD | tar x -C %s" % d)
    assert rc == 0, out
    if patch:
        rc, out = sh(["git", "apply", "--whitespace=nowarn", patch], cwd=d)
        assert rc == 0, "patch does not apply: " + out
    return d


def build(d):
    if not os.path.exists(d + "/_build/build.ninja"):
        rc, out = sh(["cmake", "-S", "cloudini_lib", "-B", "_build"] + CM, cwd=d)
        if rc:
            return False, out
    rc, out = sh(["ninja", "-C", "_build", "-j4"], cwd=d)
    return rc == 0, out


def tests(d):
    stable = {t.replace("::", ".") for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    rc, out = sh([d + "/_build/test/test_cloudini", "--gtest_filter=" + ":".join(sorted(stable))], cwd=d)
    return rc == 0, "\n".join(l for l in out.splitlines() if "FAILED" in l or "rror" in l)[:600]


def base():
    if not os.path.exists(BASE + "/ok"):
        d = tree("base")
        ok, out = build(d)
        assert ok, out
        open(BASE + "/ok", "w").write("")
    return BASE


def prep(i):
    d = tree(i, "%s/%s/patch.diff" % (SEEDED, i))
    return d


def demo(i, d):
    e = dict(os.environ)
    t = time.time()
    rc, out = sh(["bash", "%s/%s/demo.sh" % (SEEDED, i)], cwd=d, timeout=300, env=e)
    return rc, out[-800:], time.time() - t


def verify(i):
    try:
        d = prep(i)
        ok, out = build(d)
        if not ok:
            return i, "BUILD FAILS\n" + out[-2000:]
        ok, out = tests(d)
        if not ok:
            return i, "TESTS FAIL\n" + out
        r1, o1, t1 = demo(i, d)
        r0, o0, t0 = demo(i, BASE)
        res = "demo patched rc=%d (%.0fs) base rc=%d (%.0fs)" % (r1, t1, r0, t0)
        res = ("OK " if r1 != 0 and r0 == 0 else "BAD ") + res
        return i, res + "\n   patched: " + o1.strip()[-300:] + "\n   base: " + o0.strip()[-300:]
    except Exception as ex:
        return i, "EXC " + repr(ex)


def main():
    a = sys.argv[1:]
    keep = "-k" in a
    a = [x for x in a if x != "-k"]
    props = None
    if "-p" in a:
        k = a.index("-p"); props = a[k + 1].split(","); del a[k:k + 2]
    cmd, ids = a[0], a[1:]
    if ids == ["all"]:
        ids = sorted(os.listdir(SEEDED))
    os.makedirs(ROOT, exist_ok=True)
    if cmd == "verify":
        base()
        with cf.ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(verify, ids):
                print(i, r, flush=True)
                if not keep:
                    shutil.rmtree("%s/%s" % (ROOT, i), ignore_errors=True)
    else:
        for i in ids:
            d = prep(i)
            ps = props or [json.load(open("%s/%s/meta.json" % (SEEDED, i)))["property"]]
            for p in ps:
                t = time.time()
                e = dict(os.environ, CLD_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
                rc, out = sh(["python3", "check.py", p], cwd=VERIF, env=e, timeout=3000)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                print("%s %s rc=%d %s %.0fs  %s" % (i, p, rc, "CAUGHT" if rc == 1 and v else "** MISSED **", time.time() - t,
                                                     (v[0] if v else out[-300:].replace("\n", " | "))), flush=True)
            if not keep:
                shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
