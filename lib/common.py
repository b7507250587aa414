"""Shared plumbing of the checks: building harnesses from /repo's working tree, running
them on cases, running TLC, evidence, known findings, violations."""
import hashlib, itertools, json, os, random, re, select, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLD_REPO", "/repo")
LIBDIR = os.path.join(REPO, "cloudini_lib")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 4)


class Unexpected(Exception):
    """the code under test did something no case of the check is prepared for: reported as a violation"""


class CheckError(Exception):
    """The check itself failed (build failure, TLC crash): neither pass nor violation."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree_files(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            if "/_build" in r or "/.git" in r:
                continue
            for f in fs:
                if f.endswith((".cpp", ".hpp", ".h", ".c", ".cc")):
                    out.append(os.path.join(r, f))
    return sorted(out)


def lib_sources(pcl=False, wasm=False):
    src = os.path.join(LIBDIR, "src")
    out = []
    for f in sorted(os.listdir(src)):
        if not f.endswith(".cpp"):
            continue
        if f == "wasm_functions.cpp" and not wasm:
            continue
        if f == "pcl_conversion.cpp" and not pcl:
            continue
        out.append(os.path.join(src, f))
    return out


ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
BASEFLAGS = ["-std=c++20", "-g1", "-msse4.1", "-w"]


def build(name, sources, flags=(), link=(), incs=(), asan=True, opt="-O1", deps=(), pic=False, fine=None):
    """Compile and link; cached by the content of everything that can matter."""
    flags = list(BASEFLAGS) + [opt] + list(flags) + (ASAN if asan else [])
    incs = ["-I" + os.path.join(LIBDIR, "include"), "-I" + os.path.join(LIBDIR, "src")] + ["-I" + i for i in incs]
    allf = set(sources) | set(tree_files(os.path.join(LIBDIR, "src"), os.path.join(LIBDIR, "include"))) | set(deps) | set(tree_files(os.path.join(VERIF, "harness")))
    key = _hash_files(allf, repr((name, flags, list(link), incs, [str(s) for s in sources], sorted((fine or {}).items()))))
    outdir = os.path.join(BUILD, "%s-%s" % (name, key))
    exe = os.path.join(outdir, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for d in os.listdir(BUILD):  # drop stale builds of the same target
        if d.startswith(name + "-") and re.fullmatch(re.escape(name) + r"-[0-9a-f]{20}", d):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-%s-" % name, dir=BUILD)

    def comp(i):
        s = sources[i]
        o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(s)))
        r = subprocess.run(["g++", *flags, *(fine or {}).get(s, []), *incs, "-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-4000:]))
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, range(len(sources))))
    r = subprocess.run(["g++", *(ASAN if asan else []), *objs, "-o", os.path.join(tmp, name), *link, "-llz4", "-lzstd", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, outdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_cldrv(scalar=False):
    """scalar: without vector instructions, as for WebAssembly and ARM"""
    return build("cldrv" + "_scalar" * scalar, lib_sources() + [os.path.join(VERIF, "harness", "cldrv.cpp")], flags=["-U__AVX__", "-U__SSE4_1__", "-U__SSE__"] if scalar else [])


NODEINCS = [os.path.join(VERIF, "harness", "stubs", "ros"), os.path.join(os.path.dirname(LIBDIR), "cloudini_ros", "include")]


def build_nodedrv():
    r = os.path.join(os.path.dirname(LIBDIR), "cloudini_ros")
    return build("nodedrv", lib_sources() + [os.path.join(r, "src", f) for f in ("cloudini_publisher_plugin.cpp", "cloudini_subscriber_plugin.cpp", "conversion_utils.cpp", "topic_converter.cpp")] +
                 [os.path.join(VERIF, "harness", "nodeops.cpp")], incs=NODEINCS, deps=tree_files(r))


def build_pooldrv():
    r = os.path.join(os.path.dirname(LIBDIR), "cloudini_ros")
    return build("pooldrv", lib_sources(pcl=True) + [os.path.join(r, "src", "cloudini_subscriber_pcl.cpp"), os.path.join(VERIF, "harness", "poolops.cpp")],
                 flags=["-I/usr/include/pcl-1.14", "-I/usr/include/eigen3"], incs=NODEINCS, link=["-lpcl_common", "-lpcl_io"], deps=tree_files(r))


# ---------------------------------------------------------------- running the driver
class Op(dict):
    pass


def fmt(op_id, name, args):
    return "%s %s %s\n" % (op_id, name, " ".join("%s=%s" % (k, v) for k, v in args.items()))


CRASH_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_odr_violation=0:symbolize=0:handle_abort=1", MALLOC_PERTURB_="165")


def _run_stream(exe, sessions, timeout, out, env=None):
    """sessions: list of lists of (id, op, args). Fills out[id]."""
    pending = list(sessions)
    e = dict(CRASH_ENV)
    if env:
        e.update(env)
    while pending:
        flat = [(sid, o) for sid, s in enumerate(pending) for o in s]
        lines = [fmt(o[0], o[1], o[2]) for _, o in flat]
        with tempfile.TemporaryFile("w+b") as fin, tempfile.TemporaryFile("w+b") as ferr:
            fin.write("".join(lines).encode())
            fin.flush()
            fin.seek(0)
            p = subprocess.Popen([exe], stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=e)
            buf = b""
            done = 0
            last = time.time()
            hang = False
            fd = p.stdout.fileno()
            while True:
                r, _, _ = select.select([fd], [], [], 1.0)
                if r:
                    b = os.read(fd, 1 << 20)
                    if not b:
                        break
                    buf += b
                    while True:
                        nl = buf.find(b"\n")
                        if nl < 0:
                            break
                        line, buf = buf[:nl], buf[nl + 1:]
                        try:
                            rec = json.loads(line)
                        except ValueError:
                            continue  # noise printed by the code under test
                        if not isinstance(rec, dict) or done >= len(flat) or rec.get("id") != str(flat[done][1][0]):
                            continue
                        out[flat[done][1][0]] = rec
                        done += 1
                        last = time.time()
                elif time.time() - last > timeout:
                    hang = True
                    p.kill()
                    break
            p.stdout.close()
            rc = p.wait()
            if done == len(flat):
                return
            ferr.seek(0)
            err = ferr.read().decode("latin1")
            if rc == 97:
                raise CheckError("driver: " + err[-300:])
        sid, op = flat[done]
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        kind = "hang" if hang else ("asan: " + m.group(1)[:160] if m else "crash rc=%d %s" % (rc, err.strip()[-200:]))
        out[op[0]] = {"id": str(op[0]), "ok": False, "ex": "crash", "what": kind}
        for s2, o2 in flat[done + 1:]:
            if s2 == sid:
                out[o2[0]] = {"id": str(o2[0]), "ok": False, "ex": "skipped"}
        pending = pending[sid + 1:]


def run_sessions(exe, sessions, timeout=30, jobs=NCPU, env=None, groups=None):
    """neighbours (and whatever has the same group) follow one another in one process"""
    out = {}
    if groups is None:
        k = 4 if len(sessions) >= 8 * jobs else 1
        groups = [i // k for i in range(len(sessions))]
    lots = [[sessions[i] for i, _ in g] for _, g in itertools.groupby(enumerate(groups), key=lambda x: x[1])]
    chunks = [[s for lot in lots[i::jobs] for s in lot] for i in range(jobs)]
    errs = []

    def work(c):
        try:
            _run_stream(exe, c, timeout, out, env)
        except Exception as ex:  # noqa
            errs.append(ex)
    ths = [threading.Thread(target=work, args=(c,)) for c in chunks if c]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], CheckError) else CheckError("driver: %r" % errs[0])
    return out


def run_ops(exe, ops, **kw):
    """ops: list of (op, args); independent of one another. Returns results in order."""
    out = run_sessions(exe, [[(i, o, a)] for i, (o, a) in enumerate(ops)], **kw)
    return [out[i] for i in range(len(ops))]


# ---------------------------------------------------------------- TLC
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=600, extra=(), cont=False, heap="6g", simulate=None, jprops=()):
    """Run TLC on spec/<module>.tla. Returns a TlcResult with states, distinct, prints, violated..."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    args = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *jprops, "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta,
            "-workers", str(workers), "-noGenerateSpecTE", "-cleanup", "-deadlock"]
    if "-deadlock" in extra:  # caller wants deadlock CHECKED: drop our flag
        args.remove("-deadlock")
        extra = [x for x in extra if x != "-deadlock"]
    if cont:
        args.append("-continue")
    args += list(extra)
    if simulate:
        args += ["-simulate", simulate]
    args += ["-config", os.path.join(SPEC, cfg or module + ".cfg"), os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(args, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout
    r.err = p.stderr
    r.rc = p.returncode
    r.wall = time.time() - t0
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", r.out)
    r.generated, r.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if simulate:
        m = re.findall(r"(\d+) states checked", r.out) or re.findall(r"Progress: (\d+) states", r.out)
        r.states = r.generated = int(m[-1]) if m else 0
    r.prints = []
    acc = None
    for ln in r.out.splitlines():  # TLC wraps tuples wider than 80 columns
        if acc is None:
            if ln.startswith('"'):
                r.prints.append(ln)
            elif ln.startswith("<<"):
                acc = ln
        else:
            acc += " " + ln.strip()
        if acc is not None and acc.count("<<") <= acc.count(">>"):
            r.prints.append(re.sub(r"^<< ", "<<", acc))
            acc = None
    if workers != 1:
        r.prints.sort()  # several workers print in any order: what is drawn from it must not depend on that
    r.violated = "is violated" in r.out or "was violated" in r.out or "Deadlock reached" in r.out or "Temporal properties were violated" in r.out
    if "Parsing or semantic analysis failed" in r.out or ("Error:" in r.out and not r.violated):
        raise CheckError("TLC failed on %s:\n%s\n%s" % (module, r.out[-3500:], r.err[-500:]))
    if not m and not r.violated:
        raise CheckError("TLC gave no result on %s:\n%s\n%s" % (module, r.out[-3000:], r.err[-500:]))
    return r


_print_re = re.compile(r'^<<"(\w+)", (.*)>>$')


def parse_tuple(s):
    """Parse a flat TLC print <<"TAG", v, v...>> of strings and ints (and booleans)."""
    toks = re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)|(TRUE|FALSE)', s)
    out = []
    for a, b, c in toks:
        if b:
            out.append(int(b))
        elif c:
            out.append(c == "TRUE")
        else:
            out.append(a)
    return out


def tlc_tags(r, tag):
    pre = '<<"%s"' % tag
    return [parse_tuple(p) for p in r.prints if p.startswith(pre)]


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for x in recs:
            f.write(json.dumps(x, separators=(",", ":")))
            f.write("\n")


def judge(module, cases, env=None, workers=NCPU, timeout=700, shards=None, heap="6g", cfg=None):
    """Trace check: every case is an initial state of <module>; the module prints
    <<"D", caseIndex, verdict, detail...>> once per finished case. Returns (verdicts, stats)."""
    if not cases:
        return [], {"states": 0, "transitions": 0}
    d = tempfile.mkdtemp(prefix="cases-")
    try:
        path = os.path.join(d, "cases.ndjson")
        write_ndjson(path, cases)
        ev = {"CASES": path}
        ev.update(env or {})
        r = tlc(module, env=ev, workers=workers, timeout=timeout, cont=True, heap=heap, cfg=cfg)
    except CheckError as e:
        if re.search(r"TLC failed on [^\0]*(Attempted to|TLC was evaluating|encountered a non-enumerable|The first argument of Assert)", str(e)):
            raise Unexpected("%s can not make sense of the recorded results: %s" % (module, str(e)[-1500:]))
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)
    verd = [None] * len(cases)
    for t in tlc_tags(r, "D"):
        if len(t) >= 3 and isinstance(t[1], int) and 1 <= t[1] <= len(cases):
            verd[t[1] - 1] = t[2:]
    miss = [i for i, v in enumerate(verd) if v is None]
    if miss:
        raise Unexpected("%s: TLC gave no verdict for case %d of %d\n%s" % (module, miss[0], len(cases), r.out[-3000:]))
    return verd, {"states": r.states, "transitions": r.generated, "out": r.out, "wall": r.wall}


# ---------------------------------------------------------------- checks, evidence, findings
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.notes = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.rng = random.Random("%s-%d-%s" % (prop, SEED, TIER))

    def add_stats(self, st):
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s if isinstance(s, str) else json.dumps(s)[:600])

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay):
        """replay: JSON-able description sufficient to run the failing case again."""
        for k in self.known:
            if k["match"] in what:
                self.known_hit.setdefault(k["match"], what)
                return
        self.violations.append((what, replay))

    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k["match"] in self.known_hit:
                log("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1)
            for w, _ in self.violations[:5]:
                log("  " + w[:600])
            log("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        log("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def load_known(prop):
    """known_findings.txt: lines 'known: property=C01 match=<text> :: <what fails>' (suppress) and
    'fixed: property=C01 <commit> <what failed>' (documentation only)."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


def build_rosdrv():
    return build("rosdrv", lib_sources() + [os.path.join(VERIF, "harness", "rosops.cpp")])


def build_pcldrv():
    lib = lib_sources(pcl=True)
    return build("pcldrv", lib + [os.path.join(VERIF, "harness", "pclops.cpp")], flags=["-I/usr/include/pcl-1.14", "-I/usr/include/eigen3"], link=["-lpcl_common", "-lpcl_io"])


def build_capidrv():
    return build("capidrv", lib_sources(wasm=True) + [os.path.join(VERIF, "harness", "capiops.cpp")], incs=[os.path.join(VERIF, "harness", "stubs")])


def build_bagdrv():
    t = os.path.join(os.path.dirname(LIBDIR), "cloudini_lib", "tools")
    return build("bagdrv", lib_sources() + [os.path.join(t, "src", "mcap_converter.cpp"), os.path.join(VERIF, "harness", "bagops.cpp")],
                 incs=[os.path.join(VERIF, "harness", "stubs"), os.path.join(t, "include")], deps=tree_files(t))


def build_tool(name, srcs, **kw):
    """one of the command-line tools, with stand-ins for the libraries it needs"""
    t = os.path.join(os.path.dirname(LIBDIR), "cloudini_lib", "tools")
    st = os.path.join(VERIF, "harness", "stubs")
    pcl = {"flags": ["-I/usr/include/pcl-1.14", "-I/usr/include/eigen3"], "link": ["-lpcl_common", "-lpcl_io"]} if kw.get("pcl") else {}
    return build(name, lib_sources(**kw) + [os.path.join(t, "src", s) for s in srcs], **pcl, incs=[st, os.path.join(st, "cxx"), os.path.join(t, "include")],
                 deps=tree_files(t) + [os.path.join(st, "cxx", "cxxopts.hpp")])
