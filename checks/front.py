"""C25 the Python decoder, C26 the Foxglove converter: front ends of the WebAssembly module."""
import hashlib
from rosmsg import *

KINDS = {1: "INT8", 2: "UINT8", 3: "INT16", 4: "UINT16", 5: "INT32", 6: "UINT32", 7: "FLOAT32", 8: "FLOAT64", 9: "INT64", 10: "UINT64"}
ENCN = {0: "NONE", 1: "LOSSY", 2: "LOSSLESS"}
COMPN = {0: "NONE", 1: "LZ4", 2: "ZSTD"}
PYVT = "/opt/veriftools/pyvenv/bin/python"
BIGBUF = 32 << 20


def build_frontlib():
    return build("frontlib.so", lib_sources(wasm=True) + [os.path.join(VERIF, "harness", "front", "frontlib.cpp")], flags=["-fPIC", "-fvisibility=default"], link=["-shared"],
                 incs=[os.path.join(VERIF, "harness", "stubs")], asan=False, opt="-O2")


def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]


def histories(kind, length, simulate=0, seed=1):
    env = {"FRONT_LEN": str(length), "FRONT_KIND": kind}
    if simulate:
        r = tlc("FrontGen", env=env, workers=1, simulate="num=%d" % simulate, extra=["-seed", str(seed), "-depth", str(length + 3)])
    else:
        r = tlc("FrontGen", env=env)
    out = [re.findall(r'\\?"(\w)\\?"', p[5:]) for p in r.prints if p.startswith('<<"S"')]
    out = [[x for x in h if len(x) == 1] for h in out]
    if not out or any(len(h) != length for h in out):
        raise CheckError("FrontGen gave nothing\n" + r.out[-2000:])
    return out, r


NAMES = [b"x", b"y", b"z", b"intensity", b"ring", b"time_stamp", b"rgb", b"t", b"label", b"azimuth", b"a:b", b"range", b"yes", b"7", b"1e3", b"offset", b"type", b"name", b"fields"]


class Msgs:
    """messages and what they denote according to the library"""

    def __init__(self, chk, n, prefix):
        rng = chk.rng
        self.rng, self.dir = rng, tempfile.mkdtemp(prefix=prefix)
        self.ros = build_rosdrv()
        its = []
        for k in range(n):
            it = message(rng, n=rng.choice([1, 2, 3, 7, 30, 200]), prof={})
            self.rename(it)
            its.append(it)
        for k in range(max(4, n // 12)):  # wide clouds: long headers
            it = self.wide(rng.choice([20, 40, 70, 150]))
            its.append(it)
        fam = list(range(len(its)))
        for k in range(len(its)):  # messages that differ from another one in a single respect
            for _ in range(rng.choice([0, 1, 2])):
                s = self.sibling(its[k])
                if s:
                    its.append(s)
                    fam.append(k)
        self.good = self.compress(its)
        if len(self.good) < len(its):
            raise Unexpected("messages are not compressed")
        self.kin, self.last = {}, None
        for f, k in zip(self.good, fam):
            f["fam"] = k
            self.kin.setdefault(k, []).append(f)
        e = []
        for k in range(n // 4):
            it = message(rng, n=0, prof={})
            self.rename(it)
            e.append(it)
        self.empty = [self.without(f) for f in self.compress(e)]
        # payloads next to sizes that contradict them; damaged messages
        bad, mis = [], []
        for f in self.good:
            if f["n"] > 20000:
                continue
            for _ in range(2):
                bad.append(self.damage(f))
            mis.append(self.mismatch(f))
        self.bad = self.weigh(bad)
        self.mis = self.weigh(mis)
        self.large = []

    def rename(self, it):
        info, m = it[0], it[1]
        names = self.rng.sample(NAMES, len(info.fields))
        for f, nm in zip(info.fields, names):
            f.name = nm
        m["fields"] = [(f.name, o, t, c) for f, (_, o, t, c) in zip(info.fields, m["fields"])]

    def sibling(self, it):
        rng = self.rng
        info, m = it[0].copy(), dict(it[1])
        fs, n = info.fields, info.w * info.h
        same = [(i, j) for i in range(len(fs)) for j in range(i) if SIZE[fs[i].type] == SIZE[fs[j].type]]
        kind = rng.randrange(6)
        if kind <= 1:  # another type of the same size
            f = rng.choice(fs)
            f.type = rng.choice([t for t in SIZE if SIZE[t] == SIZE[f.type] and t != f.type])
            if f.type not in (7, 8):
                f.res = None
        elif kind == 2 and same:  # columns in the other order
            i, j = rng.choice(same)
            fs[i].off, fs[j].off = fs[j].off, fs[i].off
        elif kind == 3:
            f = rng.choice(fs)
            f.name = bytes(f.name[:-1] + bytes([f.name[-1] ^ 1])) if f.name[-1:].isalpha() and f.name[-1] ^ 1 not in [96, 123] else f.name + b"_"
            if len({bytes(x.name) for x in fs}) < len(fs):
                return None
        elif kind == 4:
            n = rng.choice([k for k in (1, 2, n + 1, max(1, n - 1), n * 2) if k != n] or [n + 1])
            info.w, info.h = n, 1
        elif kind == 5 and len(fs) > 1:
            f = rng.choice(fs)
            f.res = None if f.res else 0.01 if f.type in (7, 8) else None
        else:
            return None
        if n > 5000:
            return None
        data, _ = gen_points(rng, info, n)
        m["fields"] = [(f.name, f.off, f.type, 1) for f in fs]
        m["w"], m["h"], m["step"], m["row"] = info.w, info.h, info.step, info.w * info.step
        return info, m, data, data, {}, None

    def wide(self, n):
        rng = self.rng
        fs, off = [], 0
        for k in range(n):
            t = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
            fs.append(Field((b"f%d_" % k) + b"q" * rng.choice([0, 5, 30, 80]), off, t, rng.choice([None, 0.001]) if t in (7, 8) else None))
            off += SIZE[t]
        np_ = rng.choice([1, 2, 5])
        info = Info(fs, off, np_, 1, 5, LOSSY, rng.choice([CNONE, LZ4, ZSTD]), True)
        data, _ = gen_points(rng, info, np_)
        m = {"sec": u32(1), "nsec": u32(2), "frame": b"w", "h": 1, "w": np_, "fields": [(f.name, f.off, f.type, 1) for f in fs], "step": off, "row": off * np_, "dense": 1}
        return info, m, data, data, {}, None

    def compress(self, its):
        ops = []
        for info, m, full, data, prof, d in its:
            ops.append(("compress", {"d": write_msg(m, full)[0].hex(), "prof": ";".join("%s:%08x" % (f.name.hex(), f32bits(f.res)) for f in info.fields if f.res), "def": "", "enc": info.enc, "comp": info.comp, "ver": info.ver, "thr": int(info.thr)}))
        out = []
        for it, r in zip(its, run_ops(self.ros, ops, timeout=60)):
            if r.get("ok"):
                out.append(self.form(it[1], bytes.fromhex(r["out"])))
        return self.weigh(out)

    def form(self, m, comp):
        return {"d": comp, "m": m}

    def add_large(self, count):
        """clouds whose points take more than the 32 MB the Python decoder starts with"""
        its = []
        for _ in range(count):
            step = self.rng.choice([64, 128])
            w = (BIGBUF // step) + self.rng.choice([1, 1000, 40000])
            fs = [Field(b"x", 0, 7, 0.001), Field(b"id", step - 8, 9, None)]
            info = Info(fs, step, w, 1, 5, LOSSY, ZSTD, True)
            row = bytearray(b"\0" * (step * 1000))
            for k in range(1000):
                row[k * step:k * step + 4] = struct.pack("<f", k * 0.25)
                row[k * step + step - 8:k * step + step] = struct.pack("<q", k * 10 ** 12)
            data = (bytes(row) * (w // 1000 + 1))[:w * step]
            m = {"sec": u32(1), "nsec": u32(2), "frame": b"big", "h": 1, "w": w, "fields": [(f.name, f.off, f.type, 1) for f in fs], "step": step, "row": step * w, "dense": 1}
            its.append((info, m, data, data, {}, None))
        self.large = self.compress(its)

    def damage(self, f):
        rng = self.rng
        b = bytearray(f["d"])
        at = f["at"]
        k = rng.randrange(6)
        if k == 0:
            b = b[:rng.randrange(len(b))]
        elif k == 1 and at >= 0:
            b[at + rng.randrange(12)] ^= 1 << rng.randrange(7)
        elif k == 2 and at >= 0:
            p = at + rng.randrange(max(1, f["plen"]))
            b[p] ^= 1 << rng.randrange(8)
        elif k == 3 and at >= 0:  # payload cut, its length kept right
            n = rng.randrange(f["plen"])
            b[at - 4:at + f["plen"]] = u32(n) + b[at:at + n]
        elif k == 4 and at >= 0:  # length of the payload
            b[at - 4:at] = u32(rng.choice([0, 1, f["plen"] + 1, f["plen"] - 1, 0xFFFFFFFF, 0x80000000]))
        else:
            b = rng.choice([b"", b"\0", b"\0\1\0\0", bytes(rng.randbytes(40))])
        return {"d": bytes(b), "m": f["m"]}

    def mismatch(self, f):
        rng = self.rng
        m = dict(f["m"])
        m["row"] = m["w"] * m["step"]
        m["w"], m["h"], m["step"] = rng.choice([(m["w"] + 1, m["h"], m["step"]), (m["w"] - 1, m["h"], m["step"]), (m["w"], m["h"] + 1, m["step"]), (m["w"], m["h"], m["step"] + 1), (m["w"], m["h"] * 2, m["step"]), (1, 1, 1), (m["w"] * m["h"] + 3, 1, m["step"])])
        return {"d": write_msg(m, f["d"][f["at"]:f["at"] + f["plen"]])[0] + b"\0\0\0\x09\0\0\0cloudini\0", "m": m}

    def weigh(self, msgs):
        res = run_ops(self.ros, [("msgparse", {"d": x["d"].hex()}) for x in msgs], timeout=60)
        full = []
        for x, r in zip(msgs, res):
            x.update(at=-1, plen=0, parsed=bool(r.get("ok")))
            if r.get("ok"):
                ms, fl = r["msg"].split("|", 1)
                q = ms.split(",")
                x["h"], x["w"], x["step"] = int(q[3]), int(q[4]), int(q[5])
                x["at"], x["plen"] = int(r["at"]), int(q[8])
                x["q"], x["fl"] = q, fl
            full.append(("full", {"d": x["d"][x["at"]:x["at"] + x["plen"]].hex() if x["at"] >= 0 else "", "fill": 0}))
        for x, r in zip(msgs, run_ops(self.ros, full, timeout=60)):
            x["hdr"] = parse_info(r["info"]) if "info" in r else None
            x["out"] = bytes.fromhex(r["out"]) if r.get("ok") and "out" in r else None
            x["huge"] = bool(r.get("huge"))
            i = x["hdr"]
            x["n"] = i.w * i.h * i.step if i else 0
            x["file"] = os.path.join(self.dir, "%d.bin" % id(x))
            x["may"] = x["must"] = int(x["parsed"] and x["out"] is not None and x["w"] * x["h"] * x["step"] == x["n"] and x["n"] > 0)
            if x["may"] == 0 and x["parsed"] and (x["huge"] or x["n"] == 0 or x["w"] * x["h"] * x["step"] == 0):
                x["may"] = 2
        for x in msgs:
            with open(x["file"], "wb") as f:
                f.write(x["d"])
        return msgs

    def without(self, f):
        """clouds without points: the module's result does not tell them from a failure"""
        return dict(f, may=2, must=0)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def take(self, l):
        if l in "GHF" and self.last is not None and self.rng.random() < 0.4:
            kin = self.kin[self.last]
            if kin:
                return self.rng.choice(kin)
        f = self.pick(l)
        self.last = f.get("fam", self.last)
        return f

    def pick(self, l):
        return self.rng.choice({"G": self.good, "B": self.bad, "H": self.good + self.bad, "E": self.empty, "F": self.good, "M": self.mis, "L": self.large or self.good}[l])


def resname(r):
    return "-" if r is None or not r > 0 else "f%s" % struct.pack("<f", r).hex()


NOHDR = {"version": "", "width": "", "height": "", "point_step": "", "encoding_opt": "", "compression_opt": "", "fields": []}


def header_of(i):
    if i is None:
        return NOHDR
    return {"version": str(i.ver), "width": str(i.w), "height": str(i.h), "point_step": str(i.step), "encoding_opt": ENCN.get(i.enc, "?"), "compression_opt": COMPN.get(i.comp, "?"),
            "fields": [[bytes(f.name).hex(), f.off, KINDS.get(f.type, "?"), resname(f.res)] for f in i.fields]}


def plain(i):
    """fields an array of the same layout can have"""
    names = [bytes(f.name) for f in i.fields]
    return len(set(names)) == len(names) and all(re.fullmatch(rb"[\x21-\x7e]+", n) for n in names) and all(f.off + SIZE.get(f.type, 99) <= i.step for f in i.fields) and len(names) > 0


def want_array(x):
    i = x["hdr"]
    if i is None or x["out"] is None:
        return {"w": 0, "h": 0, "step": 0, "plain": 0, "all": "", "fields": [], "hdr": header_of(i)}
    cols = []
    for f in i.fields:
        n, s = i.w * i.h, SIZE[f.type]
        cols.append([bytes(f.name).hex(), f.off, f.type, sha(b"".join(x["out"][q * i.step + f.off:q * i.step + f.off + s] for q in range(n)) if n < 20000 else column_big(x["out"], i.step, f.off, s))])
    return {"w": i.w, "h": i.h, "step": i.step, "plain": int(plain(i)), "all": sha(x["out"]), "fields": cols, "hdr": header_of(i)}


def column_big(b, step, off, s):
    o = bytearray((len(b) // step) * s)
    for k in range(s):
        o[k::s] = b[off + k::step]
    return bytes(o)


TX = {"WrongFree": "memory is freed that is not allocated", "ReadOutside": "memory is read that is not allocated", "WriteOutside": "memory is written that is not allocated", "InputOutside": "the module is given an input outside the allocated memory",
      "Overflow": "the module writes outside the allocated memory", "Refused": "a valid message is not decoded", "NotRefused": "a message that can not be decoded gives a value", "Leak": "memory is not released",
      "Changed": "a result changed later", "Rows": "wrong number of points", "Step": "wrong size of a point", "Fields": "the fields are not those of the message", "Header": "the header is not that of the message",
      "Sizes": "wrong sizes", "Meta": "wrong metadata", "Data": "wrong data"}


def run_front(cmd, plans, env, what, jobs=NCPU, timeout=300):
    """plans: JSON-able, one result line each"""
    res = [None] * len(plans)
    errs = []

    def work(k):
        idx = list(range(k, len(plans), jobs))
        while idx:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **env))
            try:
                o, e = p.communicate("".join(json.dumps(plans[q]) + "\n" for q in idx).encode(), timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                e += b" (timed out)"
            lines = [l for l in o.decode(errors="replace").splitlines() if l.startswith("{")]
            done = 0
            for q, l in zip(idx, lines):
                try:
                    res[q] = json.loads(l)
                except ValueError:
                    break
                done += 1
            if done == len(idx):
                return
            res[idx[done]] = {"crash": (e.decode(errors="replace")[-600:] or "rc=%s" % p.returncode)}
            idx = idx[done + 1:]
    ths = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return res


def front(chk, kind, ms, hists, make_plan, cmd, env, want, got, api):
    rng = chk.rng
    plans, metas = [], []
    for h in hists:
        steps, last = [], None
        for l in h:
            x = last[0] if l == "R" and last else ms.take("G" if l == "R" else l)
            a = "header" if kind == "py" and (l == "H" or l == "R" and last and last[1] == "header") else api
            again = int(l == "R" and last is not None and not last[2])
            steps.append((x, a, again, rng.choice([1, 2, 3]) if l == "F" else 0, l))
            last = (x, a, l == "F")
        plans.append(make_plan(rng, steps))
        metas.append(steps)
    res = run_front(cmd, plans, env, kind)
    tla, tm = [], []
    cache = {}
    for plan, steps, r in zip(plans, metas, res):
        rep = {"plan": plan, "messages": [{"l": s[4], "d": s[0]["d"].hex()[:20000]} for s in steps[:40]]}
        if r is None or "crash" in r or "new" in r or "harness" in r:
            if r and "harness" in r:
                raise CheckError("front end runner: %s" % r["harness"])
            chk.violation("the front end does not survive a history: %s" % r, rep)
            continue
        ev, q = [], 0
        for e in r["ev"]:
            if e["k"] == "ready":
                continue
            e = dict(e)
            if e["k"] == "begin":
                x, a, again, fail, l = steps[q]
                q += 1
                may, must = x["may"], x["must"]
                if a == "header":
                    may = 1 if x["hdr"] is not None else 0
                    must = may
                    if x["hdr"] is not None and not plain(x["hdr"]):
                        may, must = 2, 0
                if kind == "py" and x["hdr"] is not None and not all(re.fullmatch(rb"[\x20-\x7e]*", bytes(f.name)) for f in x["hdr"].fields):
                    may, must = 2, 0  # damage that went into a name: no text any more
                if id(x) not in cache:
                    cache[id(x)] = want(x)
                e = {"k": "begin", "api": a, "may": may, "must": 0 if fail else must, "again": again, "want": cache[id(x)]}
                if not fail and kind == "js" and "wait" in plan["steps"][q - 1]:
                    e["may"], e["must"] = 0, 0
            elif e["k"] == "end":
                e = {"k": "end", "ok": e["ok"], "got": got(e) if e["ok"] else {}, "ex": str(e.get("ex", ""))[:100]}
            elif e["k"] == "call":
                e = {"k": "call", "p": e["p"], "n": e["n"], "out": e["out"], "need": e["need"] if e["need"] < 1 << 31 else (1 << 31) - 1}
            ev.append(e)
        chk.count("calls", len(steps))
        tla.append({"ev": ev, "later": r["later"]})
        tm.append((rep, steps))
    verd, st = judge("Front", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    for t, v, (rep, steps) in zip(tla, verd, tm):
        if v[0] != "ok":
            e = t["ev"][v[1] - 1] if 0 < v[1] <= len(t["ev"]) else {}
            b = t["ev"][v[2] - 1] if 0 < v[2] <= len(t["ev"]) else {}
            q = sum(1 for k in t["ev"][:v[1]] if k["k"] == "begin")
            x = steps[q - 1][0] if 0 < q <= len(steps) else None
            note = ""
            if v[0] == "Overflow" and x and x["parsed"] and x["hdr"] is not None and x["n"] > x["w"] * x["h"] * x["step"] and x["n"] == e.get("need"):
                note = " (the payload announces more points than the message)"
            chk.violation("%s%s: event %s %s, call %d" % (TX[v[0]], note, v[1], json.dumps({k: w for k, w in e.items() if k not in ("got",)})[:300], q), dict(rep, event=e, begin=b))
    for l in sorted({s[4] for p in metas for s in p}):
        chk.count("steps_" + l, sum(1 for p in metas for s in p if s[4] == l))
    if tla:
        chk.sample({"history": [s[4] for s in metas[0]], "events": len(tla[0]["ev"])})
        chk.sample(plans[-1])
    return res


def c25(chk):
    so = build_frontlib()
    T = THOROUGH
    ms = Msgs(chk, 240 if T else 90, "front-")
    try:
        ms.add_large(4 if T else 2)
        wasm = os.path.join(ms.dir, "m.wasm")
        with open(wasm, "wb") as f:
            f.write(b"\0asm\1\0\0\0")
        hists, r = histories("py", 4 if T else 3)
        chk.add_stats({"states": r.states, "transitions": r.generated})
        long_, _ = histories("py", 14, simulate=400 if T else 60, seed=chk.rng.randrange(1, 1 << 30))
        hists += long_
        hists = [[l for l in h] for h in hists]

        def make_plan(rng, steps):
            p = {"named": rng.random() < 0.8, "trap": rng.random() < 0.3, "steps": []}
            for k, (x, a, again, fail, l) in enumerate(steps):
                s = {"id": k, "file": x["file"], "api": a}
                if fail:
                    s["fail"] = fail
                if rng.random() < 0.5:
                    s["verbose"] = rng.random() < 0.5
                p["steps"].append(s)
            return p

        def got(e):
            s = e.get("shape")
            g = {"hdr": e["hdr"] if e.get("hdr") else NOHDR}
            if s:
                g.update(rows=s["rows"], step=s["step"], all=s["all"], fields=[f + [d] for f, d in zip(s["fields"], s["digs"])])
            return g
        root = os.path.dirname(LIBDIR)
        front(chk, "py", ms, hists, make_plan, [PYVT, os.path.join(VERIF, "harness", "front", "front_py.py")], {"FRONT_LIB": so, "FRONT_REPO": root, "FRONT_WASM": wasm}, want_array, got, "decode")
    finally:
        ms.close()


# ---------------------------------------------------------------- the Foxglove converter
def build_frontnode():
    return build("frontlib.node", lib_sources(wasm=True) + [os.path.join(VERIF, "harness", "front", f) for f in ("frontlib.cpp", "frontnode.cpp")], flags=["-fPIC", "-I/usr/include/node"], link=["-shared"],
                 incs=[os.path.join(VERIF, "harness", "stubs")], asan=False, opt="-O2")


def bundle(d):
    """the extension's sources as one file, next to the stand-in of the module"""
    src = os.path.join(os.path.dirname(LIBDIR), "cloudini_foxglove", "src")
    with open(os.path.join(d, "entry.ts"), "w") as f:
        f.write('export * from "%s/PointCloudConverter";\nexport { activate } from "%s/index";\n' % (src, src))
    r = subprocess.run(["/opt/veriftools/node/node_modules/.bin/esbuild", "entry.ts", "--bundle", "--format=esm", "--platform=node", "--external:./cloudini_wasm_single.js", "--external:@foxglove/*", "--outfile=front.js",
                        "--log-level=error", "--tsconfig-raw={}"], cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("bundling the extension failed:\n" + r.stderr[-3000:])
    shutil.copy(os.path.join(VERIF, "harness", "front", "cloudini_wasm_single.js"), d)
    with open(os.path.join(d, "package.json"), "w") as f:
        f.write('{"type":"module"}')


class Payloads(Msgs):
    """messages of the converter: metadata, and the payload as bytes"""

    def form(self, m, comp):
        m = dict(m, row=m["w"] * m["step"])
        _, at = write_msg(m, b"")
        return {"d": comp[at + 4:at + 4 + int.from_bytes(comp[at:at + 4], "little")], "m": m}

    def without(self, f):
        return f

    def weigh(self, msgs):
        for x, r in zip(msgs, run_ops(self.ros, [("full", {"d": x["d"].hex(), "fill": 0}) for x in msgs], timeout=60)):
            m = x["m"]
            x["hdr"] = parse_info(r["info"]) if "info" in r else None
            x["out"] = bytes.fromhex(r["out"]) if r.get("ok") and "out" in r else None
            x["n"] = x["hdr"].w * x["hdr"].h * x["hdr"].step if x["hdr"] else 0
            x["w"], x["h"], x["step"], x["parsed"] = m["w"], m["h"], m["step"], True
            want = m["w"] * m["h"] * m["step"]
            x["file"] = os.path.join(self.dir, "%d.bin" % id(x))
            if m["w"] * m["h"] == 0:
                x["may"] = x["must"] = 1
                x["out"] = b""
            elif r.get("huge") or want == 0:
                x["may"], x["must"] = 2, 0
            else:
                x["may"] = x["must"] = int(x["out"] is not None and len(x["out"]) == want and x["n"] == want)
        for x in msgs:
            with open(x["file"], "wb") as f:
                f.write(x["d"])
        return msgs

    def damage(self, f):
        rng = self.rng
        b = bytearray(f["d"])
        k = rng.randrange(5)
        if k == 0:
            b = b[:rng.randrange(len(b))]
        elif k == 1:
            b[rng.randrange(12)] ^= 1 << rng.randrange(7)
        elif k == 2:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif k == 3:
            b = rng.choice([b"", b"C", bytes(rng.randbytes(40))])
        else:
            b += bytes(rng.randbytes(rng.randint(1, 9)))
        return {"d": bytes(b), "m": f["m"]}

    def mismatch(self, f):
        rng = self.rng
        m = dict(f["m"])
        m["w"], m["h"], m["step"] = rng.choice([(m["w"] + 1, m["h"], m["step"]), (m["w"] - 1, m["h"], m["step"]), (m["w"], m["h"] + 1, m["step"]), (m["w"], m["h"], m["step"] + 1), (m["w"], m["h"] * 2, m["step"]), (1, 1, 1), (m["w"] * m["h"] + 3, 1, m["step"])])
        return {"d": f["d"], "m": m}


def want_cloud(x):
    m = x["m"]
    return {"w": m["w"], "h": m["h"], "step": m["step"], "head": head_of(m), "dense": m["dense"], "fields": [[n.decode("latin1"), o, t, c] for n, o, t, c in m["fields"]], "dig": sha(x["out"] or b"")}


def stamp_of(m):
    return {"sec": int.from_bytes(m["sec"], "little", signed=True), "nsec": int.from_bytes(m["nsec"], "little")}


def head_of(m):
    return json.dumps([m["frame"].hex(), stamp_of(m)], separators=(",", ":"))


def c26(chk):
    so = build_frontnode()
    T = THOROUGH
    ms = Payloads(chk, 240 if T else 90, "front-")
    try:
        bundle(ms.dir)
        ms.add_large(4 if T else 2)
        hists, r = histories("js", 4 if T else 3)
        chk.add_stats({"states": r.states, "transitions": r.generated})
        long_, _ = histories("js", 14, simulate=400 if T else 80, seed=chk.rng.randrange(1, 1 << 30))
        hists += long_

        def make_plan(rng, steps):
            p = {"hold": rng.random() < 0.2, "growing": rng.random() < 0.3, "through": rng.random() < 0.5, "steps": []}
            for k, (x, a, again, fail, l) in enumerate(steps):
                m = x["m"]
                s = {"file": x["file"], "off": rng.choice([0, 0, 1, 8, 100]), "after": rng.choice([0, 5]),
                     "msg": {"header": {"frame_id": m["frame"].hex(), "stamp": stamp_of(m)}, "height": m["h"], "width": m["w"], "fields": [[n.decode("latin1"), o, t, c] for n, o, t, c in m["fields"]], "is_bigendian": rng.random() < 0.1,
                             "point_step": m["step"], "row_step": rng.choice([m["row"], 0, m["row"] + 7]), "is_dense": bool(m["dense"])}}
                if fail:
                    s["fail"] = fail
                if p["hold"] and k < 2 and rng.random() < 0.7 and (k == 0 or "wait" in p["steps"][-1]):
                    s["wait"] = 1
                p["steps"].append(s)
            return p
        res = front(chk, "js", ms, hists, make_plan, ["node", os.path.join(VERIF, "harness", "front", "front_js.mjs"), ms.dir], {"FRONT_LIB": so}, want_cloud, lambda e: e["got"], "convert")
        for r in res:
            if r and "reg" in r and (r["reg"] != [["schema", "point_cloud_interfaces/msg/CompressedPointCloud2", "sensor_msgs/msg/PointCloud2"]] or r["instances"] != 1):
                chk.violation("the extension registers %s and instantiates the module %s times" % (r["reg"], r["instances"]), {})
                break
    finally:
        ms.close()
