"""C33 text headers laid out in any way, read by the code, judged by TextHeader.tla."""
from wire import *
import header

ENCN, COMPN = ["NONE", "LOSSY", "LOSSLESS"], ["NONE", "LZ4", "ZSTD"]
TYPEN = "? INT8 UINT8 INT16 UINT16 INT32 UINT32 FLOAT32 FLOAT64 INT64 UINT64".split()
NUMJUNK = ["-1", "abc", "5x", "3.7", "1e3", "0x10", "4294967296", "99999999999999999999", "1 2", "--3", "5-", "1,000", ".", "NaN"]


def res_text(rng):
    return rng.choice(["0.001", "1e-3", "1E-3", ".5", "5.", "1", "0.0010", "0.01", "2.5e+1", "1e-06", "0.25", "100", "0.123456", "%g" % (rng.randint(1, 9999) / 1000), "%.5f" % (rng.randint(1, 99999) / 1000)])


def name_text(rng):
    return rng.choice(["x", "y", "z", "intensity", "ring", "t", "a:b", "a.b", "frame/x", "rgb", "time stamp", "name", "fields", "offset", "version", "x-1", "X_%d" % rng.randrange(99), "".join(rng.choice(header.NAMECHARS) for _ in range(rng.choice([1, 3, 12, 60])))])


def num_text(rng):
    return str(rng.choice(header.U32S) if rng.random() < 0.5 else rng.getrandbits(rng.choice([4, 8, 16, 31, 32])))


def junk_num(rng):
    return rng.choice(NUMJUNK)


def kv(rng, k, v):
    return k + " " * rng.choice([0, 0, 0, 1, 3]) + ":" + " " * rng.choice([1, 1, 1, 2, 5]) + v


def noise(rng):
    return rng.choice(["", "", "   ", "\t", "# comment", "   # - name: x", "#width: 7", " #", "        # fields:", "\r"])


def text(rng, magic):
    """-> lines"""
    r = rng.random()
    bad, at = r < 0.15, rng.randrange(rng.choice([25, 60])) if r > 0.7 else -1  # many defects, a single one (at that place), none
    left = [at]

    def broken(p=0.15):
        left[0] -= 1
        return left[0] == -1 and at >= 0 or bad and rng.random() < p
    top = [("version", "300" if broken(0.1) else rng.choice("2345")), ("width", num_text(rng)), ("height", num_text(rng)), ("point_step", num_text(rng)),
           ("encoding_opt", rng.choice(ENCN) if rng.random() < 0.8 else rng.choice("012")), ("compression_opt", rng.choice(COMPN) if rng.random() < 0.8 else rng.choice("012"))]
    top = [(k, rng.choice(["lossy", "LOSSYX", "NON", "3", "-1", "9", "1x", "ZSTD2"]) if k.endswith("opt") and broken() else junk_num(rng) if broken() else v) for k, v in top]
    top = [x for x in top if not broken(0.06)]
    if rng.random() < 0.3:
        top.append(("encoding_config", rng.choice(["k=v", "a b", "1", "profile/x", "a:b"])))
    while rng.random() < 0.25:
        top.append((rng.choice(["author", "comment", "Width", "widths", "resolution", "name", "x1"]), rng.choice(["me", "5", "a:b", "null", "- 3"])))
    items = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 9])):
        r = rng.random()
        it = [("name", name_text(rng)), ("offset", junk_num(rng) if broken(0.08) else num_text(rng)), ("type", rng.choice(["INT", "INT128", "int8", "FLOAT", "8F"]) if broken(0.08) else rng.choice(TYPEN[1:])),
              ("resolution", rng.choice(["abc", "0.1m", "1e", "nul", "1 m", "0,1", "-"]) if broken(0.08) else "null" if r < 0.4 else res_text(rng))]
        it = [x for x in it if not broken(0.04)]
        if rng.random() < 0.15:
            it.append((rng.choice(["count", "unit"]), rng.choice(["1", "m"])))
        if rng.random() < 0.5:
            rng.shuffle(it)
        if it:
            items.append(it)
    if rng.random() < 0.5:
        rng.shuffle(top)
    seen, out = set(), []
    top = [x for x in top if x[0] not in seen and not seen.add(x[0])]
    at = len(top) if rng.random() < 0.6 else rng.randrange(len(top) + 1)
    ind = rng.choice([0, 1, 2, 2, 2, 3, 4, 4, 8])
    gap = rng.choice([1, 1, 1, 2, 3, 9])
    for j in range(len(top) + 1):
        if j == at:
            out.append("fields" + rng.choice(["", "", " "]) + ":" + (" []" if not items and rng.random() < 0.5 else ""))
            for it in items:
                for q, (k, v) in enumerate(it):
                    out.append(" " * ind + ("-" + " " * gap if q == 0 else " " * (1 + gap)) + kv(rng, k, v))
        if j < len(top):
            out.append(kv(rng, *top[j]))
    if rng.random() < 0.06:  # no longer a header anybody can be sure of
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.randrange(len(out))
            out[k] = rng.choice([" " + out[k], "\t" + out[k], out[k].replace(":", "", 1), "- " + out[k], out[k].rstrip() + "\n" + out[k], "-", ":", "- :", "fields:", out[k].lstrip()])
    lay = rng.random()
    res = []
    for l in "\n".join(out).split("\n"):
        while lay < 0.6 and rng.random() < 0.15:
            res.append(noise(rng))
        if lay < 0.6 and rng.random() < 0.15:
            l += rng.choice([" ", "\t", "  # what: it is", " #", " # - 7", "\t# x"])
        res.append(l)
    if lay > 0.85:
        res = [l + "\r" for l in res]
    while rng.random() < 0.3:
        res.append(noise(rng))
    return res


def c33(chk):
    rng = chk.rng
    exe = build_cldrv()
    plans, ops = [], []
    for _ in range(20000 if THOROUGH else 3000):
        magic = rng.choice([0, 0, 2, 3, 4, 5])
        ls = text(rng, magic)
        t = "\n".join(ls) + rng.choice(["\n", "\n", ""])
        ls = t.split("\n")
        if magic and "version:" not in t:
            magic = 0  # with a magic in front, this is how a text is recognized
        b = t.encode("latin1")
        if magic:
            tail = rng.choice([b"", b"\0", rng.randbytes(9), b"version: 5\n\0"])
            h = b"CLOUDINI_V%02d\n" % magic + b + b"\0"
            ops.append(("dechdr", {"d": (h + tail).hex()}))
            plans.append((ls, magic, len(h), len(tail)))
        else:
            ops.append(("fromyaml", {"d": b.hex()}))
            plans.append((ls, 0, len(b), 0))
    cases = []
    for (ls, magic, n, tail), op, r in zip(plans, ops, run_ops(exe, ops, timeout=60)):
        if r.get("ex") in ("crash", "other"):
            chk.violation("reading a text header: %s: %r" % (r.get("what", "no std::exception"), "\n".join(ls)[:600]), {"op": op, "text": "\n".join(ls)})
        fl = []
        for l in ls:
            v = l.split("#")[0].partition(":")[2].strip()
            if re.search(r"resolution\s*:", l) and re.fullmatch(r"(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v) and float(v) > 0:
                fl.append([[ord(x) for x in v], header.halves(f32bits(f32(float(v))))])
        k = {"lines": [[ord(x) for x in l] for l in ls], "floats": fl, "magic": magic, "read": bool(r.get("ok")), "back": {}, "used": n, "len": n}
        if r.get("ok"):
            i = parse_info(r["info"])
            dg = lambda v: [ord(x) for x in str(v)]
            k["back"] = {"ver": i.ver, "w": dg(i.w), "h": dg(i.h), "step": dg(i.step), "enc": i.enc, "comp": i.comp, "cfg": list(i.cfg),
                         "fields": [{"name": list(f.name), "off": dg(f.off), "t": f.type, "res": [] if f.res is None else header.halves(f32bits(f.res))} for f in i.fields]}
            if magic:
                k["used"] = n + tail - r["left"]
        cases.append(k)
    verd, st = judge("TextHeader", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    TX = {"refused": "a header that says everything is refused", "accepted": "a header that does not say everything is accepted", "length": "not the whole header is consumed"}
    for v, k, op, r, (ls, magic, n, tail) in zip(verd, cases, ops, [None] * len(cases), plans):
        chk.count("verdict_" + (v[0] if v[0] in ("ok", "open", "rejected") else "violation"))
        if v[0] not in ("ok", "open", "rejected"):
            chk.violation("%s: %r" % (TX.get(v[0], "another %s is read than the header says" % v[0]), "\n".join(ls)[:700]), {"text": "\n".join(ls), "op": op, "back": k["back"]})
    chk.sample({"text": "\n".join(plans[0][0])})
