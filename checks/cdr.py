"""C15: CDR buffers written and read by nanocdr, judged by Cdr.tla."""
import itertools
from wire import *

PSIZE = {"u8": 1, "i8": 1, "chr": 1, "byt": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}
MODES = [(1, 0, 1), (2, 0, 2), (2, 2, 2), (2, 2, 3), (3, 4, 2), (3, 4, 3)]  # version, encoding, what the reader assumes


class Pat:
    """deterministic values: all bytes of a case differ"""
    def __init__(self):
        self.k = 0

    def b(self, n):
        out = bytes((self.k + 1 + i) % 255 + 1 for i in range(n))
        self.k += n
        return out


class Rnd:
    def __init__(self, rng):
        self.rng = rng

    def b(self, n):
        r = self.rng
        return bytes(n) if r.random() < 0.1 else (b"\xff" * n if r.random() < 0.1 else r.randbytes(n))


def item(kind, src, ln=2):
    """-> (driver token, TLA value)"""
    def num(n):
        return src.b(n)

    def rec():
        a, b, s, d = num(1), num(4), src.b(ln), num(8)
        return [a, b, s, d], {"k": "r", "v": [{"k": "n", "v": list(a)}, {"k": "n", "v": list(b)}, {"k": "s", "v": list(s)}, {"k": "n", "v": list(d)}]}
    if kind in PSIZE:
        v = num(PSIZE[kind])
        return kind + ":" + v.hex(), {"k": "n", "v": list(v)}
    if kind == "bool":
        v = src.b(1)[0] & 1
        return "bool:%02x" % v, {"k": "n", "v": [v]}
    if kind in ("s", "b"):
        v = src.b(ln)
        return kind + ":" + v.hex(), {"k": kind, "v": list(v)}
    if kind == "vs":
        vs = [src.b(x) for x in range(ln)]
        return "vs:" + ".".join([str(len(vs))] + [v.hex() for v in vs]), {"k": "vs", "v": [list(v) for v in vs]}
    if kind == "r":
        p, t = rec()
        return "r:" + ".".join(x.hex() for x in p), t
    if kind == "vr":
        rs = [rec() for _ in range(ln)]
        return "vr:" + ".".join([str(ln)] + [x.hex() for p, _ in rs for x in p]), {"k": "r", "v": [{"k": "c", "v": ln, "z": 17}] + [t for _, t in rs]}
    if kind[0] == "v":
        vs = [num(PSIZE[kind[1:]]) for _ in range(ln)]
        return kind + ":" + ".".join([str(ln)] + [v.hex() for v in vs]), {"k": "v", "v": [list(v) for v in vs], "z": PSIZE[kind[1:]]}
    n = int(kind[1])
    vs = [num(PSIZE[kind[2:]]) for _ in range(n)]
    return kind + ":" + ".".join([str(n)] + [v.hex() for v in vs]), {"k": "a", "v": [list(v) for v in vs]}


PRIMS = list(PSIZE)
KINDS = PRIMS + ["bool", "s", "b", "vs", "r", "vr"] + ["v" + p for p in PRIMS] + ["a2" + p for p in PRIMS] + ["a3" + p for p in PRIMS]
LAYOUT = [("u8", 0), ("u16", 0), ("u32", 0), ("u64", 0), ("s", 0), ("s", 1), ("s", 3), ("b", 2), ("vu8", 3), ("vu16", 1), ("vf64", 0), ("vf64", 1), ("a3u16", 0), ("r", 2), ("vs", 2)]


def c15(chk):
    exe = build_rosdrv()
    rng = chk.rng
    plans = []  # list of lists of (kind, ln)
    for k in KINDS:
        for ln in (0, 1, 2, 3, 5):
            plans.append([(k, ln)])
            plans.append([("u8", 0), (k, ln), ("u8", 0)])
    for n in (2, 3):
        for t in itertools.product(LAYOUT, repeat=n):
            plans.append(list(t))
    for a, b in itertools.product(KINDS, repeat=2):
        if rng.random() < (1.0 if THOROUGH else 0.35):
            plans.append([(a, 1), (b, 2)])
    if not THOROUGH:  # the layout triples go through two modes each
        pass
    todo = [([], 0)]
    cases = []
    for p in plans:
        for m in ([rng.choice(MODES)] if len(p) > 1 else MODES):
            for big in ((0, 1) if len(p) < 3 or THOROUGH else (rng.randrange(2),)):
                src = Pat()
                cases.append(([item(k, src, ln) for k, ln in p], m, big))
    for _ in range(20000 if THOROUGH else 2500):
        src = Rnd(rng)
        p = [item(rng.choice(KINDS), src, rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 30])) for _ in range(rng.randint(0, 14))]
        cases.append((p, rng.choice(MODES), rng.randrange(2)))
    for ln in (255, 256, 257, 1023, 1024, 65535, 65536):  # lengths around the bytes of the length field, and reallocations
        for k in ("s", "b", "vu8", "vu16", "vu64"):
            if ln < 2000 or k in ("s", "b"):
                cases.append(([item("u8", Rnd(rng)), item(k, Rnd(rng), ln), item("u64", Rnd(rng))], rng.choice(MODES), rng.randrange(2)))
    # counts that multiply to little in 32 bits, and counts just too large
    counts = [k + d for k in (1 << 29, 1 << 30, 1 << 31, 3 << 30) for d in (-1, 0, 1, 2, 3)] + [0xffffffff, 0xfffffffe, 0x7fffffff, 0x10000, 0x15555556, 0xf0f0f10, 60, 200, 4000]

    def nums(p):
        if len(p) > 5 and rng.random() < 0.7 or any(len(t) > 2000 for t, _ in p):
            return ""
        return ".".join(map(str, rng.sample(counts, 6 if THOROUGH else 3 if len(p) < 3 else 1)))
    ops = [("cdr", {"nums": nums(p), "ver": m[0], "enc": m[1], "def": m[2], "big": big, "items": ";".join(t for t, _ in p), "pre": rng.choice([0, 0, 3, 9, 2000]), "own": rng.randrange(2)}) for p, m, big in cases]
    res = run_ops(exe, ops)
    # what the reader makes of header bytes
    hd = []
    for b1 in range(256):
        for d in (1, 2, 3):
            hd.append(((0, b1, 0, 0), d))
    for b1 in (0, 1, 2, 3, 4, 5):
        for d in (1, 2, 3):
            for b0, b2, b3 in [(1, 0, 0), (128, 0, 0), (255, 0, 0), (0, 1, 0), (0, 0, 1), (0, 128, 0), (0, 0, 255), (0, 3, 3)]:
                hd.append(((b0, b1, b2, b3), d))
    hres = run_ops(exe, [("cdrhdr", {"d": bytes(h).hex() + rng.choice(["", "00", "0102030405"]), "def": d}) for h, d in hd])
    for n in range(4):
        for r in run_ops(exe, [("cdrhdr", {"d": "00" * n, "def": d}) for d in (1, 2, 3)]):
            if r.get("ok") or r.get("ex") != "std":
                chk.violation("a buffer of %d bytes, shorter than the header, was not rejected: %s" % (n, r.get("what")), {"n": n})
    hdrs = []
    for (h, d), r in zip(hd, hres):
        if r.get("ex") in ("crash", "other"):
            chk.violation("reading header bytes %s crashed: %s" % (h, r.get("what")), {"h": h, "def": d})
        if r.get("ok") and r["big"] != 1 - h[1] % 2:
            chk.violation("header bytes %s: wrong byte order" % (h,), {"h": h, "def": d})
        hdrs.append(list(h) + [d, r["ver"] if r.get("ok") else 0])
    tla, metas = [], []
    for (p, m, big), r, (_, args) in zip(cases, res, ops):
        meta = {"op": "cdr", "args": dict(args, items=args["items"][:3000])}
        if not r.get("ok"):
            chk.violation("encoding or decoding a CDR buffer failed: %s: %s" % (r.get("what", r.get("ex")), args["items"][:300]), meta)
            continue
        tla.append({"ver": m[0], "enc": m[1], "big": big, "items": [t for _, t in p], "bytes": list(bytes.fromhex(r["bytes"])), "dec": r["dec"], "back": 1 if r["back"] == args["items"] else 0, "left": r["left"],
                    "cuts": list(r["cuts"]), "hdrs": [], "dmg": [[n >> 16, n & 0xffff, list(o)] for n, o in r["dmg"]]})
        meta["back"] = r["back"][:3000]
        meta["cuts"] = (r["cuts"], r["stride"])
        metas.append(meta)
    if tla:
        tla[0]["hdrs"] = hdrs
    verd, st = judge("Cdr", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    TX = {"Bytes": "the bytes written are not where alignment, length prefixes and byte order put them", "Accepts": "the reader rejects what the writer wrote", "Values": "other values are read than were written",
          "Consumed": "the reader does not consume the whole buffer", "Truncated": "a truncated buffer was not rejected", "Count": "a count larger than the buffer can hold was not refused", "Header": "wrong decision on the header bytes"}
    for v, m in zip(verd, metas):
        if v[0] != "ok":
            chk.violation("%s (%s, %s): %s" % (TX[v[0]], v[1], hdrs[v[2] - 1] if v[2] else v[3] if v[3] >= 0 else "", json.dumps(m["args"])[:400]), m)
    chk.count("buffers", len(tla))
    chk.count("truncations", sum(len(t["cuts"]) for t in tla))
    chk.count("damaged_counts", sum(len(o) - 1 for t in tla for _, _, o in t["dmg"]))
    chk.count("header_decisions", len(hdrs))
    chk.sample(metas[0]["args"])
    chk.sample(metas[-1]["args"])
