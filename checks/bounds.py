"""C08: worst-case size and buffer contract, judged by Bounds.tla."""
from wire import *
from codec import rand_info, rand_types


def worst_column(rng, info, f, n):
    """values that cost as many bytes as possible in whatever coding has been chosen"""
    t = f.type
    b = f.size * 8
    if t in (F32, F64):
        pk = (lambda x: struct.unpack("<I", struct.pack("<f", x))[0]) if t == F32 else (lambda x: struct.unpack("<Q", struct.pack("<d", x))[0])
        if info.quantized(f):
            k = rng.randrange(3)
            m = (2.0 ** 30.9 if t == F32 else 2.0 ** (62.9 if k == 0 else 52.9)) * f.res
            if t == F32 and m > 3e38:
                m = 3e38
            sp = [m, -m]
            if k == 2:
                sp += [float("inf"), float("-inf"), 3e38 if t == F32 else 1e308, -3e38 if t == F32 else -1e308]
            return [pk(sp[i % 2] if k < 2 else rng.choice(sp)) for i in range(n)]
        out, v = [], 0
        if rng.random() < 0.5:  # significant bits of the differences in two windows of which neither contains the other
            gap = rng.choice([1, 1, 1, 2, 3, 8])
            for i in range(n):
                v ^= ((rng.getrandbits(b - gap) | 1 | (1 << (b - gap - 1))) << (gap if i % 2 else 0)) & ((1 << b) - 1)
                out.append(v)
            return out
        for i in range(n):
            v ^= (1 << (b - 1)) | 1 | (rng.getrandbits(b) if i % 2 else (1 << (b // 2)))
            out.append(v)
        return out
    lo, hi = limits(t)
    k = rng.randrange(3)
    if k == 0:
        return [lo if i % 2 else hi for i in range(n)]
    if k == 1:  # every difference large and different from its neighbours
        m = (1 << b) - 1
        return [((hi if i % 2 else lo) + (i * 2654435761 % 1000003) * (1 if i % 2 == 0 else -1)) & m for i in range(n)]
    return [rng.getrandbits(b) for _ in range(n)]


def teaser(rng, t, k):
    """4096 values that make one coding the cheapest"""
    lo, hi = limits(t)
    s = rng.randrange(4)
    if s == 0:
        return [5] * k
    if s == 1:
        return [i % hi for i in range(k)]   # delta runs
    if s == 2:
        return [(i // 300) * 77 % hi for i in range(k)]
    return [rng.choice([1, hi, 1000 % hi, lo]) for i in range(k)]


def items_of(rng):
    out = []
    for _ in range(5000 if THOROUGH else 900):
        info = rand_info(rng)
        if rng.random() < 0.7:
            info.comp = CNONE
        n = info.n
        cols = {k: worst_column(rng, info, f, n) for k, f in enumerate(info.fields) if rng.random() < 0.8}
        out.append((info, gen_points(rng, info, n, cols)[0]))
    for _ in range(40 if THOROUGH else 8):   # incompressible
        fs, step = layout([(U8, None)] * rng.choice([1, 3, 16, 64]))
        info = Info(fs, step, rng.choice([1, 10, 1000, 5000]), 1, rng.choice([3, 4, 5]), rng.choice([NONE, LOSSY]), rng.choice([LZ4, ZSTD]), False)
        out.append((info, rng.randbytes(info.n * step)))
    for rep in range(12 if THOROUGH else 3):   # a coding chosen on the first points that becomes the worst possible later
        for t in ([I64, U64, U32, I16] if rep < 2 else [rng.choice(COLT)]):
            n = rng.choice([4 * CHUNK, 5 * CHUNK + 7, 6 * CHUNK])
            fs, step = layout([(t, None)])
            info = Info(fs, step, n, 1, 5, LOSSY, CNONE, False)
            col = teaser(rng, t, 4096) + worst_column(rng, info, fs[0], n - 4096)
            out.append((info, gen_points(rng, info, n, {0: col})[0]))
    for t in (F64, F64, F32):     # many chunks of expensive floats
        for enc, res in ((LOSSY, None), (LOSSLESS, None), (LOSSY, 0.001)):
            for k in ([1] if res is None else [1, 4]):
                fs, step = layout([(t, res)] * k)
                info = Info(fs, step, 2 * CHUNK + 3, 1, rng.choice([3, 4, 5]), enc, CNONE, False)
                out.append((info, gen_points(rng, info, info.n, {j: worst_column(rng, info, fs[j], info.n) for j in range(k)})[0]))
    return out


def c08(chk):
    exe = build_cldrv()
    rng = chk.rng
    items = items_of(rng)
    r = run_ops(exe, [("maxsize", {"info": i.s(), "n": i.n, "hdr": h}) for i, d in items for h in (0, 1)])
    adv = [[r[2 * k], r[2 * k + 1]] for k in range(len(items))]
    for k, (i, d) in enumerate(items):
        if not all(x.get("ok") for x in adv[k]):
            chk.violation("the worst-case size of a legal description is refused: %s %s" % (adv[k][0].get("what"), json.dumps(i.brief())), {"info": i.s()})
    # what the cloud really takes, in a buffer with room to spare
    sess = []
    for k, (i, d) in enumerate(items):
        a = adv[k]
        if not all(x.get("ok") for x in a):
            continue
        big = a[1]["n"] * 2 + 20000
        sess.append([("n%d" % k, "newenc", {"o": "e", "info": i.s()})] +
                    [("%s%d" % (h, k), "encb", {"o": "e", "d": d.hex(), "cap": big, "hdr": h}) for h in (0, 1)] + [("v%d" % k, "encv", {"o": "e", "d": d.hex(), "pre": 0}), ("x%d" % k, "delenc", {"o": "e"})])
    res = run_sessions(exe, sess, timeout=90)
    ops, where = [], []
    need = {}
    for k, (i, d) in enumerate(items):
        a, b, v = res.get("0%d" % k), res.get("1%d" % k), res.get("v%d" % k)
        if a is None:
            continue
        if not (a.get("ok") and b.get("ok") and v.get("ok")):
            f = next(x for x in (a, b, v) if not x.get("ok"))
            chk.violation("encoding into an ample buffer failed: %s %s" % (f.get("what", f.get("ex")), json.dumps(i.brief())), {"info": i.s(), "data": d.hex()[:100000]})
            continue
        need[k] = [a["n"], b["n"]]
        if v["n"] != b["n"] or v["size"] != v["n"] or v["out"] != b["out"] or b["out"][len(b["out"]) - len(a["out"]):] != a["out"]:
            chk.violation("the vector and the buffer form of encode disagree or return another size than they use; %s" % json.dumps(i.brief()), {"info": i.s(), "data": d.hex()[:100000]})
        A = [adv[k][0]["n"], adv[k][1]["n"]]
        caps = []
        for h in (0, 1):
            cs = {A[h]: 1}
            if i.n < 20000:
                for x in (A[h] + 1, A[h] - 1, need[k][h], need[k][h] - 1, need[k][h] + 1, 0, 1, A[h] // 2, A[h] - 40, A[0] if h else A[1], A[h] - 4):
                    if x >= 0 and (x not in cs) and rng.random() < 0.6:
                        cs[x] = 1
            for x in cs:
                caps.append((h, x, len(d), i.step))
        if i.n < 2000 and i.step > 1 and len(d) and rng.random() < 0.5:
            caps.append((0, A[0] + 50, len(d) - rng.randint(1, i.step - 1), i.step))
        if i.n and rng.random() < 0.1:
            caps.append((0, A[0] + 50, len(d), 0))
        s = []
        for j, (h, cap, dl, st) in enumerate(caps):
            ii = i if st else i.copy(step=0)
            ops.append((k, dict(hdr=h, cap=cap, dlen=dl, step=st), [("n%d.%d" % (k, j), "newenc", {"o": "e", "info": ii.s()}), ("r%d.%d" % (k, j), "encb", {"o": "e", "d": d[:dl].hex(), "cap": cap, "hdr": h, "fill": 0x5A}), ("x%d.%d" % (k, j), "delenc", {"o": "e"})]))
    rr = run_sessions(exe, [o[2] for o in ops], timeout=90)
    cases, idx = [], {}
    for k, o, s in ops:
        x = rr[s[1][0]]
        c0 = rr[s[0][0]]
        if not c0.get("ok"):      # a zero step may already be refused by the constructor
            o["real"], o["used"] = ("crash" if c0.get("ex") == "crash" else "throw"), 0
        elif x.get("ex") == "crash":
            o["real"], o["used"], o["what"] = "crash", 0, x.get("what", "")
        elif x["ok"]:
            o["real"], o["used"] = "ok", x["n"]
        else:
            o["real"], o["used"] = ("throw" if x.get("ex") == "std" else "crash"), 0
        if k not in idx:
            idx[k] = len(cases)
            cases.append({"adv": [a["n"] for a in adv[k]], "need": need[k], "ops": []})
        cases[idx[k]]["ops"].append(o)
    ks = sorted(idx, key=lambda k: idx[k])
    verd, st = judge("Bounds", cases)
    chk.add_stats(st)
    chk.traces(sum(len(c["ops"]) for c in cases))
    chk.count("clouds", len(cases))
    chk.count("calls", sum(len(c["ops"]) for c in cases))
    tight = max((c["need"][0] / max(1, c["adv"][0]) for c in cases), default=0)
    chk.cov["fullest_use_of_the_bound_percent"] = round(100 * tight, 2)
    for v, k, c in zip(verd, ks, cases):
        if v[0] != "ok":
            i, d = items[k]
            what = {"Bound": "the encoded cloud is larger than the advertised worst case (%d > %s)" % (v[2], c["adv"]), "Overrun": "encode wrote outside the buffer or crashed",
                    "NotRefused": "a call that must be refused was not", "Refused": "a buffer of the advertised size was refused", "Used": "the returned size differs from the bytes used"}[v[0]]
            o = c["ops"][v[1] - 1] if v[1] else {}
            chk.violation("%s: %s; %s" % (what, json.dumps(o), json.dumps(i.brief())), {"info": i.s(), "call": o, "data": d.hex()[:200000]})
    chk.sample(items[0][0].brief())
    chk.sample(items[-1][0].brief())
