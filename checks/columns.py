"""C13: cheapest coding of integer columns, judged by ColumnChoice.tla."""
import itertools
from wire import *
from codec import rand_info


def sext(t, raw):
    b = SIZE[t] * 8
    return raw - (1 << b) if t in SIGNED and raw >> (b - 1) else raw


def item(rng, types, n, cols, reg=0, lead=0, thr=False):
    """reg: number of UINT8 fields before/among the columns, lead: a constant leading float group"""
    ts = [(F32, 0.01)] * lead + [(t, None) for t in types]
    for _ in range(reg):
        ts.insert(rng.randint(lead, len(ts)), (rng.choice([U8, I8]), None))
    fs, step = layout(ts, rng, shuffle=rng.random() < 0.5, gaps=rng.random() < 0.3)
    info = Info(fs, step, n, 1, 5, LOSSY, CNONE, thr)
    raw, ci = [], 0
    order = []
    for f in fs:
        m = (1 << (8 * f.size)) - 1
        if f.type == F32:
            raw.append([0] * n)
        elif f.type in (U8, I8):
            raw.append([rng.randrange(256)] * n)
        else:
            raw.append([v & m for v in cols[ci]])
            order.append((f.type, raw[-1]))
            ci += 1
    return info, pack_points(info, raw, n), order, reg + lead


def near_tie(rng, t, n):
    """columns where two codings cost about the same"""
    lo, hi = limits(t)
    k = rng.randrange(6)
    if k == 0:  # few runs
        out = []
        while len(out) < n:
            out += [rng.choice([0, 1, 5, 100, hi])] * rng.choice([1, 2, 3, 5])
        return out[:n]
    if k == 1:
        pal = [rng.choice([0, 50, 70, 100, 8000, 9000, hi, lo]) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
        return [rng.choice(pal) for _ in range(n)]
    if k == 2:
        out, v = [], 0
        d = 1
        while len(out) < n:
            if rng.random() < 0.2:
                d = rng.choice([0, 1, 2, 64, 100])
            v += d
            out.append(min(hi, v))
        return out
    if k == 3:
        return [rng.choice([0, 1]) for _ in range(n)]
    if k == 4:
        a = rng.randrange(n + 1)
        return [7] * a + [rng.choice([8, 7, 90, 200]) for _ in range(n - a)]
    return int_column(rng, t, n)


def c13(chk):
    exe = build_cldrv()
    rng = chk.rng
    items = []
    for _ in range(14000 if THOROUGH else 3000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 17, 20, 31, 33, 40, 64, 65, 100, 127, 128, 129, 130, 200, 256, 257])
        types = [rng.choice(COLT) for _ in range(rng.choice([1, 1, 2, 3]))]
        items.append(item(rng, types, n, [near_tie(rng, t, n) for t in types], reg=rng.choice([0, 0, 1, 2]), lead=rng.choice([0, 0, 3, 4])))
    # all columns of up to 5 values over a small alphabet, packed as the columns of one cloud
    for t in COLT:
        lo, hi = limits(t)
        al = sorted({0, 1, 200, hi})
        for n in (1, 2, 3, 4, 5):
            cs = list(itertools.product(al, repeat=n))
            if len(cs) > 256 and not THOROUGH:
                cs = rng.sample(cs, 256)
            for a in range(0, len(cs), 128):
                part = cs[a:a + 128]
                items.append(item(rng, [t] * len(part), n, part))
    for n in [1000, 2048, 4000, 4095, 4096] * (10 if THOROUGH else 3):
        types = [rng.choice(COLT)]
        items.append(item(rng, types, n, [int_column(rng, t, n) for t in types], thr=rng.random() < 0.5))
    for n in [4097, 5000, 8192, 20000, 32768, 32769, 40000, 70000] * (6 if THOROUGH else 1):
        types = [rng.choice(COLT) for _ in range(1)]
        cols = []
        for t in types:   # different in character before and after the probe
            a = int_column(rng, t, 4096)
            b = []
            while len(b) < n - 4096:
                b += int_column(rng, t, min(n - 4096 - len(b), rng.choice([904, 4096, 28672, 40000])))
            cols.append(a + b)
        items.append(item(rng, types, n, cols, reg=rng.choice([0, 1]), thr=rng.random() < 0.5))
    ops = [[("n", "newenc", {"o": "e", "info": i.s()}), (k, "encb", {"o": "e", "d": d.hex(), "cap": i.n * sum(12 for f in i.fields) + 100 * len(i.fields) + 4096, "hdr": 0})] for k, (i, d, o, r) in enumerate(items)]
    for s in ops:
        s.append(("x" + str(s[1][0]), "delenc", {"o": "e"}))
        s[0] = ("n" + str(s[1][0]),) + s[0][1:]
    res = run_sessions(exe, ops, timeout=60)
    cases, metas = [], []
    for k, (info, data, order, reg) in enumerate(items):
        r = res[k]
        if not r.get("ok"):
            chk.violation("encoding failed: %s %s" % (r.get("what"), json.dumps(info.brief())), {"info": info.s()})
            continue
        p = bytes.fromhex(r["out"])
        cases.append({"n": info.n, "reg": reg + 0, "cols": [{"sz": SIZE[t], "v": [limbs4(sext(t, x)) for x in col]} for t, col in order],
                      "chunks": [list(d) for _, d in frames(p)]})
        metas.append((info, data))
    verd, st = judge("ColumnChoice", cases, timeout=800)
    if "NeverWorse is violated" in st.get("out", ""):
        raise CheckError("ColumnChoice: the specification itself breaks NeverWorse")
    chk.add_stats(st)
    chk.traces(len(cases))
    chk.count("columns", sum(len(c["cols"]) for c in cases))
    modes = {}
    for c in cases:
        if c["chunks"]:
            m = c["chunks"][0][c["reg"] * min(c["n"], CHUNK)]
            modes[m] = modes.get(m, 0) + 1
    chk.cov["first_column_modes"] = modes
    if len(modes) < 4 and not chk.violations:
        pass
    for v, (info, data) in zip(verd, metas):
        if v[0] == "ok":
            continue
        what = {"Cheapest": "an integer column is not stored in the cheapest coding", "Kept": "the coding of a column changed after the first 4096 points",
                "glue": "the column sections do not have the size of their coding"}[v[0]]
        chk.violation("%s: chunk %d column %d mode %s; bytes of delta/palette/RLE/delta-RLE for the chunk: %s; %s" % (what, v[1], v[2], v[3], v[4:8], json.dumps(info.brief())),
                      {"info": info.s(), "data": data.hex()[:200000]})
    chk.sample(items[0][0].brief())
    chk.sample(items[-1][0].brief())
