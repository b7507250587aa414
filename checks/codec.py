"""C01 exact fields, C02 quantized fields: whole-cloud round trips judged by RoundTrip.tla."""
import itertools
from wire import *

BLK = 512


def planes(f, step, data, n):
    return [data[f.off + b:n * step:step] for b in range(f.size)]


def exact_blocks(f, step, data, n):
    pl = planes(f, step, data, n)
    return ["".join(p[a:a + BLK].hex() for p in pl) for a in range(0, n, BLK)]


def quant_cells(f, vin, vout):
    """error in millionths of the resolution beyond the rounding of the type; negative: NaN cases"""
    res = f.res
    eps = 3 * 2.0 ** (-23 if f.type == F32 else -52)
    out = []
    memo = {}
    for a, b in zip(vin, vout):
        k = (a, b)
        r = memo.get(k)
        if r is None:
            an, bn = is_nan(f.type, a), is_nan(f.type, b)
            if an or bn:
                r = -1 if an and bn else (-2 if an else -3)
            else:
                x, v = to_float(f.type, b), to_float(f.type, a)
                if math.isinf(x):
                    r = -4
                else:
                    d = abs(x - v)
                    if f.type == F32 and d < 0.49 * res:
                        r = int(d / res * 1e6)
                    else:
                        e = abs(Fraction(x) - Fraction(v)) - Fraction(eps) * max(abs(Fraction(v)), abs(Fraction(x))) - DEN[f.type]
                        r = 0 if e <= 0 else int(min(-((-e * 1000000) // Fraction(res)), 2000000000))
            memo[k] = r
        out.append(r)
    return out


def fieldlist(fs):
    return [(f.name.encode() if isinstance(f.name, str) else f.name, f.off, f.type, None if f.res is None else f32bits(f.res)) for f in fs]


def column_bits(f, step, data, n):
    raw = b"".join(bytes(x) for x in zip(*planes(f, step, data, n))) if n else b""
    return list(struct.unpack("<%d%s" % (n, {1: "B", 2: "H", 4: "I", 8: "Q"}[f.size]), raw))


def rt_case(info, data, real, outb=None, rinfo=None):
    n = info.n
    k = {"real": real, "dims": 1, "nb": (n + BLK - 1) // BLK, "ex": [], "qu": []}
    fm = {"ex": [], "qu": []}
    if real != "ok":
        return k, fm
    if rinfo is not None and (rinfo.w, rinfo.h, rinfo.step, fieldlist(rinfo.fields)) != (info.w, info.h, info.step, fieldlist(info.fields)):
        k["dims"] = 0
        return k, fm
    for i, f in enumerate(info.fields):
        if info.quantized(f):
            q = quant_cells(f, column_bits(f, info.step, data, n), column_bits(f, info.step, outb, n))
            k["qu"].append([q[a:a + BLK] for a in range(0, n, BLK)])
            fm["qu"].append(i)
        else:
            k["ex"].append([exact_blocks(f, info.step, data, n), exact_blocks(f, info.step, outb, n)])
            fm["ex"].append(i)
    return k, fm


def run_paths(exe, items, rng, **kw):
    """Encode and decode each (info, data) along a random API path; returns [(real, outb, rinfo)]."""
    sess, paths = [], []
    for k, (info, data) in enumerate(items):
        p = rng.choice("ABCC")
        paths.append(p)
        if p == "A":
            sess.append([(k, "once", {"info": info.s(), "d": data.hex()})])
        elif p == "B":  # caller's buffer, no header
            cap = info.n * (sum(f.size for f in info.fields) * 2 + 16 * len(info.fields)) * 2 + 4096
            sess.append([("n%d" % k, "newenc", {"o": "e%d" % k, "info": info.s()}), (k, "encb", {"o": "e%d" % k, "d": data.hex(), "cap": cap, "fill": rng.randrange(256), "hdr": 0}), ("x%d" % k, "delenc", {"o": "e%d" % k})])
        else:  # dirty vector
            sess.append([("n%d" % k, "newenc", {"o": "e%d" % k, "info": info.s()}), (k, "encv", {"o": "e%d" % k, "d": data.hex(), "pre": rng.choice([0, 3, 5000])}), ("x%d" % k, "delenc", {"o": "e%d" % k})])
    r = run_sessions(exe, sess, timeout=60, **kw)
    ops = []
    for k, (info, data) in enumerate(items):
        e = r[k]
        if not e.get("ok"):
            ops.append(("setvec", {"v": "x", "d": ""}))
        elif paths[k] == "B":
            osz = info.n * info.step + rng.choice([0, 0, 7, 100])
            ops.append(("dec", {"info": info.s(), "d": e["out"], "osz": osz, "fill": rng.choice([0, 0x5A])}))
        else:
            ops.append(("full", {"d": e["out"], "fill": 0x5A}))
    d = run_ops(exe, ops, timeout=60, **kw)
    out = []
    for k, (info, data) in enumerate(items):
        e, x = r[k], d[k]
        if not e.get("ok"):
            out.append(("encode failed: %s" % e.get("what", e.get("ex")), None, None))
        elif not x.get("ok"):
            out.append(("decode failed: %s" % x.get("what", x.get("ex")), None, None))
        else:
            outb = bytes.fromhex(x.get("out", ""))
            ri = parse_info(x["info"]) if "info" in x else None
            if len(outb) < info.n * info.step:
                out.append(("decoded cloud is too small", None, None))
            else:
                out.append(("ok", outb, ri))
    return out


def judge_rt(chk, items, results, label, want):
    cases, maps = [], []
    for (info, data), (real, outb, ri) in zip(items, results):
        k, fm = rt_case(info, data, real, outb, ri)
        cases.append(k)
        maps.append(fm)
    verd, st = judge("RoundTrip", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    for v, (info, data), (real, outb, ri), fm in zip(verd, items, results, maps):
        if v[0] == "ok":
            continue
        acc, desc, ex, half, nan = v[1:6]
        what = None
        pos = None
        if acc:
            what = real
        elif desc:
            what = "the reader's description of the cloud is not the writer's"
        elif ex and "Exact" in want:
            f = info.fields[fm["ex"][v[6] - 1]]
            what, pos = "field %s (%s@%d) does not decode to the bytes that were encoded" % (f.name, NAMES[f.type], f.off), v[7]
        elif half and "HalfStep" in want:
            f = info.fields[fm["qu"][v[8] - 1]]
            what, pos = "field %s (%s@%d/%g) decodes to a value more than half a resolution away" % (f.name, NAMES[f.type], f.off, f.res), v[9]
        elif nan and "NaNKept" in want:
            f = info.fields[fm["qu"][v[10] - 1]]
            what, pos = "field %s (%s@%d/%g): NaN became a number or a number became NaN" % (f.name, NAMES[f.type], f.off, f.res), v[11]
        if what:
            chk.violation("%s: %s; points %s..; %s" % (label, what, None if pos is None else (pos - 1) * BLK, json.dumps(info.brief())),
                          {"info": info.s(), "data": data.hex() if len(data) < 200000 else data[:200000].hex() + "..."})
    chk.count("roundtrips_" + label, len(cases))


def ser_bounds(info):
    """point counts at internal block boundaries"""
    return [4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 100000]


def rand_info(rng, nmax=6, maxn=300, types=None, comp=None):
    types = types or rand_types(rng, nmax)
    fs, step = layout(types, rng, shuffle=rng.random() < 0.5, gaps=rng.random() < 0.5, tail=rng.choice([0, 0, 0, 1, 3, 16]))
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 129, 200, rng.randint(0, maxn), rng.randint(0, maxn)])
    w, h = n, 1
    if n and rng.random() < 0.2:
        for d in (2, 3, 5):
            if n % d == 0:
                w, h = n // d, d
    return Info(fs, step, w, h, rng.choice([3, 4, 5, 5, 5]), rng.choice([NONE, LOSSY, LOSSY, LOSSY, LOSSLESS]), rng.choice([CNONE, LZ4, ZSTD]) if comp is None else comp, rng.random() < 0.3)


def exhaustive_int(rng):
    """all columns of up to 4 values over the alphabet {lo, -1/lo+1, 0, 1, hi}, packed as the fields of few clouds"""
    items = []
    for t in INTS:
        lo, hi = limits(t)
        al = sorted({lo, hi, 0, 1, max(lo, -1), hi // 2 + 1})
        for n in (1, 2, 3, 4):
            cols = list(itertools.product(al, repeat=n))
            if n == 4:
                cols = rng.sample(cols, min(len(cols), 300))
            for a in range(0, len(cols), 150):
                part = cols[a:a + 150]
                fs, step = layout([(t, None)] * len(part))
                info = Info(fs, step, n, 1, rng.choice([3, 4, 5, 5]), rng.choice([LOSSY, LOSSY, LOSSLESS]), CNONE, False)
                m = (1 << (8 * SIZE[t])) - 1
                items.append((info, pack_points(info, [[v & m for v in c] for c in part], n)))
    return items


def big_item(rng, n, want_int=True):
    types = []
    lead = rng.choice([0, 3, 4])
    types += [(F32, rng.choice(RESOLUTIONS))] * lead
    pool = [(t, None) for t in COLT + [U8, I8, F32, F64]] + [(F32, 0.01), (F64, 0.001)]
    types += [rng.choice(pool) for _ in range(rng.randint(1, 3))]
    if not lead and rng.random() < 0.5:
        rng.shuffle(types)
    info = rand_info(rng, types=types)
    info.w, info.h = n, 1
    if n % 2 == 0 and rng.random() < 0.3:
        info.w, info.h = n // 2, 2
    if rng.random() < 0.7:
        info.ver, info.enc = 5, LOSSY
    info.thr = rng.random() < 0.5
    cols = {}
    for k, f in enumerate(info.fields):
        if f.type in COLT and rng.random() < 0.6:
            # the coding is chosen on the first 4096 points: change the character of the column later
            if n > 4200 and f.size > 2 and rng.random() < 0.3:
                cols[k] = full_palette(rng, f.type, n)
                continue
            c = []
            while len(c) < n:
                m = rng.choice([500, 3000, 4096, 5000, 28672, 32768, 40000])
                c += int_column(rng, f.type, min(m, n - len(c)))
            cols[k] = c[:n]
    data, raw = gen_points(rng, info, n, cols)
    return info, data


def full_palette(rng, t, n):
    """few values at first, in the end just as many as fill (or overflow) a number of bits"""
    lo, hi = limits(t)
    m = rng.choice([x for x in (129, 257, 1025, 2049, 4097, 8193, 16385) if x < min(n, CHUNK) - 4096] or [65]) + rng.choice([0, 0, 0, -1, 1])
    pal = set()
    while len(pal) < m:
        pal.add(rng.randint(lo, hi))
    pal = list(pal)
    few = pal[:rng.choice([3, 5, 16])]
    return ([rng.choice(few) for _ in range(4096)] + pal + [rng.choice(pal) for _ in range(n)])[:n]


def palette_item(rng, n):
    fs, step = layout([(rng.choice([I32, U32, I64, U64]), None) for _ in range(7)])
    info = Info(fs, step, n, 1, 5, LOSSY, rng.choice([CNONE, ZSTD]), rng.random() < 0.5)
    return info, gen_points(rng, info, n, {k: full_palette(rng, f.type, n) for k, f in enumerate(fs)})[0]


def phase_column(rng, t, n):
    """a column that first asks for one coding and is from then on of another, simple kind to the end"""
    lo, hi = limits(t)
    m = hi - lo + 1
    wrap = lambda v: (v - lo) % m + lo
    first = rng.choice(["rle", "drle", "palette", "delta"])
    k = 4096
    v, d, c = rng.randint(lo, hi), rng.randint(-9, 9), []
    if first == "palette":
        few = [rng.randint(lo, hi) for _ in range(rng.choice([2, 3, 7, 16]))]
        c = [rng.choice(few) for _ in range(k)]
    else:
        run = 0
        for _ in range(k):
            if run == 0:
                run = rng.randint(60, 900)
                d = rng.choice([1, 7, -3, rng.randint(lo // 64, hi // 64), rng.randint(-9, 9)])
                if first == "rle":
                    v = rng.randint(lo, hi)
            run -= 1
            v = wrap(v + (d if first == "drle" else rng.randint(-3, 3) if first == "delta" else 0))
            c.append(v)
    left = n - k
    far = [1 << b for b in (8, 16, 31, 32, 33, 48, 63) if 1 << b < m]
    s = rng.choice(far or [1 << 7])
    kind = rng.choice(["constant", "ramp", "late", "values", "deltas", "steps", "distinct"])
    if kind == "constant":
        c += [v] * left
    elif kind == "ramp":
        c += [wrap(v + d * j) for j in range(left)]
    elif kind == "late":  # constant or ramp up to a change near the end of a block or chunk
        a = rng.choice([x for x in (4096, 16384, 28671, 28672, 28673, 32767, 32768, 61440) if x < left] or [left])
        d = rng.choice([0, d])
        c += [wrap(v + d * j + (s if j >= a else 0)) for j in range(left)]
    elif kind == "values":  # that differ in a high bit only
        c += [wrap(v + s * rng.choice([0, 0, 1, 2, -1])) for _ in range(left)]
    elif kind == "steps":  # runs of such values
        c += [wrap(v + s * (j // 37)) for j in range(left)]
    elif kind == "deltas":  # that differ in a high bit only
        for j in range(left):
            v = wrap(v + d + s * (rng.random() < 0.1))
            c.append(v)
    else:
        c += [rng.randint(lo, hi) for _ in range(left)]
    return c


def phase_item(rng, n):
    fs, step = layout([(rng.choice([I16, U16, I32, U32, I64, U64, I64, U64]), None) for _ in range(6)])
    info = Info(fs, step, n, 1, 5, LOSSY, rng.choice([CNONE, LZ4, ZSTD]), rng.random() < 0.5)
    return info, gen_points(rng, info, n, {k: phase_column(rng, f.type, n) for k, f in enumerate(fs)})[0]


def many_item(rng):
    """more than 256 chunks"""
    t = rng.choice([U8, I16, U16, I16])
    n = rng.choice([256, 257, 260]) * CHUNK + rng.choice([0, 1, 5000])
    fs, step = layout([(t, None)])
    info = Info(fs, step, n, 1, rng.choice([3, 4, 5, 5, 5]), LOSSY, rng.choice([CNONE, LZ4, ZSTD]), rng.random() < 0.5)
    period = rng.randbytes(SIZE[t] * rng.choice([32768, 32767, 5000, 77777]))
    return info, (period * (n * step // len(period) + 1))[:n * step]


def small_items(rng, count):
    out = []
    for _ in range(count):
        info = rand_info(rng)
        out.append((info, gen_points(rng, info, info.n)[0]))
    return out


def variant(rng, info):
    """the same description but for one thing: what a stale cache would miss"""
    i = info.copy()
    k = rng.randrange(7)
    f = rng.choice(i.fields)
    if k == 0:
        i.ver = rng.choice([v for v in (3, 4, 5) if v != i.ver])
    elif k == 1:
        i.enc = rng.choice([v for v in (0, 1, 2) if v != i.enc])
    elif k == 2:
        i.comp = (i.comp + rng.choice([1, 2])) % 3
    elif k == 3:
        i.step += rng.choice([1, 4])
    elif k == 4:
        for g in i.fields:
            if g.type in (F32, F64):
                g.res = None if g.res is not None and rng.random() < 0.3 else f32(0.125)
    elif k == 5:
        for g in i.fields:
            g.off += 3
        i.step += 3
    else:
        same = {2: (I16, U16), 4: (I32, U32, F32), 8: (I64, U64, F64)}.get(f.size)
        if same:
            f.type = rng.choice([t for t in same if t != f.type])
            if f.type not in (F32, F64):
                f.res = None
        else:
            i.w = max(1, i.w // 2)
    return i


def relatives(rng, items, p=0.25):
    """behind some items others that differ in a single respect, encoded by the same process next"""
    out = []
    for info, data in items:
        out.append((info, data))
        while rng.random() < p:
            i = variant(rng, out[-1][0])
            out.append((i, gen_points(rng, i, i.n)[0]))
    return out


def wide_items(rng, count, quant=False):
    """clouds of more than 4 GiB: points so far apart that the address range is hardly touched"""
    out = []
    for k in range(count):
        step = rng.choice([rng.randint(40000, 65300), rng.randint(40000, 65300), 62000, 65280])  # the library sets aside 32768 whole points
        n = (1 << 32) // step + rng.choice([1, 100, 3000, 30000])
        if quant:
            i = quant_info(rng)
        else:
            i = rand_info(rng, types=[(t, None) for t, _ in rand_types(rng, 4)])
        i.ver, i.enc = rng.choice([(5, LOSSY), (5, LOSSY), (3, LOSSY), (4, NONE), (4, LOSSLESS), (5, LOSSLESS)])
        if k % 2 == 0 or quant:
            i.ver, i.enc = rng.choice([3, 4, 5]) if k % 2 else 5, LOSSY
            if not any(f.type in COLT for f in i.fields):
                i.fields.append(Field("col", i.step, rng.choice(COLT), None))
                i.step += 8
        i.w, i.h = n, 1
        if n % 2 == 0 and rng.random() < 0.3:
            i.w, i.h = n // 2, 2
        wide = i.copy(step=step)
        at = rng.choice([0, step - i.step, rng.randrange(step - i.step)])
        for f in wide.fields:
            f.off += at
        out.append((i, wide, at, gen_points(rng, i, n)[0]))
    return out


def far_items(rng, count, quant=False):
    """points of more than 64 KiB and fields beyond; hundreds of fields"""
    out = []
    for k in range(count):
        types = [(rng.choice(list(SIZE)), None) for _ in range(rng.choice([255, 256, 257, 300, 513]))] if k % 2 else rand_types(rng, 5)
        if quant:
            types += [(rng.choice([F32, F64]), rng.choice(RESOLUTIONS)) for _ in range(3)]
        i = rand_info(rng, types=types)
        i.w, i.h = rng.randint(1, 6), 1
        i.ver, i.enc = rng.choice([(5, LOSSY), (5, LOSSY), (3, LOSSY), (4, LOSSY), (5, LOSSLESS), (4, NONE)])
        if quant:
            i.enc = LOSSY
        if k % 2 == 0:
            i.comp = rng.choice([CNONE, CNONE, ZSTD])
            for f in i.fields:
                if rng.random() < 0.6:
                    f.off += i.step
                f.off += rng.choice([0, 65530, 65536])
            i.step = max(f.off + f.size for f in i.fields) + rng.choice([0, 1, 65536])
            used = set()
            for f in i.fields:  # no byte belongs to two fields
                while any(b in used for b in range(f.off, f.off + f.size)):
                    f.off += 1
                used.update(range(f.off, f.off + f.size))
            i.step = max(i.step, max(used) + 1)
        out.append((i, gen_points(rng, i, i.n)[0]))
    return out


def far_trips(chk, exe, rng, count, want, quant=False):
    items = far_items(rng, count, quant)
    env = dict(ASAN_OPTIONS=CRASH_ENV["ASAN_OPTIONS"].replace("max_allocation_size_mb=2048", "max_allocation_size_mb=12000"), CLDRV_ROOMY="1")
    judge_rt(chk, items, run_paths(exe, items, rng, env=env, jobs=2), "far", want)


def wide_trips(chk, exe, rng, count, want, quant=False):
    items = wide_items(rng, count, quant)
    for i, wide, at, data in items:
        r = run_ops(exe, [("wide", {"info": wide.s(), "d": data.hex(), "k": i.step, "at": at, "buf": rng.choice([0, 1])})], timeout=120)[0]
        if r.get("ok"):
            res = ("ok", bytes.fromhex(r["out"]), None)
            ri = parse_info(r["info"])
            if (ri.w, ri.h, ri.step, ri.ver, fieldlist(ri.fields)) != (wide.w, wide.h, wide.step, wide.ver, fieldlist(wide.fields)):
                chk.violation("wide: the reader's description of the cloud is not the writer's; %s" % json.dumps(wide.brief()), {"info": wide.s()})
        else:
            res = ("round trip failed: %s" % r.get("what", r.get("ex")), None, None)
        judge_rt(chk, [(i, data)], [res], "wide", want)
    chk.sample(items[0][1].brief())


def scalar_trips(chk, rng, items, share, want):
    """the code as compiled for machines without vector instructions"""
    items = items[rng.randrange(share)::share]
    judge_rt(chk, items, run_paths(build_cldrv(scalar=True), items, rng), "scalar", want)
    chk.count("scalar", len(items))


def c01(chk):
    exe = build_cldrv()
    rng = chk.rng
    items = relatives(rng, small_items(rng, 5000 if THOROUGH else 1200))
    items += exhaustive_int(rng)
    nb = len(items)
    for n in ser_bounds(None) * (8 if THOROUGH else 2):
        items.append(big_item(rng, n))
    for _ in range(4 if THOROUGH else 1):
        items.append(palette_item(rng, rng.choice([24000, 33000])))
    for _ in range(40 if THOROUGH else 6):
        items.append(phase_item(rng, rng.choice([36864, 65536, 65537, 70000, 98304])))
    for _ in range(4 if THOROUGH else 1):
        items.append(many_item(rng))
    res = run_paths(exe, items, rng)
    judge_rt(chk, items[:nb], res[:nb], "small", {"Exact"})
    judge_rt(chk, items[nb:], res[nb:], "large", {"Exact"})
    scalar_trips(chk, rng, items, 12 if THOROUGH else 6, {"Exact"})
    far_trips(chk, exe, rng, 60 if THOROUGH else 16, {"Exact"})
    wide_trips(chk, exe, rng, 12 if THOROUGH else 4, {"Exact"})
    chk.sample(items[0][0].brief())
    chk.sample(items[-1][0].brief())


def quant_info(rng):
    t = rand_types(rng, 4)
    while not any(x in (F32, F64) and r is not None for x, r in t):
        t.insert(rng.randint(0, len(t)), (rng.choice([F32, F32, F64]), rng.choice(RESOLUTIONS)))
    info = rand_info(rng, types=t)
    info.enc = LOSSY
    return info


def c02(chk):
    exe = build_cldrv()
    rng = chk.rng
    items = []
    for _ in range(5000 if THOROUGH else 1200):
        info = quant_info(rng)
        items.append((info, gen_points(rng, info, info.n)[0]))
    items = relatives(rng, items)
    # every placement of NaNs in up to 6 points, for 1..5 floats (grouped and not)
    for nf in (1, 2, 3, 4, 5):
        for t in (F32, F64):
            for n in (1, 2, 3, 4, 6):
                pats = list(itertools.product([0, 1], repeat=n))
                fs, step = layout([(t, rng.choice(RESOLUTIONS)) for _ in range(nf)])
                info = Info(fs, step, n, 1, rng.choice([3, 4, 5]), LOSSY, CNONE, False)
                pk = (lambda x: struct.unpack("<I", struct.pack("<f", x))[0]) if t == F32 else (lambda x: struct.unpack("<Q", struct.pack("<d", x))[0])
                nan = 0x7FC00000 if t == F32 else 0x7FF8000000000000
                for p in (pats if n < 6 else rng.sample(pats, 20)):
                    raw = [[nan if (p[i] if nf < 3 or rng.random() < 0.8 else rng.random() < 0.5) else pk(rng.uniform(-40, 40) * f.res * 9) for i in range(n)] for f in fs]
                    items.append((info, pack_points(info, raw, n)))
    nb = len(items)
    for n in ser_bounds(None) * (6 if THOROUGH else 1):
        info, data = big_item(rng, n)
        info.enc = LOSSY
        if not any(info.quantized(f) for f in info.fields):
            info.fields.append(Field("q", info.step, F32, 0.01))
            info.step += 4
        items.append((info, gen_points(rng, info, info.n)[0]))
    res = run_paths(exe, items, rng)
    judge_rt(chk, items[:nb], res[:nb], "small", {"HalfStep", "NaNKept"})
    judge_rt(chk, items[nb:], res[nb:], "large", {"HalfStep", "NaNKept"})
    scalar_trips(chk, rng, items, 8 if THOROUGH else 4, {"HalfStep", "NaNKept"})
    far_trips(chk, exe, rng, 40 if THOROUGH else 10, {"HalfStep", "NaNKept"}, quant=True)
    wide_trips(chk, exe, rng, 6 if THOROUGH else 2, {"HalfStep", "NaNKept"}, quant=True)
    chk.sample(items[0][0].brief())
    chk.sample(items[-1][0].brief())
