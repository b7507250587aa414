"""C11 the wire format, C12 what decoding writes, C09 arbitrary bytes: judged by WireTrace.tla."""
import itertools
from wire import *
import gen, header
from codec import rand_info, small_items, big_item, rand_types


def small_wire(rng, count, nmax=5, maxn=120):
    out = []
    for _ in range(count):
        info = rand_info(rng, nmax=nmax, maxn=maxn)
        out.append((info, gen_points(rng, info, info.n)[0]))
    return out


FORMAT = {"EncoderLegal", "EncoderExact", "EncoderQuant", "DecoderAccepts", "DecoderExact", "DecoderQuant", "DecoderRejects"}


def c11(chk):
    exe = build_cldrv()
    rng = chk.rng
    # streams written by the specification, read by the code
    for rep in range(6 if THOROUGH else 1):
        items, r = gen.streams(exe, rng, 1500, SEED * 1000 + rep)
        chk.cov["transitions"] += r.generated
        gen.decode_streams(exe, chk, items, FORMAT, "generated")
        chk.count("generated_streams", len(items))
    items, r = gen.streams(exe, rng, 30 if THOROUGH else 5, SEED * 77 + 5, big=True)
    gen.decode_streams(exe, chk, items, FORMAT, "generated-large")
    chk.count("generated_large_streams", len(items))
    chk.sample(items[0][0].brief())
    # streams written by the code, read by the specification
    items = small_wire(rng, 4000 if THOROUGH else 900)
    roundtrip_check(chk, exe, items, FORMAT, "encoder")
    big = []
    for n in [4096, 4097, 32767, 32769, 40000] * (4 if THOROUGH else 1):
        t = [(rng.choice(COLT), None)] + ([(F32, 0.01)] if rng.random() < 0.3 else [])
        fs, step = layout(t)
        info = Info(fs, step, n, 1, 5, LOSSY, rng.choice([CNONE, ZSTD]), rng.random() < 0.5)
        big.append((info, gen_points(rng, info, n)[0]))
    roundtrip_check(chk, exe, big, FORMAT, "encoder-large")
    chk.sample(big[-1][0].brief())
    # headers
    cases, metas, n = header.header_cases(chk, exe, rng, 600)
    header.judge_headers(chk, cases, metas, {"Legal"})
    chk.count("headers", len(cases))


def c12(chk):
    exe = build_cldrv()
    rng = chk.rng
    want = {"StoresDeclared", "DecoderExact", "DecoderQuant", "DecoderAccepts"}
    for rep in range(6 if THOROUGH else 1):
        items, r = gen.streams(exe, rng, 1200, SEED * 991 + 17 + rep)
        chk.cov["transitions"] += r.generated
        gen.decode_streams(exe, chk, items, want, "generated", fill=rng.choice([0x5A, 0xC3]), extra=lambda r: r.choice([0, 1, 8, 40]))
    # encoder streams decoded with and without marks, in buffers with slack
    items = small_wire(rng, 3000 if THOROUGH else 700, maxn=80)
    for k in range(6 if THOROUGH else 2):   # several chunks
        t = [(F32, 0.01)] * rng.choice([0, 3]) + [(rng.choice(COLT), None), (rng.choice([U8, F32, F64, I16]), None)]
        fs, step = layout(t, rng, gaps=True, tail=2)
        info = Info(fs, step, rng.choice([32769, 40000]), 1, rng.choice([4, 5, 5]), LOSSY, rng.choice([CNONE, LZ4]), False)
        items.append((info, gen_points(rng, info, info.n)[0]))
    # one field of every type, marked, in every position of a small layout, for every version and mode
    for t in range(1, 11):
        for ver in (3, 4, 5):
            for enc in (NONE, LOSSY, LOSSLESS):
                for pos in (0, 1, 2):
                    ts = [(F32, 0.01 if rng.random() < 0.7 else None)] * rng.choice([1, 3]) + [(rng.choice(COLT), None)]
                    ts.insert({0: 0, 1: 1, 2: len(ts)}[pos], (t, 0.5 if t in (F32, F64) and rng.random() < 0.6 else None))
                    fs, step = layout(ts, rng, gaps=rng.random() < 0.5)
                    info = Info(fs, step, rng.choice([1, 3, 10]), 1, ver, enc, CNONE, False)
                    info.mark = {0: 0, 1: 1, 2: len(ts) - 1}[pos]
                    items.append((info, gen_points(rng, info, info.n)[0]))
    enc = encode_cases(exe, items)
    ops, ok = [], []
    for (info, data), e in zip(items, enc):
        if not e["ok"] or e["pay"] is None:
            chk.violation("encoding failed: %s" % e["enc"].get("what"), {"info": info.s()})
            continue
        di = info.copy()
        m = getattr(info, "mark", None)
        for j, f in enumerate(di.fields):
            if (m is not None and j == m) or (m is None and rng.random() < 0.35):
                f.off = SKIP
        ex = rng.choice([0, 1, 8, 33])
        fill = rng.choice([0x5A, 0xC3])
        ops.append(("dec", {"info": di.s(), "d": e["pay"].hex(), "osz": info.n * info.step + ex, "fill": fill}))
        ok.append((info, data, e, di, fill))
    res = run_ops(exe, ops)
    infl = inflate_all(exe, [(o[3], o[2]["pay"]) for o in ok])
    cases, metas = [], []
    for (info, data, e, di, fill), r, fl, op in zip(ok, res, infl, ops):
        meta = {"brief": di.brief(), "op": "dec", "args": {k: str(v)[:8000] for k, v in op[1].items()}}
        if r.get("ex") == "crash":
            chk.violation("decoder crashed: %s %s" % (r.get("what"), json.dumps(di.brief())), meta)
            continue
        outb = bytes.fromhex(r.get("out", ""))
        # the cells the marked decode must deliver are those of the original cloud
        k = wire_case("dec", di, e["pay"], fl, bool(r["ok"]), outb, store=len(outb) < 300000, fill=fill)
        cases.append(k)
        metas.append(meta)
    judge_wire(chk, cases, metas, want, "marked")
    chk.count("marked_decodes", len(cases))
    chk.sample(ok[-1][3].brief())


# ------------------------------------------------------------------ C09
def tiny_layouts():
    L = []
    for ver in (2, 3, 4, 5):
        for enc in (LOSSY, LOSSLESS, NONE):
            for t in ([(U8, None)], [(I16, None)], [(F32, 0.5)], [(F64, None)], [(F32, None)], [(F64, 0.5)], [(U32, None)], [(I64, None)], [(F32, 0.5), (F32, 0.5), (F32, 0.5)], [(U8, None), (I16, None), (U16, None)], [(F32, 0.5), (F32, 0.5), (F32, 0.5), (U16, None)]):
                L.append((ver, enc, t))
    return L


def strings(rng, alpha, maxlen, budget):
    tot = sum(len(alpha) ** k for k in range(maxlen + 1))
    if tot <= budget:
        for k in range(maxlen + 1):
            for s in itertools.product(alpha, repeat=k):
                yield bytes(s)
    else:
        for _ in range(budget):
            yield bytes(rng.choice(alpha) for _ in range(rng.randint(0, maxlen)))


def dec_cases(exe, chk, items, label, props, osz_of=None, store=True):
    """items: (info, payload). Real decode, judged as arbitrary bytes."""
    ops = []
    for info, pay in items:
        osz = info.n * info.step if osz_of is None else osz_of(info)
        ops.append(("dec", {"info": info.s(), "d": pay.hex(), "osz": min(osz, 1 << 22), "fill": 0x5A}))
    res = run_ops(exe, ops, timeout=20)
    infl = inflate_all(exe, items)
    cases, metas = [], []
    for (info, pay), r, fl, op in zip(items, res, infl, ops):
        meta = {"brief": info.brief(), "op": "dec", "args": op[1]}
        if r.get("ex") == "crash":
            chk.violation("%s: decoding does not stay in bounds or does not end: %s; payload %s %s" % (label, r.get("what"), pay[:64].hex(), json.dumps(info.brief())), meta)
            continue
        if not r["ok"] and r.get("ex") != "std":
            chk.violation("%s: decoding threw something that is no std::exception; payload %s %s" % (label, pay[:64].hex(), json.dumps(info.brief())), meta)
            continue
        outb = bytes.fromhex(r.get("out", ""))
        cases.append(wire_case("dec", info, pay, fl, bool(r["ok"]), outb, store=store and r["ok"], fill=0x5A))
        metas.append(dict(meta, brief=dict(info.brief(), payload=pay[:64].hex())))
    judge_wire(chk, cases, metas, props, label)
    chk.count(label, len(cases))


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.randrange(9)
        if not b:
            b += bytes([rng.randrange(256)])
            continue
        i = rng.randrange(len(b))
        if op == 0:
            b[i] = rng.randrange(256)
        elif op == 1:
            b[i] ^= 1 << rng.randrange(8)
        elif op == 2:
            b[i] = rng.choice([0, 1, 0x7F, 0x80, 0xFF])
        elif op == 3:
            del b[i:i + rng.randint(1, 5)]
        elif op == 4:
            b[i:i] = bytes(rng.choice([0, 0x80, 0xFF, rng.randrange(256)]) for _ in range(rng.randint(1, 12)))
        elif op == 5:
            b = b[:i]
        elif op == 6:
            b += bytes(rng.randrange(256) for _ in range(rng.randint(1, 9)))
        elif op == 7:
            j = rng.randrange(len(b))
            b[i:i + 4] = b[j:j + 4]
        else:
            b[i:i + 10] = b"\xff" * rng.choice([9, 10]) + bytes([rng.choice([0, 1, 2, 0x7F])])
    return bytes(b)


def fix_frame(pay, info):
    """put the chunk sizes right again, so that the damage reaches the values"""
    if info.ver < 3 or info.comp != CNONE or len(pay) < 4:
        return pay
    if info.n <= CHUNK:
        return (len(pay) - 4).to_bytes(4, "little") + pay[4:]
    return pay


C09SET = {"DecoderRejects", "StoresDeclared"}


def c09(chk):
    exe = build_cldrv()
    rng = chk.rng
    items = []
    # small scope: every payload over a small alphabet (in a correct frame, where there is one) for tiny clouds
    L = tiny_layouts()
    budget = 2500 if THOROUGH else 110
    for ver, enc, t in L:
        for n in (1, 2):
            fs, step = layout(t)
            info = Info(fs, step, n, 1, ver, enc, CNONE, False)
            for s in strings(rng, [0, 1, 2, 3, 0x80, 0xFF, 0x05], 5 if THOROUGH else 12, budget):
                pay = s if ver < 3 else len(s).to_bytes(4, "little") + s
                items.append((info, pay))
    # section grammar: V5 column sections assembled from plausible pieces, right and wrong
    for _ in range(12000 if THOROUGH else 2500):
        t = rng.choice(COLT)
        n = rng.choice([1, 2, 3, 5, 9])
        ncol = rng.choice([1, 1, 2])
        fs, step = layout([(U8, None)] * rng.choice([0, 0, 1]) + [(t, None)] * ncol)
        info = Info(fs, step, n, 1, 5, LOSSY, CNONE, False)
        b = bytes(rng.randrange(256) for _ in range(n if fs[0].type == U8 and t != U8 else 0))
        for c in range(ncol):
            b += section(rng, SIZE[t], n)
        b += rng.choice([b"", b"", b"", b"", b"\x00", b"\x01\x02"])
        items.append((info, len(b).to_bytes(4, "little") + b))
    dec_cases(exe, chk, items, "small-scope", C09SET)
    # damaged real streams
    src = small_wire(rng, 500 if THOROUGH else 130, maxn=40)
    enc = encode_cases(exe, src)
    items = []
    for (info, data), e in zip(src, enc):
        if not e["ok"] or e["pay"] is None:
            continue
        for _ in range(12):
            m = mutate(rng, e["pay"])
            if rng.random() < 0.6:
                m = fix_frame(m, info)
            i = info
            if rng.random() < 0.15:
                i = info.copy(w=max(0, info.w + rng.choice([-1, 1, 5])))
            if rng.random() < 0.1:
                i = i.copy(ver=rng.choice([2, 3, 4, 5]))
            if rng.random() < 0.1:
                i = i.copy(comp=rng.choice([0, 1, 2]))
            if rng.random() < 0.05 and i.fields:
                f = rng.choice(i.fields)
                f2 = f.copy()
                f2.type = rng.randint(1, 10)
                i = i.copy()
                i.fields = [f2 if g.name == f.name else g for g in i.fields]
                if any(g.off + g.size > i.step for g in i.fields):
                    continue
            if i.n * i.step > 1 << 20:
                continue
            items.append((i, m))
    # damage inside compressed chunks: decompress, damage, compress again
    todo = [(info, e) for (info, _), e in zip(src, enc) if e["ok"] and e["pay"] is not None and info.comp and info.n]
    infl = inflate_all(exe, [(i, e["pay"]) for i, e in todo])
    ops, ii = [], []
    for (info, e), fl in zip(todo, infl):
        for _ in range(6):
            if len(fl) == 1 and fl[0]["ok"]:
                ops.append(("deflate", {"comp": info.comp, "d": mutate(rng, bytes(fl[0]["d"])).hex(), "form": rng.choice([0, rng.randrange(32)])}))
                ii.append(info)
    for info, r in zip(ii, run_ops(exe, ops) if ops else []):
        z = bytes.fromhex(r["out"])
        items.append((info, len(z).to_bytes(4, "little") + z))
    dec_cases(exe, chk, items, "damaged", C09SET)
    # output buffers of the wrong size: never written past
    ops, meta = [], []
    for (info, data), e in zip(src, enc):
        if e["ok"] and e["pay"] is not None and info.n:
            need = info.n * info.step
            for osz in sorted({0, need - 1, max(0, need - info.step), need // 2, need + 3}):
                ops.append(("dec", {"info": info.s(), "d": e["pay"].hex(), "osz": osz, "fill": 0x5A}))
                meta.append((info, osz, need))
    bad_descr(rng, src, enc, ops, meta)
    for op, m, r in zip(ops, meta, run_ops(exe, ops, timeout=20)):
        if r.get("ex") in ("crash", "other"):
            chk.violation("buffer: %s; %s" % (r.get("what", "not a std::exception"), json.dumps(m[0].brief())), {"op": op})
        elif r["ok"] and m[1] < m[2]:
            chk.violation("buffer: decoding into a buffer of %d bytes where %d are needed succeeded; %s" % (m[1], m[2], json.dumps(m[0].brief())), {"op": op})
    chk.count("buffers", len(ops))
    full_bytes(chk, exe, rng, src, enc)


def bad_descr(rng, src, enc, ops, meta):
    """descriptions whose fields do not fit the point, or that are otherwise impossible"""
    for (info, data), e in list(zip(src, enc))[:60]:
        if not e["ok"] or e["pay"] is None or not info.fields:
            continue
        for _ in range(3):
            i = info.copy()
            f = rng.choice(i.fields)
            k = rng.randrange(5)
            if k == 0:
                f.off = rng.choice([i.step - f.size + 1, i.step, i.step * 7, 0x7FFFFFFF, 0xFFFFFFFE, 0x80000000])
            elif k == 1:
                f.type = rng.choice([0, 11, 200])
            elif k == 2:
                i.step = 0
            elif k == 3:
                i.ver = rng.choice([0, 1, 6, 99])
            else:
                i.w, i.h = rng.choice([(0xFFFFFFFF, 0xFFFFFFFF), (0x80000000, 2), (65536, 65536), (0x7FFFFFFF, 1)])
            ops.append(("dec", {"info": i.s(), "d": e["pay"].hex(), "osz": info.n * info.step, "fill": 0x5A}))
            meta.append((i, 0, 0))


def section(rng, sz, n):
    """one integer column section, mostly right, with one or two things possibly wrong"""
    def raw():
        return bytes(rng.choice([0, 0xFF, 0x80, rng.randrange(256)]) for _ in range(sz))

    def uv(x):
        o = b""
        while x >= 128:
            o += bytes([x % 128 + 128])
            x //= 128
        return o + bytes([x])
    mode = rng.choice([0, 1, 1, 2, 2, 3, 3, rng.choice([4, 5, 255])])
    if mode == 0:
        m = n + rng.choice([0, 0, 0, -1, 1])
        return b"\0" + b"".join(uv(rng.choice([0, 1, 2, 127, 128, 300, 1 << 40, (1 << 64) - 1, (1 << 64)])) for _ in range(max(m, 0)))
    if mode == 1:
        cnt = rng.choice([0, 1, 2, 3, 4, 5, 9])
        said = cnt + rng.choice([0, 0, 0, 0, 1, 200, 60000])
        ib = 0 if cnt <= 1 else (cnt - 1).bit_length()
        bits, acc = (ib * n + 7) // 8, 0
        idx = [rng.randrange(max(cnt, 1)) for _ in range(n)]
        if rng.random() < 0.3 and n:
            idx[rng.randrange(n)] = cnt
        for k, v in enumerate(idx):
            acc |= (v & ((1 << ib) - 1) if ib else 0) << (ib * k)
        ix = acc.to_bytes(bits, "little")
        if rng.random() < 0.15:
            ix = ix[:-1] if rng.random() < 0.5 else ix + b"\0"
        return b"\1" + (said & 0xFFFF).to_bytes(2, "little") + b"".join(raw() for _ in range(cnt)) + ix
    runs, left = [], n
    while left:
        k = rng.randint(1, left)
        runs.append(k)
        left -= k
    wrong = rng.randrange(9)
    if wrong == 0 and runs:
        runs[-1] += rng.choice([1, -1, 1000, (1 << 32), (1 << 32) - 1, (1 << 63), (1 << 64) - 1])
    if wrong == 1 and runs:
        runs.pop()
    if wrong == 2:
        runs.append(rng.choice([0, 1]))
    if wrong == 4 and runs:
        runs[rng.randrange(len(runs))] += 1 << rng.choice([64, 64, 65, 69])  # more bits than a number has
    said = len(runs) + (rng.choice([1, -1, 255, 1 << 24, (1 << 32) - 1 - len(runs)]) if wrong == 3 else 0)
    b = bytes([mode]) + (said & 0xFFFFFFFF).to_bytes(4, "little")
    for k in runs:
        b += (raw() if mode == 2 else uv(rng.choice([0, 1, 2, 3, 200, 1 << 63]))) + uv(k if k > 0 else k & ((1 << 64) - 1))
    return b


def full_bytes(chk, exe, rng, src, enc):
    """header plus payload, damaged anywhere"""
    ops = []
    for (info, data), e in zip(src, enc):
        if not e["ok"]:
            continue
        o = e["out"]
        for _ in range(6):
            if rng.random() < 0.5 and e.get("hdrlen"):
                m = mutate(rng, o[:e["hdrlen"]]) + o[e["hdrlen"]:]
            else:
                m = mutate(rng, o)
            ops.append(("full", {"d": m.hex(), "fill": 0x5A}))
        # binary headers
        for _ in range(3):
            ops.append(("full", {"d": mutate(rng, binary_header(info) + o[e.get("hdrlen") or 0:]).hex(), "fill": 0x5A}))
    for s in strings(rng, [0x0A, 0x00, 0x30, 0x35, 0xFF, ord("x"), ord(":")], 12, 400):
        ops.append(("full", {"d": (b"CLOUDINI_V" + rng.choice([b"", b"05", b"04", b"03\n", b"05\nversion: 5\n", b"02", b"99"]) + s).hex(), "fill": 0}))
    res = run_ops(exe, ops, timeout=20)
    n = 0
    cases, metas = [], []
    items = []
    for op, r in zip(ops, res):
        n += 1
        if r.get("ex") in ("crash", "other"):
            chk.violation("header+payload: %s; bytes %s" % (r.get("what", "threw something that is no std::exception"), op[1]["d"][:400]), {"op": op})
            continue
        if r.get("info") and "hdrlen" in r:
            i = parse_info(r["info"])
            p = bytes.fromhex(op[1]["d"])[r["hdrlen"]:]
            if i.n * i.step < 200000 and i.n < 60000 and i.fields and len(i.fields) < 40:
                items.append((i, p, r))
        if r.get("badview"):
            chk.violation("header+payload: the payload view leaves the input; bytes %s" % op[1]["d"][:400], {"op": op})
    infl = inflate_all(exe, [(i, p) for i, p, _ in items])
    for (i, p, r), fl in zip(items, infl):
        outb = bytes.fromhex(r.get("out", ""))
        cases.append(wire_case("dec", i, p, fl, bool(r["ok"]), outb, store=r["ok"], fill=0x5A))
        metas.append({"brief": dict(i.brief(), payload=p[:64].hex())})
    judge_wire(chk, cases, metas, C09SET, "header+payload")
    chk.count("header_payload_strings", n)
    chk.sample({"header+payload": ops[0][1]["d"][:200]})


def binary_header(info):
    b = b"CLOUDINI_V%02d" % info.ver + struct.pack("<IIIBBH", info.w, info.h, info.step, info.enc, info.comp, len(info.fields))
    for f in info.fields:
        nm = f.name.encode() if isinstance(f.name, str) else f.name
        b += struct.pack("<H", len(nm)) + nm + struct.pack("<IBf", f.off, f.type, f.res if f.res is not None else -1.0)
    return b
