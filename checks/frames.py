"""C04 framing and independence of chunks, C10 cut / extended / redeclared payloads: Frames.tla."""
import hashlib
from wire import *
from codec import rand_info, rand_types, column_bits, exact_blocks
import re


def plans(cfg="FramesGen.cfg"):
    r = tlc("FramesGen", cfg=cfg, workers=1)
    out = set()
    for p in r.prints:
        m = re.match(r'<<"PLAN", (\d+), (\d+), (-?\d+), (.*)>>$', p)
        if m:
            out.add((int(m[1]), int(m[2]), int(m[3]), tuple(int(x) for x in re.findall(r"\d+", m[4]))))
    if not out:
        raise CheckError("FramesGen gave no plan")
    return sorted(out), r


def digest(b):
    return hashlib.sha256(b).hexdigest()[:24]


def blocks(info, data, n):
    return [declared_only(info, data[a * info.step:min(a + CHUNK, n) * info.step]) for a in range(0, n, CHUNK)]


def declared_only(info, b):
    return digest(b"".join(b[f.off + k::info.step] for f in info.fields for k in range(f.size)))


def clouds(rng, sizes, small_types=True):
    out = []
    for n in sizes:
        t = rand_types(rng, 2)[:5]
        if rng.random() < 0.5 and n > CHUNK:
            t = [(F32, 0.01)] * rng.choice([0, 3, 4]) + [(rng.choice(COLT), None)] * rng.choice([1, 2])
        info = rand_info(rng, types=t)
        info.w, info.h = n, 1
        if rng.random() < 0.6:
            info.ver, info.enc = 5, LOSSY
        out.append((info, gen_points(rng, info, n)[0]))
    return out


def encode_all(exe, chk, items, label):
    """-> per item (payload, decoded reference) or None"""
    e1 = run_sessions(exe, [[("n%d" % k, "newenc", {"o": "e", "info": i.s()}),
                             (k, "encb", {"o": "e", "d": d.hex(), "cap": i.n * sum(11 for f in i.fields) * 2 + (1 << 14), "hdr": 0}), ("x%d" % k, "delenc", {"o": "e"})] for k, (i, d) in enumerate(items)], timeout=60)
    pays = []
    for k, (info, data) in enumerate(items):
        if not e1[k].get("ok"):
            chk.violation("%s: encoding failed: %s %s" % (label, e1[k].get("what"), json.dumps(info.brief())), {"info": info.s()})
            pays.append(None)
        else:
            pays.append(bytes.fromhex(e1[k]["out"]))
    dr = run_ops(exe, [("dec", {"info": i.s(), "d": (p or b"").hex(), "osz": i.n * i.step}) for (i, d), p in zip(items, pays)], timeout=60)
    out = []
    for (info, data), p, r in zip(items, pays, dr):
        if p is None:
            out.append(None)
        elif not r.get("ok"):
            chk.violation("%s: the unedited payload does not decode: %s %s" % (label, r.get("what"), json.dumps(info.brief())), {"info": info.s()})
            out.append(None)
        else:
            out.append((p, bytes.fromhex(r["out"])))
    return out


def sizes_of(info, p):
    out, a = [], 0
    while a + 4 <= len(p) and len(out) < 1000:
        m = int.from_bytes(p[a:a + 4], "little")
        out.append(min(m, 1 << 30))
        a += 4 + m
    return out


def exact_match(info, data, ref):
    """exact fields of the reference decode are the input's (so that chunk k holds the points k*32768..)"""
    for f in info.fields:
        if not info.quantized(f):
            if any(data[f.off + k::info.step] != ref[f.off + k::info.step] for k in range(f.size)):
                return False
    return True


def run_plans(chk, exe, items, encs, plan_of, label, want):
    """plan_of(k) -> list of dict(arr, cut, extb, declared)"""
    ops, idx = [], []
    plans_k = []
    for k, (info, data) in enumerate(items):
        pl = []
        if encs[k] is not None:
            p, ref = encs[k]
            fr = frames(p)
            nb = (info.n + CHUNK - 1) // CHUNK
            ok_frames = len(fr) == nb and sum(4 + len(d) for _, d in fr) == len(p)
            for o in plan_of(k):
                if o["arr"] is not None and not ok_frames:
                    continue
                if o["arr"] is None:
                    q = p
                    arr = list(range(1, nb + 1))
                else:
                    arr = list(o["arr"])
                    q = b"".join(len(fr[j - 1][1]).to_bytes(4, "little") + fr[j - 1][1] for j in arr)
                if o["cut"] > len(q) or (o["cut"] and not q):
                    continue
                q = q[:len(q) - o["cut"]] + o["extb"]
                di = info.copy(w=o["declared"], h=1)
                if di.n * di.step > 1 << 28:
                    continue
                ops.append(("dec", {"info": di.s(), "d": q.hex(), "osz": di.n * di.step, "fill": 0x5A}))
                pl.append(dict(arr=arr, cut=o["cut"], ext=len(o["extb"]), declared=o["declared"]))
                idx.append((k, pl[-1]))
        plans_k.append(pl)
    for (k, o), r, op in zip(idx, run_ops(exe, ops, timeout=60), ops):
        info = items[k][0]
        if r.get("ex") == "crash":
            chk.violation("%s: decoder crashed: %s %s" % (label, r.get("what"), json.dumps(info.brief())), {"op": op if len(op[1]["d"]) < 100000 else str(op)[:100000]})
            o["real"], o["got"] = "crash", []
        else:
            o["real"] = "ok" if r["ok"] else "throw"
            o["got"] = blocks(info, bytes.fromhex(r["out"]), o["declared"]) if r["ok"] and o["arr"] is not None and not o["cut"] and not o["ext"] else []
    cases, which = [], []
    for k, (info, data) in enumerate(items):
        if encs[k] is None:
            continue
        p, ref = encs[k]
        if not exact_match(info, data, ref):
            chk.violation("%s: the chunks do not hold the points of the cloud in order; %s" % (label, json.dumps(info.brief())), {"info": info.s()})
        cases.append({"n": info.n, "len": len(p), "sizes": sizes_of(info, p), "ref": blocks(info, ref, info.n), "ops": [o for o in plans_k[k] if o["real"] != "crash"]})
        which.append(k)
    verd, st = judge("Frames", cases)
    chk.add_stats(st)
    chk.traces(sum(len(c["ops"]) for c in cases))
    chk.count(label + "_clouds", len(cases))
    chk.count(label + "_decodes", sum(len(c["ops"]) for c in cases))
    TXT = {"Tiled": "the payload is not a sequence of length-prefixed chunks of 32768 points that tile it", "Independent": "a chunk does not decode on its own",
           "Redeclared": "a description with another number of chunks was accepted", "Cut": "a cut payload was accepted", "Extended": "a payload with extra bytes was accepted"}
    for v, k, cs in zip(verd, which, cases):
        if v[0] != "ok" and v[0] in want:
            info = items[k][0]
            o = cs["ops"][v[1] - 1] if v[0] != "Tiled" else {"sizes": cs["sizes"][:8], "len": cs["len"]}
            o = {a: b for a, b in o.items() if a != "got"}
            chk.violation("%s: %s: %s (%s) %s" % (label, TXT[v[0]], json.dumps(o), v[2], json.dumps(info.brief())),
                          {"info": info.s(), "op": o, "payload": encs[k][0].hex()[:200000]})


def c04(chk):
    exe = build_cldrv()
    rng = chk.rng
    pl, r = plans("FramesGenT.cfg" if THOROUGH else "FramesGen.cfg")
    chk.add_stats({"states": r.states, "transitions": r.generated})
    byshape = {}
    for f, t, dn, arr in pl:
        if dn == 0:
            byshape.setdefault((f, t), []).append(arr)
    items, shape = [], []
    for (f, t) in sorted(byshape):
        for rep in range(8 if THOROUGH else 3):
            n = f * CHUNK + (t and rng.choice([1, 2, 100, 4096, 4097, CHUNK - 1]))
            items += clouds(rng, [n])
            shape.append((f, t))
    for n in [0, 1, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK - 1, 2 * CHUNK, 2 * CHUNK + 1, 100001] * (4 if THOROUGH else 1):
        items += clouds(rng, [n])
        shape.append(None)
    encs = encode_all(exe, chk, items, "encode")

    def plan_of(k):
        n = items[k][0].n
        if shape[k] is None:
            return [dict(arr=None, cut=0, extb=b"", declared=n)]
        f, t = shape[k]
        part = n - f * CHUNK
        arrs = byshape[shape[k]]
        if len(arrs) > 40 and not THOROUGH:
            arrs = rng.sample(arrs, 40)
        out = []
        for a in arrs:  # reordering and removing; the partial chunk has to stay last to have a meaning
            if t and (f + 1) in a[:-1]:
                continue
            out.append(dict(arr=a, cut=0, extb=b"", declared=sum(part if t and j == f + 1 else CHUNK for j in a)))
        return out
    run_plans(chk, exe, items, encs, plan_of, "chunks", {"Tiled", "Independent"})
    chk.sample(items[0][0].brief())
    # clouds of one chunk: nothing but the one frame
    small = clouds(rng, [rng.randint(0, 300) for _ in range(300 if not THOROUGH else 2000)])
    run_plans(chk, exe, small, encode_all(exe, chk, small, "encode-small"), lambda k: [dict(arr=None, cut=0, extb=b"", declared=small[k][0].n)], "small", {"Tiled", "Independent"})


def c10(chk):
    exe = build_cldrv()
    rng = chk.rng
    pl, r = plans("FramesGenT.cfg" if THOROUGH else "FramesGen.cfg")
    chk.add_stats({"states": r.states, "transitions": r.generated})
    want = {"Cut", "Extended", "Redeclared"}
    # every cut of small payloads, and extensions
    small = clouds(rng, [rng.choice([0, 1, 2, 3, 5, 9, 17, 40]) for _ in range(1200 if THOROUGH else 260)])
    encs = encode_all(exe, chk, small, "encode-small")

    def cuts(k):
        n = small[k][0].n
        L = len(encs[k][0])
        cs = list(range(1, L + 1))
        if L > 60 and not THOROUGH:
            cs = sorted(set([1, 2, 3, 4, 5, L, L - 1, L - 2, L - 3, L - 4, L - 5] + rng.sample(cs, 40)))
        out = [dict(arr=None, cut=c, extb=b"", declared=n) for c in cs]
        p = encs[k][0]
        for e in [b"\0", b"\0\0", b"\0\0\0", b"\0\0\0\0", b"\0" * 8, b"\1", b"\xff" * 4, b"\1\0\0\0\0", p, p[:4], rng.randbytes(3), rng.randbytes(9), b"\0" * 32]:
            if e:
                out.append(dict(arr=None, cut=0, extb=e, declared=n))
        if n:
            out.append(dict(arr=None, cut=0, extb=b"", declared=0))
        for d in (CHUNK, CHUNK + 1, 2 * CHUNK, 3 * CHUNK):
            if (d + CHUNK - 1) // CHUNK != (n + CHUNK - 1) // CHUNK and rng.random() < 0.2:
                out.append(dict(arr=None, cut=0, extb=b"", declared=d))
        if n == 0:
            out.append(dict(arr=None, cut=0, extb=b"", declared=1))
            out.append(dict(arr=None, cut=0, extb=b"", declared=7))
        return out
    run_plans(chk, exe, small, encs, cuts, "small", want)
    # several chunks: cuts around every chunk boundary, every arrangement with another number of chunks
    byshape = {}
    for f, t, dn, arr in pl:
        byshape.setdefault((f, t), []).append((dn, arr))
    items, shape = [], []
    for (f, t) in sorted(byshape):
        if f + t < 1:
            continue
        for rep in range(5 if THOROUGH else 2):
            items += clouds(rng, [f * CHUNK + (t and rng.choice([1, 3, 777, CHUNK - 1]))])
            shape.append((f, t))
    encs2 = encode_all(exe, chk, items, "encode-large")

    def edits(k):
        info = items[k][0]
        n = info.n
        p = encs2[k][0]
        ends = []
        a = 0
        for s in sizes_of(info, p):
            ends.append(a)
            a += 4 + s
        ends.append(len(p))
        cs = set()
        for e in ends:
            for d in (-1, 0, 1, 3, 4, 5):
                c = len(p) - (e + d)
                if 0 < c <= len(p):
                    cs.add(c)
        cs |= {rng.randint(1, len(p)) for _ in range(6)}
        out = [dict(arr=None, cut=c, extb=b"", declared=n) for c in sorted(cs)]
        for e in [b"\0", b"\0\0\0\0", b"\0" * 8, p[:ends[1]] if len(ends) > 1 else b"\2", rng.randbytes(5)]:
            out.append(dict(arr=None, cut=0, extb=e, declared=n))
        for nb in range(0, 5):
            for d in {nb * CHUNK, max(0, nb * CHUNK - 5), nb * CHUNK + 1}:
                if d != n:
                    out.append(dict(arr=None, cut=0, extb=b"", declared=d))
        ps = [x for x in byshape[shape[k]]]
        if len(ps) > 30 and not THOROUGH:
            ps = rng.sample(ps, 30)
        f, t = shape[k]
        part = n - f * CHUNK
        for dn, arr in ps:   # other chunks than declared
            have = sum(part if t and j == f + 1 else CHUNK for j in arr)
            out.append(dict(arr=arr, cut=0, extb=b"", declared=max(0, have + dn * CHUNK)))
            out.append(dict(arr=arr, cut=0, extb=b"", declared=n))
        return out
    run_plans(chk, exe, items, encs2, edits, "large", want)
    chk.sample(items[-1][0].brief())
