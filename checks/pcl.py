"""C19: PCL clouds, typed points and PCD files."""
import tempfile as _tf
from codec import *

TYPES = {  # fields of the point types and their size
    "xyz": ([("x", 0, F32), ("y", 4, F32), ("z", 8, F32)], 16),
    "xyzi": ([("x", 0, F32), ("y", 4, F32), ("z", 8, F32), ("intensity", 16, F32)], 32),
    "xyzl": ([("x", 0, F32), ("y", 4, F32), ("z", 8, F32), ("label", 16, U32)], 32),
    "xy": ([("y", 4, F32), ("x", 0, F32)], 8)}
RES = ["0.001", "0.01", "1.0", "0.25", "0.1", "1e-6"]
PCDT = {I8: ("I", 1), U8: ("U", 1), I16: ("I", 2), U16: ("U", 2), I32: ("I", 4), U32: ("U", 4), F32: ("F", 4), F64: ("F", 8), I64: ("I", 8), U64: ("U", 8)}


def nm(f):
    return f.name if isinstance(f.name, bytes) else f.name.encode()


def hdr_fields(info):
    return [{"name": nm(f).hex(), "off": f.off, "t": f.type, "res": "-" if f.res is None else "%08x" % f32bits(f.res)} for f in info.fields]


def blank(kind):
    return {"kind": kind, "fields": [], "dims": [], "res": "-", "dest": [], "lines": [], "got": [], "gdims": [], "chg": [], "real": "ok"}


def real_of(r):
    return "ok" if r.get("ok") else "%s: %s" % (r.get("ex"), r.get("what"))


def resolution(types, res):
    """expected description of fields encoded with a resolution for all 32-bit floats"""
    return [(t, float(res) if t == F32 and float(res) > 0 else None) for t in types]


def cloud_of(rng, big=None):
    types = [t for t, _ in rand_types(rng, 6)]
    fs, step = layout(resolution(types, "0.001"), rng, shuffle=rng.random() < 0.4, gaps=rng.random() < 0.5, tail=rng.choice([0, 0, 1, 4, 16]))
    n = big or rng.choice([0, 1, 2, 3, 10, 40, 200])
    h = rng.choice([d for d in (1, 1, 2, 3, 5) if n % d == 0])
    return fs, step, n // h, h


def c19(chk):
    exe = build_pcldrv()
    rng = chk.rng
    tla, metas = [], []
    rt_items, rt_res = [], []

    def add(case, meta):
        tla.append(case)
        metas.append(meta)

    # generic clouds, encoded
    items, ops = [], []
    for k in range(4000 if THOROUGH else 900):
        fs, step, w, h = cloud_of(rng, big=rng.choice([32768, 40000]) if k < (12 if THOROUGH else 3) else None)
        res = rng.choice(RES + ["0", "-1"])
        for f in fs:
            f.res = f32(float(res)) if f.type == F32 and float(res) > 0 else None
        info = Info(fs, step, w, h, 5, LOSSY, ZSTD)
        data, _ = gen_points(rng, info, info.n)
        codes = [f.type for f in fs]
        if rng.random() < 0.08:
            codes[rng.randrange(len(codes))] = rng.choice([0, 11, 12, 255])
        items.append((info, data, codes, res))
        ops.append(("pclenc", {"w": w, "h": h, "step": step, "d": data.hex(), "res": res, "pre": rng.choice([0, 0, 9, 4000]), "fields": ";".join("%s:%d:%d:1" % (nm(f).hex(), f.off, c) for f, c in zip(fs, codes))}))
    enc = run_ops(exe, ops, timeout=60)
    streams = []  # (info, data, bytes)
    for (info, data, codes, res), r, (_, a) in zip(items, enc, ops):
        k = blank("enc")
        k.update(fields=[{"name": nm(f).hex(), "off": f.off, "dt": c} for f, c in zip(info.fields, codes)], dims=[info.w, info.h, info.step], res="%08x" % f32bits(f32(float(res))) if float(res) > 0 else "-", real=real_of(r))
        if r.get("ok"):
            g = parse_info(r["info"])
            k.update(got=hdr_fields(g), gdims=[g.w, g.h, g.step])
            streams.append((info, data, r["out"]))
        add(k, ("pclenc", a))
    # streams of the library with any options, decoded as well
    more, mops = [], []
    for _ in range(2000 if THOROUGH else 400):
        info = rand_info(rng, nmax=5, maxn=60)
        data, _ = gen_points(rng, info, info.n)
        more.append((info, data))
    more = relatives(rng, more)
    for info, data in more:
        mops.append(("once", {"info": info.s(), "d": data.hex()}))
    for (info, data), r in zip(more, run_ops(exe, mops)):
        if r.get("ok"):
            streams.append((info, data, r["out"]))
        else:
            chk.violation("encoding failed: %s" % r.get("what"), {"info": info.s()})
    dops = [("pcldec", {"d": s, "dirty": rng.choice([0, 0, 1, 77])}) for _, _, s in streams]
    for (info, data, s), r, (_, a) in zip(streams, run_ops(exe, dops, timeout=60), dops):
        k = blank("dec")
        k.update(fields=hdr_fields(info), dims=[info.w, info.h, info.step], real=real_of(r))
        real, outb = real_of(r), None
        if r.get("ok"):
            m, fl = r["cloud"].split("|", 1)
            k["gdims"] = [int(x) for x in m.split(",")]
            k["got"] = [{"name": t.split(":")[0], "off": int(t.split(":")[1]), "dt": int(t.split(":")[2]), "count": int(t.split(":")[3])} for t in fl.split(";")] if fl else []
            outb = bytes.fromhex(r["data"])
            if len(outb) != info.n * info.step:
                real = "decoded data has another size"
        add(k, ("pcldec", dict(a, d=a["d"][:20000])))
        rt_items.append((info, data))
        rt_res.append((real, outb, None))

    # typed points: encoded from one type, or as any stream with fields of such names; decoded into another type
    src = []
    tops, tmeta = [], []
    for k in range(3000 if THOROUGH else 700):
        t = rng.choice(list(TYPES))
        fl, size = TYPES[t]
        res = rng.choice(RES)
        fs = [Field(n, o, ty, float(res) if n in "xyz" else None) for n, o, ty in fl]
        n = rng.choice([0, 1, 2, 5, 30, 100]) if k > 2 else 33000
        h = rng.choice([d for d in (1, 1, 2, 5) if n % d == 0])
        info = Info(fs, size, n // h, h, 5, LOSSY, ZSTD)
        data, _ = gen_points(rng, info, n)
        tops.append(("typenc", {"t": t, "d": data.hex(), "w": info.w, "h": h, "res": res, "pre": rng.choice([0, 50000])}))
        tmeta.append((info, data))
    for (info, data), r, (_, a) in zip(tmeta, run_ops(exe, tops, timeout=60), tops):
        k = blank("typed")  # the header must describe the type; compared as a generic "enc" case would be
        k["kind"] = "enc"
        k.update(fields=[], dims=[info.w, info.h, info.step], real=real_of(r))
        if r.get("ok"):
            g = parse_info(r["info"])
            k["gdims"] = [g.w, g.h, g.step]
            exp = hdr_fields(info)
            got = hdr_fields(g)
            k["got"] = [] if got == exp else got
            src.append((info, data, r["out"]))
        add(k, ("typenc", dict(a, d=a["d"][:20000])))
    eops, emeta = [], []
    for _ in range(4000 if THOROUGH else 900):
        names = ["x", "y", "z", "intensity", "label", "extra", "t"]
        rng.shuffle(names)
        natural = {"x": F32, "y": F32, "z": F32, "intensity": F32, "label": U32}
        names = names[:rng.randint(1, 7)]
        if rng.random() < 0.4:
            names = [x for x in ("x", "y", "z") if x not in names] + names
            names = sorted(names, key=lambda x: "xyz".find(x) if x in "xyz" else 9)
        types = [natural.get(x, rng.randint(1, 10)) if rng.random() < 0.95 else rng.randint(1, 10) for x in names]
        fs, step = layout([(t, rng.choice(RESOLUTIONS) if t in (F32, F64) and rng.random() < 0.6 else None) for t in types], rng, shuffle=rng.random() < 0.5, gaps=rng.random() < 0.5, tail=rng.choice([0, 0, 4, 40]))
        for f, x in zip(fs, names):
            f.name = x
        n = rng.choice([0, 1, 2, 5, 30, 100])
        info = Info(fs, step, n, 1, rng.choice([3, 4, 5, 5]), rng.choice([LOSSY, LOSSY, LOSSLESS, NONE]), rng.choice([CNONE, LZ4, ZSTD]))
        data, _ = gen_points(rng, info, n)
        emeta.append((info, data))
        while rng.random() < 0.3 and info.fields:  # the same but for one thing
            info = info.copy()
            f, g = rng.choice(info.fields), rng.choice(info.fields)
            if rng.random() < 0.5 and f.size == g.size:
                f.off, g.off = g.off, f.off
            elif rng.random() < 0.5 and f.type == g.type:
                f.name, g.name = g.name, f.name
            elif rng.random() < 0.5:
                info.step += 4
            else:
                f.type = rng.choice([t for t in SIZE if SIZE[t] == f.size])
                f.res = f.res if f.type in (F32, F64) else None
            data, _ = gen_points(rng, info, n)
            emeta.append((info, data))
    for info, data in emeta:
        eops.append(("once", {"info": info.s(), "d": data.hex()}))
    for (info, data), r in zip(emeta, run_ops(exe, eops)):
        if r.get("ok"):
            src.append((info, data, r["out"]))
    xops, xmeta = [], []
    two = None
    for info, data, s in src:
        two = rng.sample(list(TYPES), 2) if two is None or rng.random() < 0.4 else two
        for t in two:
            size = TYPES[t][1]
            nb = rng.choice([0, info.n, info.n, max(0, info.n - 1), info.n + 3])
            xops.append(("typdec", {"t": t, "d": s, "b": rng.randbytes(nb * size).hex()}))
            xmeta.append((info, data, t))
    for (info, data, t), r, (_, a) in zip(xmeta, run_ops(exe, xops, timeout=60), xops):
        fl, size = TYPES[t]
        k = blank("typed")
        k.update(fields=hdr_fields(info), dest=[{"name": n.encode().hex(), "off": o, "t": ty} for n, o, ty in fl], dims=[info.w, info.h], real=real_of(r))
        a2 = dict(a, d=a["d"][:20000], b=a["b"][:2000])
        if "after" in r:
            before, after = bytes.fromhex(r["before"]), bytes.fromhex(r["after"])
            k["gdims"] = [r["w"], r["h"]]
            k["chg"] = [o for o in range(size) if before[o::size] != after[o::size]]
            if r.get("ok") and len(after) == info.n * size and r["sz"] == size:
                off = {n: (o, ty) for n, o, ty in fl}
                com = [f for f in info.fields if f.name in off and off[f.name][1] == f.type]
                if len(com) == len([f for f in info.fields if f.name in off]):
                    pseudo = bytearray(info.n * info.step)
                    for f in com:
                        for b in range(f.size):
                            pseudo[f.off + b::info.step] = after[off[f.name][0] + b::size]
                    ci = info.copy()
                    ci.fields = [f.copy() for f in com]
                    rt_items.append((ci, data))
                    rt_res.append(("ok", bytes(pseudo), None))
            elif r.get("ok"):
                k["real"] = "wrong number of points"
        add(k, ("typdec " + t, a2))

    # PCD files of all field types
    scratch = _tf.mkdtemp(prefix="pcd-")
    try:
        pops, pmeta = [], []
        for q in range(400 if THOROUGH else 90):
            types = [rng.randint(1, 10) for _ in range(rng.randint(1, 6))]
            res = rng.choice(RES)
            fs, step = layout(resolution(types, res))
            w, h = rng.choice([(1, 1), (7, 1), (3, 4), (50, 1)])
            info = Info(fs, step, w, h, 5, LOSSY, ZSTD)
            data, _ = gen_points(rng, info, info.n)
            comment = rng.choice(["# .PCD v.7 - Point Cloud Data file format\n", "", "# a\n# b\n"])
            head = comment + "VERSION .7\nFIELDS %s\nSIZE %s\nTYPE %s\nCOUNT %s\nWIDTH %d\nHEIGHT %d\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %d\nDATA " % (
                " ".join(f.name for f in fs), " ".join(str(PCDT[t][1]) for t in types), " ".join(PCDT[t][0] for t in types), " ".join("1" for _ in types), w, h, info.n)
            ascii_ = rng.random() < 0.3 and all(t in INTS for t in types)
            body = b"\n".join(b" ".join(str(v - (1 << (8 * f.size)) if f.type in SIGNED and v >> (8 * f.size - 1) else v).encode() for f, v in ((f, column(info, f, data, info.n)[i]) for f in fs)) for i in range(info.n)) + b"\n" if ascii_ else data
            path = os.path.join(scratch, "%d.pcd" % q)
            with open(path, "wb") as o:
                o.write(head.encode() + (b"ascii\n" if ascii_ else b"binary\n") + body)
            pops.append(("pcdenc", {"path": path.encode().hex(), "res": res}))
            pmeta.append((info, data, res, head))
        pres = run_ops(exe, pops)
        fulls = run_ops(exe, [("full", {"d": r.get("out", ""), "fill": 0}) for r in pres])
        for (info, data, res, head), r, f in zip(pmeta, pres, fulls):
            k = blank("enc")
            k.update(fields=[{"name": nm(f_).hex(), "off": f_.off, "dt": f_.type} for f_ in info.fields], dims=[info.w, info.h, info.step], res="%08x" % f32bits(f32(float(res))), real=real_of(r))
            if r.get("ok"):
                g = parse_info(r["info"])
                k.update(got=hdr_fields(g), gdims=[g.w, g.h, g.step])
                rt_items.append((info, data))
                rt_res.append((real_of(f), bytes.fromhex(f.get("out", "")) if f.get("ok") else None, None))
            add(k, ("pcd file", {"head": head, "data": data.hex()}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # PCD headers
    hops, hmeta = [], []
    for _ in range(3000 if THOROUGH else 500):
        n = rng.randint(0, 6)
        names = ["f%d" % i for i in range(n)]
        kinds = [rng.choice(list(PCDT.values())) if rng.random() < 0.9 else (rng.choice("FIUX"), rng.choice([1, 2, 3, 4, 8, 16])) for _ in range(n)]
        ls = [["FIELDS"] + names, ["SIZE"] + [str(s) for _, s in kinds], ["TYPE"] + [t for t, _ in kinds]]
        if rng.random() < 0.1 and n:
            rng.choice(ls).pop()
        rng.shuffle(ls)
        ls = [["VERSION", ".7"]] * rng.randint(0, 1) + ls + [["COUNT"] + ["1"] * n, ["WIDTH", "1"]]
        text, lines = "", []
        for l in ls:
            if rng.random() < 0.25:
                text += rng.choice(["# comment\n", "\n", "#\r\n"])
            text += " ".join(l) + rng.choice(["", "", "#c", "\r"]) + "\n"
            lines.append(l)
        text += "DATA ascii\n1 2 3\nFIELDS other\n"
        hops.append(("pcdhdr", {"d": text.encode().hex()}))
        hmeta.append((lines, text))
    for (lines, text), r in zip(hmeta, run_ops(exe, hops)):
        k = blank("pcd")
        k.update(lines=lines, real=real_of(r))
        if r.get("ok") and r["map"]:
            k["got"] = [[bytes.fromhex(x.split(":")[0]).decode(), int(x.split(":")[1])] for x in r["map"].split(";")]
        add(k, ("pcdhdr", {"text": text}))

    verd, st = judge("Pcl", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    TX = {"NotRefused": "a conversion that has no meaning was not refused", "Accepted": "the conversion failed", "Dimensions": "the dimensions are not those of the cloud", "Fields": "the field list is not the specified one",
          "Touched": "bytes outside the common fields were written"}
    for v, k, (what, a) in zip(verd, tla, metas):
        if v[0] != "ok":
            chk.violation("%s: %s (%s): %s -> %s; changed offsets %s" % (what, TX[v[0]], k["real"], json.dumps(k["fields"] or k["lines"])[:400], json.dumps(k["got"])[:300], k["chg"][:20]), {"op": what, "args": a})
        chk.count("conversions_" + what.split()[0])
    judge_rt(chk, rt_items, rt_res, "pcl", {"Exact", "HalfStep", "NaNKept"})
    chk.sample(tla[0])
    chk.sample(tla[-1])
