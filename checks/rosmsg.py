"""C14 messages, C16 resolution profiles, C17 visualization preprocessing, C18 copies and moves of messages."""
import itertools, re
from codec import *

# ---------------------------------------------------------------- sensor_msgs/PointCloud2 as plain CDR, little endian
def u32(x):
    return int(x).to_bytes(4, "little")


class W:
    def __init__(self):
        self.o = bytearray(b"\0\1\0\0")

    def num(self, b):
        self.o += bytes(-(len(self.o) - 4) % len(b)) + b

    def s(self, b):
        self.num(u32(len(b) + 1))
        self.o += b + b"\0"


def write_msg(m, data):
    """-> bytes, position of the data's length"""
    w = W()
    w.num(m["sec"])
    w.num(m["nsec"])
    w.s(m["frame"])
    w.num(u32(m["h"]))
    w.num(u32(m["w"]))
    w.num(u32(len(m["fields"])))
    for name, off, t, count in m["fields"]:
        w.s(name)
        w.num(u32(off))
        w.o.append(t)
        w.num(u32(count))
    w.o.append(0)
    w.num(u32(m["step"]))
    w.num(u32(m["row"]))
    at = len(w.o)
    w.o += u32(len(data)) + data + bytes([m["dense"]])
    return bytes(w.o), at


def end_of_fields(m):
    """where is_bigendian is"""
    w = W()
    w.num(m["sec"])
    w.num(m["nsec"])
    w.s(m["frame"])
    w.num(u32(m["h"]))
    w.num(u32(m["w"]))
    w.num(u32(len(m["fields"])))
    for name, off, t, count in m["fields"]:
        w.s(name)
        w.num(u32(off))
        w.o.append(t)
        w.num(u32(count))
    return len(w.o)


def big_endian(raw, m):
    r = bytearray(raw)
    r[end_of_fields(m)] = 1
    return bytes(r)


def rand_name(rng):
    return rng.choice([b"x", b"y", b"z", b"intensity", b"ring", b"t", b"", b"a b:c", b"\xc3\xa9", bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 12)))])


def safe_name(rng):
    """what the text header can carry (see C03)"""
    return rng.choice([b"x", b"y", b"intensity", b"ring", b"time_stamp", b"", b"rgb", b"label"]) if rng.random() < 0.6 else bytes(rng.choice(b"abcxyzABC0123_") for _ in range(rng.randint(1, 14)))


PROFRES = [0.0, -0.0, 0.001, 0.01, 0.1, 1.0, 0.5, 7.0]


def rand_profile(rng, names):
    prof = {}
    for n in set(names):
        if rng.random() < 0.35:
            prof[n] = rng.choice(PROFRES) if rng.random() < 0.8 else 0.0
    if rng.random() < 0.2:
        prof[b"absent" + rng.randbytes(2).hex().encode()] = rng.choice(PROFRES)
    return prof


def prof_str(prof):
    return ";".join("%s:%08x" % (n.hex(), f32bits(r)) for n, r in prof.items())


def kept_of(names, prof):
    return [j for j, n in enumerate(names) if not (n in prof and prof[n] == 0)]


def effective(fields, prof, default):
    out = []
    for f in fields:
        if f.name in prof:
            if prof[f.name] == 0:
                continue
            g = Field(f.name, f.off, f.type, prof[f.name])
        elif default is not None and f.type == F32:
            g = Field(f.name, f.off, f.type, default)
        else:
            g = f.copy()
        out.append(g)
    return out


def message(rng, n=None, big=False, prof=None, default="any", enc=None, comp=None):
    """-> info (with the fields that survive the profile), m, all data (with padding), packed points, profile, default"""
    types = [(t, None) for t, _ in rand_types(rng, 5)]
    fs, step = layout(types, rng, shuffle=rng.random() < 0.4, gaps=rng.random() < 0.4, tail=rng.choice([0, 0, 0, 1, 3, 16]))
    unique = rng.random() < 0.7
    for k, f in enumerate(fs):
        f.name = (b"xyzijklmnopqrstuvw"[k:k + 1] if unique else safe_name(rng))
    if n is None:
        n = rng.choice([0, 0, 1, 2, 3, 4, 6, 12, 30, 60])
    h = rng.choice([d for d in (1, 1, 1, 2, 3, 5) if n % d == 0]) if n else 1
    w = n // h
    if not n and rng.random() < 0.5:
        w, h = rng.choice([(0, 0), (0, 3), (3, 0), (0, 1)])
    names = [f.name for f in fs]
    if prof is None:
        prof = rand_profile(rng, names)
        if all(prof.get(x) == 0 for x in names):
            prof = {}
    elif all(prof.get(x) == 0 for x in names):
        return message(rng, n if n is None else max(n, 1), big, prof, default, enc, comp)
    if default == "any":
        default = rng.choice([None, None, 0.001, 0.01, 1.0])
    info = Info(effective(fs, prof, default), step, w, h, rng.choice([3, 4, 5, 5, 5]), rng.choice([NONE, LOSSY, LOSSY, LOSSY, LOSSLESS]), rng.choice([CNONE, LZ4, ZSTD, ZSTD]), rng.random() < 0.2)
    if enc is not None:
        info.enc, info.comp, info.ver, info.thr = enc, comp, 5, True
    data, _ = gen_points(rng, Info([f for f in info.fields], step, w, h, info.ver, info.enc), w * h)
    row = w * step
    full = data
    if w and h and rng.random() < 0.25:
        pad = rng.choice([1, 2, 4, 7, step, step + 3, 64])
        full = b"".join(data[r * row:(r + 1) * row] + rng.randbytes(pad) for r in range(h))
        row += pad
    m = {"sec": rng.choice([0, 1, -1, 1700000000, -2147483648, 2147483647]).to_bytes(4, "little", signed=True), "nsec": rng.choice([0, 1, 999999999, 4294967295]).to_bytes(4, "little"),
         "frame": rng.choice([b"", b"m", b"map", b"base_link", b"lidar/top", bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 40)))]) if not big else b"map" * rng.choice([1, 100]),
         "h": h, "w": w, "fields": [(f.name, f.off, f.type, 1) for f in fs], "step": step, "row": row, "dense": rng.randrange(2)}
    return info, m, full, data, prof, default


def sibling(rng, it, fixed=False):
    """a message that differs from another one in a single respect (fixed: not the encoding): what a stale cache would miss; None if there is none"""
    info, m, full, data, prof, default = it
    if m.get("big"):
        return None
    fs = [Field(n, o, t, None) for n, o, t, _ in m["fields"]]
    new, prof, w, h, step = info.copy(), dict(prof), m["w"], m["h"], m["step"]
    same = [(i, j) for i in range(len(fs)) for j in range(i) if fs[i].size == fs[j].size]
    diff = [(i, j) for i in range(len(fs)) for j in range(i) if bytes(fs[i].name) != bytes(fs[j].name)]
    kind = rng.randrange(12)
    if fixed and kind in (8, 9, 10):
        return None
    if kind <= 1:  # another type of the same size
        f = rng.choice(fs)
        ts = [t for t in SIZE if SIZE[t] == f.size and t != f.type]
        if not ts:
            return None
        f.type = rng.choice(ts)
    elif kind == 2 and same:  # columns at each other's place
        i, j = rng.choice(same)
        fs[i].off, fs[j].off = fs[j].off, fs[i].off
    elif kind == 3 and diff:  # names exchanged
        i, j = rng.choice(diff)
        fs[i].name, fs[j].name = fs[j].name, fs[i].name
    elif kind == 4:
        f = rng.choice(fs)
        nm = bytes(reversed(f.name)) if len(f.name) > 1 else b"q"
        if nm in [bytes(x.name) for x in fs]:
            return None
        f.name = nm
    elif kind == 5:
        w, h = (h, w) if w != h else (w + 1, h)
    elif kind == 6 and len(fs) > 1:
        fs.pop(rng.randrange(len(fs)))
    elif kind == 7:
        step += rng.choice([1, 4])
    elif kind == 8:
        prof = {k: (v * 2 if v else 0.0) for k, v in prof.items()} if prof and rng.random() < 0.5 else {rng.choice(fs).name: rng.choice([0.25, 0.0])}
    elif kind == 9 and default is not None:
        default = rng.choice([None, default * 4])
    elif kind == 10:
        k = rng.randrange(3)
        if k == 0:
            new.ver = rng.choice([3, 4, 5])
        elif k == 1:
            new.enc = rng.choice([NONE, LOSSY, LOSSLESS])
        else:
            new.comp = rng.choice([CNONE, LZ4, ZSTD])
    elif kind != 11:  # 11: other points
        return None
    if all(prof.get(f.name) == 0 for f in fs) or w * h > 40000:
        return None
    new = Info(effective(fs, prof, default), step, w, h, new.ver, new.enc, new.comp, new.thr)
    data, _ = gen_points(rng, new, w * h)
    m2 = dict(m, h=h, w=w, fields=[(f.name, f.off, f.type, 1) for f in fs], step=step, row=w * step)
    if rng.random() < 0.1:
        m2["frame"] = bytes(rng.randrange(1, 256) for _ in m["frame"])
    return new, m2, data, data, prof, default


def with_siblings(rng, items, p=0.3):
    out = []
    for it in items:
        out.append(it)
        while rng.random() < p:
            s = sibling(rng, rng.choice([it, out[-1]]))
            if s:
                out.append(s)
    return out


class Near:
    """draws from a list in which relatives are neighbours; often a neighbour of what was drawn last"""

    def __init__(self, rng, items):
        self.rng, self.items, self.at = rng, items, None

    def take(self):
        n = len(self.items)
        self.at = self.rng.randrange(n) if self.at is None or self.rng.random() < 0.5 else (self.at + self.rng.choice([-1, 0, 1, 1])) % n
        return self.items[self.at]


def part(b, upto):
    return {"head": list(b[:upto]), "tail": list(b[-40:]), "total": len(b)}


def run_messages(exe, rng, items, cuts=True):
    """items: (info, m, full, packed, prof, default) -> per item (tla case or None, real, outb, rinfo, replay)"""
    raws = [write_msg(m, full) for _, m, full, _, _, _ in items]
    raws = [(big_endian(raw, m), at) if m.get("big") else (raw, at) for (raw, at), (_, m, _, _, _, _) in zip(raws, items)]
    ops = []
    for (info, m, full, data, prof, default), (raw, at) in zip(items, raws):
        a = {"d": raw.hex(), "prof": prof_str(prof), "def": "" if default is None else "%08x" % f32bits(default), "enc": info.enc, "comp": info.comp, "ver": info.ver, "thr": int(info.thr), "pre": rng.choice([0, 0, 5, 3000])}
        ops.append(("compress", a))
    cres = run_ops(exe, ops, timeout=60)
    rres = run_ops(exe, [("restore", {"d": r.get("out", ""), "pre": rng.choice([0, 0, 7, 5000])}) for r in cres], timeout=60)
    return weigh_messages(exe, rng, items, raws, cres, rres, [a for _, a in ops], cuts)


def weigh_messages(exe, rng, items, raws, cres, rres, args, cuts=False):
    """judgeable records of raw messages, what they were compressed to and what that was restored to"""
    out = []
    fullops = []
    for (info, m, full, data, prof, default), (raw, at), cr, rr, a in zip(items, raws, cres, rres, args):
        meta = {"compress": dict(a, d=raw.hex()[:40000]), "restored": rr.get("out", "")[:2000]}
        if m.get("big"):
            one = {"head": [], "tail": [], "total": 0}
            k = {"big": 1, "any": 0, "msg": {"sec": list(m["sec"]), "nsec": list(m["nsec"]), "frame": list(m["frame"]), "h": m["h"], "w": m["w"], "step": m["step"], "row": m["row"], "dense": m["dense"], "fields": []},
                 "kept": [], "real": "ok" if cr.get("ok") else "refused" if cr.get("ex") != "crash" else "ok", "same": 0, "raw": one, "comp": one, "rest": one, "rcuts": [], "ccuts": [], "def": []}
            out.append([k, "big", b"", None, meta])
            fullops.append(("cdrhdr", {"d": "00010000", "def": 1}))
            continue
        if not cr.get("ok"):
            out.append([None, "the message is not compressed: %s" % cr.get("what", cr.get("ex")), None, None, meta])
            fullops.append(("cdrhdr", {"d": "00010000", "def": 1}))
            continue
        comp = bytes.fromhex(cr["out"])
        # the payload starts behind its length; its position is known from the description of the kept fields
        keep = kept_of([f[0] for f in m["fields"]], prof)
        pre, pat = write_msg(dict(m, fields=[m["fields"][j] for j in keep], row=m["w"] * m["step"]), b"")
        plen = int.from_bytes(comp[pat:pat + 4], "little") if len(comp) >= pat + 4 else 0
        payload = comp[pat + 4:pat + 4 + plen]
        definfo = parse_info(cr["definfo"])
        k = {"msg": {"sec": list(m["sec"]), "nsec": list(m["nsec"]), "frame": list(m["frame"]), "h": m["h"], "w": m["w"], "step": m["step"], "row": m["row"], "dense": m["dense"],
                     "fields": [{"name": list(n), "off": o, "t": t, "count": c} for n, o, t, c in m["fields"]]},
             "kept": [j + 1 for j in keep], "big": 0, "any": m.get("anypay", 0), "real": "ok" if rr.get("ok") else "restore: %s" % rr.get("what", rr.get("ex")), "same": 0,
             "raw": part(raw, at + 8), "comp": part(comp, pat + 8), "rest": part(bytes.fromhex(rr.get("out", "")), pat + 8), "rcuts": [], "ccuts": [],
             "def": [definfo.w, definfo.h, definfo.step, definfo.enc, definfo.comp]}
        rest = bytes.fromhex(rr.get("out", ""))
        outb = rest[pat + 4:pat + 4 + m["w"] * m["h"] * m["step"]]
        real = "ok"
        if not rr.get("ok"):
            real = "the compressed message is not restored: %s" % rr.get("what", rr.get("ex"))
        elif len(outb) != len(data):
            real = "the restored data has another size"
        out.append([k, real, outb, parse_info(cr["info"]), meta])
        fullops.append(("full", {"d": payload.hex(), "fill": 0}) if payload else ("cdrhdr", {"d": "00010000", "def": 1}))
    # what the payload denotes when decoded directly
    fres = run_ops(exe, fullops, timeout=60)
    for o, f, (name, _), it in zip(out, fres, fullops, items):
        if o[0] is None or o[1] == "big":
            continue
        info = it[0]
        if name != "full":
            o[0]["same"] = 1 if info.n == 0 else 0
            continue
        if f.get("ok"):
            fb = bytes.fromhex(f["out"])
            o[3] = parse_info(f["info"])
            o[0]["same"] = int(len(fb) == len(o[2]) and all(column(info, x, fb, info.n) == column(info, x, o[2], info.n) for x in info.fields))
    if cuts:
        cut_ops, idx = [], []
        for q, (o, (raw, at), cr) in enumerate(zip(out, raws, cres)):
            if o[0] is None:
                continue
            if o[1] == "big":
                continue
            for key, d in (("rcuts", raw), ("ccuts", bytes.fromhex(cr["out"]))):
                at_ = list(range(len(d))) if len(d) < 260 else sorted(set(list(range(0, 120)) + [len(d) - j for j in range(1, 30)] + rng.sample(range(len(d)), 40)))
                cut_ops.append(("msgcuts", {"d": d.hex(), "at": ",".join(map(str, at_)), "r": int(key == "ccuts" and rng.random() < 0.5)}))
                idx.append((q, key, at_))
        for (q, key, at_), r, (_, a) in zip(idx, run_ops(exe, cut_ops), cut_ops):
            if r.get("ok"):
                out[q][0][key] = [[p, x] for p, x in zip(at_, r["cuts"])]
            else:
                out[q][0][key] = [[0, "crash: %s" % r.get("what", r.get("ex"))]]
                out[q][4]["cut_" + key] = r.get("what", r.get("ex"))
    return out


MSGTX = {"BigEndian": "a big-endian cloud was compressed as if it were little-endian", "Accepted": "a well-formed message does not survive", "Default": "the default encoding description does not describe the message", "CutRaw": "a truncated message was not rejected", "Compressed": "the compressed message is not the one specified",
         "CutComp": "a truncated compressed message was not rejected", "Restored": "the restored message is not the one specified", "Payload": "the restored data is not what the payload denotes"}


def judge_messages(chk, items, outs, label, fixed=None):
    cs = [(o, it) for o, it in zip(outs, items) if o[0] is not None]
    for o, it in zip(outs, items):
        if o[0] is None:
            chk.violation("%s: %s; %s" % (label, o[1], json.dumps(it[0].brief())), o[4])
    verd, st = judge("RosMsg", [o[0] for o, _ in cs])
    chk.add_stats(st)
    chk.traces(len(cs))
    for v, (o, it) in zip(verd, cs):
        if v[0] != "ok":
            chk.violation("%s: %s: %s; frame of %d bytes, %s" % (label, MSGTX[v[0]], o[0]["real"], len(it[1]["frame"]), json.dumps(it[0].brief())), o[4])
    chk.count("messages", len(cs))


def c14(chk):
    exe = build_rosdrv()
    rng = chk.rng
    items = with_siblings(rng, [message(rng) for _ in range(4500 if THOROUGH else 800)])
    # every length of the frame id and of one field name modulo the alignment, with and without data
    for fl in range(9):
        for nl in range(9):
            it = message(rng, n=rng.choice([0, 2]))
            it[1]["frame"] = b"f" * fl
            nm = b"n" * nl
            if not it[4] and nm not in [f[0] for f in it[1]["fields"]]:
                it[1]["fields"][0] = (nm,) + it[1]["fields"][0][1:]
                it[0].fields[0].name = nm
            items.append(it)
    for it in items:
        if it[0].n and rng.random() < 0.04:
            it[1]["big"] = 1
    outs = run_messages(exe, rng, items)
    judge_messages(chk, items, outs, "message")
    judge_rt(chk, [(it[0], it[3]) for it, o in zip(items, outs) if o[0] and o[1] != "big"], [(o[1], o[2], o[3]) for o in outs if o[0] and o[1] != "big"], "message", {"Exact", "HalfStep", "NaNKept"})
    big = []
    for n in ([32768, 32769, 70000] if not THOROUGH else [32767, 32768, 32769, 65536, 65537, 70000, 100000, 131073]):
        big.append(message(rng, n=n, big=True))
    outs = run_messages(exe, rng, big, cuts=False)
    judge_messages(chk, big, outs, "large message")
    judge_rt(chk, [(it[0], it[3]) for it, o in zip(big, outs) if o[0]], [(o[1], o[2], o[3]) for o in outs if o[0]], "large message", {"Exact", "HalfStep", "NaNKept"})
    # fields of several elements
    multi = []
    for cnt in (2, 3, 4):
        info = Info([Field(b"x", 0, F32), Field(b"rgb", 4, U8)], 4 + cnt, 2, 1, 5, LOSSY, ZSTD)
        data = bytes(range(1, 2 * info.step + 1))
        m = {"sec": bytes(4), "nsec": bytes(4), "frame": b"map", "h": 1, "w": 2, "fields": [(b"x", 0, F32, 1), (b"rgb", 4, U8, cnt)], "step": info.step, "row": 2 * info.step, "dense": 1}
        multi.append((info, m, data, data, {}, None))
    outs = run_messages(exe, rng, multi, cuts=False)
    judge_messages(chk, multi, outs, "field with count > 1")
    for it, o in zip(multi, outs):
        if o[0] and o[2] is not None and o[2] != it[3]:
            chk.violation("field with count > 1: elements after the first are lost", {"in": it[3].hex(), "out": o[2].hex()})
    chk.sample(items[0][0].brief())
    chk.sample(big[0][0].brief())


# ---------------------------------------------------------------- C16
def fdict(f):
    nm = f.name if isinstance(f.name, bytes) else f.name.encode()
    return {"name": nm.hex(), "off": f.off, "t": f.type, "res": "-" if f.res is None else "%08x" % f32bits(f.res)}


def c16(chk):
    exe = build_rosdrv()
    rng = chk.rng
    cases = []
    variants = [(n, t, r) for n in (b"x", b"y") for t in (F32, U16) for r in (None, 0.5)]
    choices = [None, 0.0, -0.0, 0.25]
    for ln in (0, 1, 2, 3):
        for fl in itertools.product(variants, repeat=ln):
            for px, py, d in itertools.product(choices, choices, (None, 0.01)):
                if ln == 3 and not THOROUGH and rng.random() < 0.6:
                    continue
                prof = {k: v for k, v in ((b"x", px), (b"y", py)) if v is not None}
                cases.append(([Field(n, 4 * i, t, r) for i, (n, t, r) in enumerate(fl)], prof, d))
    for _ in range(20000 if THOROUGH else 3000):
        fs = []
        for _ in range(rng.randint(0, 12)):
            fs.append(Field(rand_name(rng), rng.choice([0, 1, 4, 8, 100, 1 << 20]), rng.randint(1, 10), rng.choice([None, None, 0.001, 1.0])))
        prof = rand_profile(rng, [f.name for f in fs])
        for n in list(prof):  # any resolution that is a number, however small or large, is one
            if rng.random() < 0.4:
                b = rng.choice([rng.getrandbits(32), rng.randint(1, 40), rng.randint(1, 0x007fffff), 0x7f7fffff, f32bits(10.0 ** rng.uniform(-30, 30))])
                prof[n] = struct.unpack("<f", struct.pack("<I", b if b & 0x7f800000 != 0x7f800000 else 1))[0]
        if rng.random() < 0.3:  # most fields removed
            for f in fs:
                if rng.random() < 0.7:
                    prof[f.name] = 0.0
        cases.append((fs, prof, rng.choice([None, None, 0.01, 5.0, 1e-9, 1e-30, 1e30])))
    ops = [("profile", {"fields": ";".join(f.s() for f in fs), "prof": prof_str(p), "def": "" if d is None else "%08x" % f32bits(d)}) for fs, p, d in cases]
    res = run_ops(exe, ops)
    tla = []
    for (fs, p, d), r in zip(cases, res):
        got = parse_info("0,0,0,0,0,0,0,|" + r["fields"]).fields if r.get("ok") else []
        tla.append({"fields": [fdict(f) for f in fs], "prof": [[n.hex(), "%08x" % f32bits(v)] for n, v in p.items()], "def": "-" if d is None else "%08x" % f32bits(d),
                    "got": [fdict(f) for f in got], "real": "ok" if r.get("ok") else str(r.get("what", r.get("ex")))})
    verd, st = judge("Profile", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    TX = {"Accepted": "applying the profile failed", "Removed": "not exactly the fields with resolution zero were removed", "Fields": "a remaining field has another name, place, type or order", "Resolution": "a resolution is not the one the profile gives"}
    for v, t, (_, a) in zip(verd, tla, ops):
        if v[0] != "ok":
            chk.violation("%s (%s): fields %s, profile %s, default %s -> %s" % (TX[v[0]], t["real"], t["fields"], t["prof"], t["def"], t["got"]), a)
    chk.count("profiles", len(tla))
    chk.sample(tla[1])
    chk.sample(tla[-1])
    # the rest of the cloud is restored where it was
    items = []
    while len(items) < (3000 if THOROUGH else 500):
        it = message(rng)
        if it[0].n and it[4] or it[5] is not None:
            items.append(it)
    items = with_siblings(rng, items)
    outs = run_messages(exe, rng, items, cuts=False)
    judge_messages(chk, items, outs, "message with profile")
    judge_rt(chk, [(it[0], it[3]) for it, o in zip(items, outs) if o[0]], [(o[1], o[2], o[3]) for o in outs if o[0]], "message with profile", {"Exact", "HalfStep", "NaNKept"})


# ---------------------------------------------------------------- C17
def voxel_of(x, res):
    """-> the voxel, or None if rounding errors could decide it"""
    q = Fraction(x) / Fraction(res)
    r = math.floor(q + Fraction(1, 2))
    d = abs(q - r)
    margin = Fraction(1, 2) - abs(r) * (Fraction(1, 1 << 22) if abs(r) < (1 << 20) + 2 else Fraction(1, 1 << 50)) - Fraction(1, 1000000)
    return r if d < margin else None


def viz_coord(rng, res, pool, wide):
    if res > 1e20:
        return f32(rng.choice(pool) * res)
    s = rng.random()
    if s < 0.55:
        return f32(rng.choice(pool) * res * rng.choice([1.0, 1.0, 1.2, 0.8, 1.4]))
    if s < 0.75:
        return f32(rng.uniform(-3, 3) * res)
    if s < 0.8:
        return rng.choice([0.0, -0.0])
    if s < 0.84:
        return rng.choice([float("nan"), float("inf"), float("-inf")])
    if s < 0.9 or not wide:
        return f32(res * rng.randint(-40, 40))
    return f32(res * rng.choice([1 << 18, (1 << 20) - 3, -(1 << 20) + 3, 1 << 20, (1 << 20) + 5, -(1 << 20) - 5, 1 << 21, (1 << 21) + 7, -(1 << 21), 1 << 22, 3 << 21, 1 << 40, -(1 << 40)]))


def c17(chk):
    exe = build_rosdrv()
    rng = chk.rng
    cases = []

    def cloud(n, wide, h=None):
        res = rng.choice([0.001, 0.01, 0.25, 1.0, 7.0, 0.003, 1e-6] + ([1e-40, 1e30] if rng.random() < 0.1 else []))
        base = rng.choice([0, 0, 0, 1, 4, 8])
        offs = [base, base + 4, base + 8]
        rs = [res] * 3
        ts = [F32] * 3
        spoil = rng.randrange(14)
        if spoil == 0:
            rs[rng.randrange(3)] = None
        elif spoil == 1:
            rs[rng.randrange(3)] = res * 2
        elif spoil == 2:
            offs = rng.choice([[base, base + 8, base + 4], [base, base + 4, base + 12], [base + 4, base, base + 8], [base, base + 8, base + 16], [base, base + 3, base + 8]])
        elif spoil == 3:
            ts[rng.randrange(3)] = rng.choice([U32, I32])
        elif spoil == 4:
            rs = [rng.choice([0.0, -1.0, float("inf"), float("nan")])] * 3
        fs = [Field("abc"[i], offs[i], ts[i]) for i in range(3)]
        for f, r in zip(fs, rs):
            f.res = None if r is None else f32(r)
        at = base + 20
        for _ in range(rng.randint(0, 4)):
            t = rng.choice([F64, F64, F32, U8, U16, I64])
            f = Field("e%d" % at, at, t)
            f.res = rng.choice([None, 0.5]) if t in (F32, F64) else None
            fs.append(f)
            at += SIZE[t]
        if spoil == 5:
            fs = fs[1:] if rng.random() < 0.5 else [fs[1], fs[0]] + fs[2:]
        if spoil == 6:
            fs = fs[:2]
        step = at if spoil != 7 else base + rng.choice([11, 12, 13])
        n = max(n, 0)
        pool = [rng.randint(-5, 5) for _ in range(rng.choice([1, 2, 4, 8]))]
        key0 = [None] * n
        rows = []
        r32 = f32(res)
        posres = rs[0] is not None and rs[0] > 0 and math.isfinite(rs[0])
        span = max(offs) + 4
        raw = bytearray()
        for i in range(n):
            while True:
                c = [viz_coord(rng, r32, pool, wide) for _ in range(3)]
                if rng.random() < 0.9:
                    c = [x if math.isfinite(x) else f32(r32 * 2) for x in c]
                if not all(math.isfinite(x) for x in c):
                    v = ""
                    break
                vs = [voxel_of(x, r32) for x in c]
                if None not in vs:
                    v = ",".join(map(str, vs))
                    break
            p = bytearray(rng.randbytes(max(step, span)))
            for o, x in zip(offs, c):
                p[o:o + 4] = struct.pack("<f", x)
            key0[i] = v
            raw += p[:step]
        w, hh = n, 1
        for d in (2, 3):
            if n and n % d == 0 and rng.random() < 0.2:
                w, hh = n // d, d
        if n and rng.random() < 0.08:  # all points dropped
            for i in range(n):
                if step >= offs[0] + 4:
                    raw[i * step + offs[0]:i * step + offs[0] + 4] = struct.pack("<f", rng.choice([float("nan"), float("inf")]))
                    key0[i] = ""
        row = w * step
        data = bytes(raw)
        full = data
        if w and rng.random() < 0.15:
            pad = rng.choice([1, 4, step])
            full = b"".join(data[r * row:(r + 1) * row] + rng.randbytes(pad) for r in range(hh))
            row += pad
        return {"fields": fs, "step": step, "w": w, "h": hh, "row": row, "n": n, "data": data, "full": full, "keys": key0, "pos": bool(posres)}
    for _ in range(12000 if THOROUGH else 2500):
        cases.append(cloud(rng.choice([0, 1, 2, 3, 4, 6, 9, 20, 60]), rng.random() < 0.5))
    for _ in range(30 if THOROUGH else 6):
        cases.append(cloud(rng.choice([700, 1500, 2500]), rng.random() < 0.5))
    ops = [("viz", {"d": k["full"].hex(), "w": k["w"], "h": k["h"], "step": k["step"], "row": k["row"], "dense": rng.randrange(2), "fields": ";".join(f.s() for f in k["fields"]), "times": rng.choice([1, 1, 1, 2, 3])}) for k in cases]
    res = run_ops(exe, ops)
    tla = []
    for k, r in zip(cases, res):
        t = {"fields": [{"off": f.off, "t": f.type, "res": "-" if f.res is None else "%08x" % f32bits(f.res)} for f in k["fields"]], "step": k["step"], "w": k["w"], "h": k["h"], "row": k["row"], "pos": k["pos"],
             "pts": [{"v": v, "b": k["data"][i * k["step"]:(i + 1) * k["step"]].hex()} for i, v in enumerate(k["keys"])], "real": "ok" if r.get("ok") else str(r.get("what", r.get("ex"))),
             "got": {"w": -1, "h": 0, "row": 0, "n": 0, "pts": [], "res": [], "same": False}}
        if r.get("ok"):
            ms, fl = r["msg"].split("|", 1)
            p = ms.split(",")
            out = bytes.fromhex(r["out"])
            t["got"] = {"w": int(p[4]), "h": int(p[3]), "row": int(p[6]), "n": len(out), "pts": [out[a:a + k["step"]].hex() for a in range(0, len(out), k["step"])] if k["step"] else [],
                        "res": ["-" if f.res is None else "%08x" % f32bits(f.res) for f in parse_info("0,0,0,0,0,0,0,|" + fl).fields], "same": out == k["full"]}
        tla.append(t)
    verd, st = judge("Viz", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    TX = {"Accepted": "preprocessing failed", "Resolution": "the resolution of a field is not the specified one", "Touched": "a cloud without such a triple was changed", "Dimensions": "width, height, row step or size do not describe the surviving points",
          "Survivors": "the surviving points are not the first of every voxel, in order"}
    kept = drop = 0
    for v, t, k, (_, a) in zip(verd, tla, cases, ops):
        kept += v[1]
        drop += k["n"] - v[1]
        if v[0] != "ok":
            chk.violation("%s (%s): %d points, step %d, %d should remain, fields %s" % (TX[v[0]], t["real"], k["n"], k["step"], v[1], t["fields"]), a)
    chk.count("clouds", len(tla))
    chk.count("clouds_untouched", sum(1 for t, k in zip(tla, cases) if t["got"]["same"] and k["n"]))
    chk.count("points_kept", kept)
    chk.count("points_dropped", drop)
    chk.sample({"fields": tla[0]["fields"], "points": tla[0]["pts"][:3]})


# ---------------------------------------------------------------- C18
def c18(chk):
    exe = build_rosdrv()
    scripts = []

    def collect(r):
        for t in tlc_tags(r, "S"):
            s = t[1].replace('\\"', '"')
            ops = [[(x.strip().strip('"') if '"' in x else int(x)) for x in m.split(",")] for m in re.findall(r"<<([^<>]+)>>", s)]
            scripts.append(ops)
        chk.add_stats({"states": r.states, "transitions": r.generated})
    r = tlc("OwnViewGen", env={"OWN_N": "2", "OWN_LEN": "5" if THOROUGH else "4"})
    if r.violated:
        raise CheckError("OwnViewGen: a view is not valid in the model")
    collect(r)
    for n, ln, num in ((2, 7, 4000), (3, 8, 6000), (3, 10, 3000)):
        r = tlc("OwnViewGen", env={"OWN_N": str(n), "OWN_LEN": str(ln)}, simulate="num=%d" % (num * (8 if THOROUGH else 1)), extra=["-depth", str(ln + 2), "-seed", str(SEED)], workers=1)
        collect(r)
    seen, uniq = set(), []
    for s in scripts:
        k = json.dumps(s)
        if k not in seen:
            seen.add(k)
            uniq.append(s)

    def tok(o):
        if o[0] in "OR":
            return "%s.%d.%d.%d" % (o[0], o[1] - 1, o[4], 0 if o[3] == "e" else 4)
        if o[0] in "XV":
            return "%s.%d.%s" % (o[0], o[1] - 1, o[3][1:])
        return "%s.%d" % (o[0], o[1] - 1) + (".%d" % (o[2] - 1) if o[2] else "")
    ops = [("own", {"ops": ";".join(tok(o) for o in s)}) for s in uniq]
    res = run_ops(exe, ops)
    tla = []
    for s, r in zip(uniq, res):
        obs = []
        if r.get("ok"):
            for o in r["obs"].split(";"):
                obs.append([["-", -1] if x == "-" else [x.split(":")[0], int(x.split(":")[1])] for x in o.split(",")])
        tla.append({"ops": s, "obs": obs, "real": "ok" if r.get("ok") else str(r.get("what", r.get("ex")))})
    verd, st = judge("OwnViewTrace", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    TX = {"View": "a message views something else than specified", "Members": "a member was not carried over", "Accepted": "the operations failed"}
    for v, t, (_, a) in zip(verd, tla, ops):
        if v[0] != "ok":
            k = v[1]
            chk.violation("%s after operation %d of %s: %s" % (TX[v[0]], k, a["ops"], t["obs"][k - 1] if t["obs"] else t["real"]), a)
    chk.count("histories", len(tla))
    chk.count("operations", sum(len(t["ops"]) for t in tla))
    chk.sample(ops[0][1]["ops"])
    chk.sample(ops[-1][1]["ops"])
