"""C21: conversion of bags, against a stand-in for the mcap library."""
import ctypes, shutil, tempfile
from rosmsg import *

RAWT, COMPT = "sensor_msgs/msg/PointCloud2", "point_cloud_interfaces/msg/CompressedPointCloud2"
strtof = ctypes.CDLL(None).strtof
strtof.restype = ctypes.c_float
strtof.argtypes = [ctypes.c_char_p, ctypes.c_void_p]


# ---------------------------------------------------------------- the file format of the stand-in
def _s(b):
    b = b if isinstance(b, bytes) else b.encode()
    return u32(len(b)) + b


def _m(d):
    return u32(len(d)) + b"".join(_s(k) + _s(v) for k, v in d.items())


def write_bag(path, bag, rng):
    """bag: prof, sch [(id, name, enc, data)], ch [(id, topic, menc, schema id, meta)], msgs [(ch id, seq, log, pub, data)], meta [(name, entries)]"""
    recs = [(b"S", n.to_bytes(2, "little") + _s(a) + _s(e) + _s(d)) for n, a, e, d in bag["sch"]]
    recs += [(b"C", n.to_bytes(2, "little") + _s(t) + _s(e) + s.to_bytes(2, "little") + _m(m)) for n, t, e, s, m in bag["ch"]]
    rng.shuffle(recs)
    body = [(b"M", c.to_bytes(2, "little") + u32(q) + l.to_bytes(8, "little") + p.to_bytes(8, "little") + _s(d)) for c, q, l, p, d in bag["msgs"]]
    for n, m in bag["meta"]:
        body.insert(rng.randint(0, len(body)), (b"D", _s(n) + _m(m)))
    with open(path, "wb") as f:
        f.write(b"BAG1" + b"".join(k + _s(b) for k, b in [(b"H", _s(bag["prof"]) + _s("x"))] + recs + body))


def read_bag(path):
    b = open(path, "rb").read()
    if b[:4] != b"BAG1":
        return None
    bag = {"prof": b"", "comp": b"", "sch": [], "ch": [], "msgs": [], "meta": []}
    at = 4

    def num(n):
        nonlocal at
        x = int.from_bytes(b[at:at + n], "little")
        at += n
        return x

    def st():
        nonlocal at
        n = num(4)
        at += n
        return b[at - n:at]

    def mp():
        return {st(): st() for _ in range(num(4))}
    while at < len(b):
        k = b[at:at + 1]
        at += 1
        num(4)
        if k == b"H":
            bag["prof"], bag["comp"] = st(), st()
        elif k == b"S":
            bag["sch"].append((num(2), st(), st(), st()))
        elif k == b"C":
            bag["ch"].append((num(2), st(), st(), num(2), mp()))
        elif k == b"M":
            bag["msgs"].append((num(2), num(4), num(8), num(8), st()))
        elif k == b"D":
            bag["meta"].append((st(), mp()))
    return bag


# ---------------------------------------------------------------- message definitions, without comments
def norm_def(text):
    out = []
    for ln in text.split(b"\n"):
        ln = b" ".join(ln.split(b"#")[0].split())
        if ln:
            out.append(b"=" if set(ln) == {61} else ln)
    return b"\n".join(out)


HDR = b"=\nMSG: std_msgs/Header\nbuiltin_interfaces/Time stamp\nstring frame_id\n=\nMSG: builtin_interfaces/Time\nint32 sec\nuint32 nanosec"
PF = b"=\nMSG: sensor_msgs/PointField\n" + b"\n".join(b"uint8 %s = %d" % (n, i) for i, n in enumerate([b"INT8", b"UINT8", b"INT16", b"UINT16", b"INT32", b"UINT32", b"FLOAT32", b"FLOAT64"], 1)) + b"\nstring name\nuint32 offset\nuint8 datatype\nuint32 count\n"
RAWDEF = b"std_msgs/Header header\nuint32 height\nuint32 width\nPointField[] fields\nbool is_bigendian\nuint32 point_step\nuint32 row_step\nuint8[] data\nbool is_dense\n" + PF + HDR
COMPDEF = b"std_msgs/Header header\nuint32 height\nuint32 width\nsensor_msgs/PointField[] fields\nbool is_bigendian\nuint32 point_step\nuint32 row_step\nuint8[] compressed_data\nbool is_dense\nstring format\n" + PF + HDR


# ---------------------------------------------------------------- profiles as text
def num_text(rng):
    x = rng.choice(["0.001", "0.01", "0.1", "1", "1.0", "0.5", "7", "0", "0.0", "5.", ".5", "1e-3", "2.5E-2", "1e+1", "00.10", "12345.678", "0.000001"])
    return x if rng.random() < 0.8 else "%.*f" % (rng.randint(0, 7), rng.random() * rng.choice([1, 10, 1000]))


def spaced(rng, s):
    sp = lambda: rng.choice(["", "", "", " ", "  ", "\t", "\n", " \r\n"])
    return sp() + s + sp()


NAMES_ = ["x", "y", "z", "xyz", "intensity", "ring", "timestamp", "t", "a b", "remove", "XYZ", "xy"]


def profile_text(rng, bad):
    es = [spaced(rng, rng.choice(NAMES_)) + ":" + spaced(rng, "remove" if rng.random() < 0.25 else num_text(rng)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if bad:
        j = rng.randrange(len(es))
        es[j] = rng.choice(["", " ", "x", "x 0.1", "x:0.1:0.2", "x:", "x: ", "x:0.1abc", "x:1e", "x:0..1", "x:0.1.2", "x:.", "x:abc", "x:-0.1", "x:-1", "x:nan", "x:inf", "x:0,1", "x:removed", "x:Remove", "x:1 2", "x:0.1m", "x:re move",
                            "x:1e99", "::", ":", "x:0.1 y:0.2", "x::0.1", "x:+", "x:e5", "x:1e5.5", "x:0.01mm", "x:infinity", "x:-inf", "x:0.5f", "x:1_000"])
    return ";".join(es)


def parse_numbers(texts):
    out = {}
    for t in texts:
        for e in t.split(";"):
            for p in e.split(":"):
                v = p.strip(" \t\n\r\v\f")
                if re.fullmatch(r"(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v):
                    x = strtof(v.encode(), None)
                    out[v] = "big" if x == float("inf") else "%08x" % f32bits(x)
    return [[list(k.encode()), b] for k, b in out.items()]


def profiles(chk, exe, rng):
    cases, ops = [], []
    for _ in range(12000 if THOROUGH else 2500):
        nt = rng.choice([1, 1, 1, 2, 3])
        texts = [profile_text(rng, rng.random() < 0.25) for _ in range(nt)]
        cases.append(texts)
        ops.append(("bag", {"steps": "|".join("prof:" + t.encode().hex() for t in texts) + "|getprof"}))
    res = run_ops(exe, ops)
    tla = []
    for texts, r in zip(cases, res):
        if not r.get("ok"):
            chk.violation("the profile %r: %s" % (texts, r.get("what", r.get("ex"))), texts)
            r = {"steps": "|".join(["threw;"] + ["ok"] * len(texts))}
        st = r["steps"].split("|")
        real = next((j + 1 for j, s in enumerate(st[:-1]) if s != "ok"), 0)
        got = [e.split(":") for e in st[-1].split(";")[1:]]
        tla.append({"texts": [list(t.encode()) for t in texts], "nums": parse_numbers(texts), "real": real, "got": [[list(bytes.fromhex(n)), v] for n, v in got]})
    verd, s = judge("ProfileText", tla)
    chk.add_stats(s)
    chk.traces(len(tla))
    TX = {"Rejected": "a well-formed profile is rejected", "Accepted": "a malformed profile is accepted", "Profile": "the profile is not the one written"}
    for v, texts, t in zip(verd, cases, tla):
        if v[0] != "ok":
            chk.violation("%s: %r -> %s" % (TX[v[0]], texts, [(bytes(n).decode(), b) for n, b in t["got"]]), texts)
    chk.count("profile_texts", len(tla))
    chk.count("profile_texts_malformed", sum(1 for v in verd if v[1]))


# ---------------------------------------------------------------- bags
CLOUDNAMES = [b"x", b"y", b"z", b"intensity", b"ring", b"i", b"j", b"k"]


def viz_cloud(rng, prof, default, plain):
    """a cloud the visualization preprocessing works on: -> like message()"""
    fs = [Field(b"x", 0, F32), Field(b"y", 4, F32), Field(b"z", 8, F32)]
    step = 12
    for nm, t in [(b"intensity", F32), (b"t", F64), (b"ring", U16)]:
        if rng.random() < 0.5:
            fs.append(Field(nm, step, t))
            step += SIZE[t]
    step += rng.choice([0, 0, 4])
    n = rng.choice([0, 1, 3, 8, 40])
    res = prof.get(b"x", default) or 1.0
    raw = bytearray()
    same = not plain and len({prof.get(k, default) for k in (b"x", b"y", b"z")}) == 1 and (prof.get(b"x", default) or 0) > 0
    for _ in range(n):
        r = bytearray(rng.randbytes(step))
        for f in fs:
            v = {F32: lambda: struct.pack("<f", rng.choice([0, 1, -1, 2, 3]) * res if f.name in (b"x", b"y", b"z") else rng.randint(-100, 100) * 0.25), F64: lambda: struct.pack("<d", rng.randint(0, 1 << 20) / 1024), U16: lambda: u32(rng.randrange(65536))[:2]}[f.type]()
            if f.type == F32 and rng.random() < 0.03:
                v = struct.pack("<f", rng.choice([float("nan"), float("inf")] if same else [float("nan")])) if f.name in (b"x", b"y", b"z") else struct.pack("<f", float("nan"))
            r[f.off:f.off + SIZE[f.type]] = v
        raw += r
    m = {"sec": rng.randbytes(4), "nsec": bytes(4), "frame": rng.choice([b"map", b"lidar"]), "h": 1, "w": n, "fields": [(f.name, f.off, f.type, 1) for f in fs], "step": step, "row": n * step, "dense": rng.randrange(2)}
    return Info(effective(fs, prof, default), step, n, 1, 5, LOSSY, ZSTD, True), m, bytes(raw), bytes(raw), prof, default


def rand_bag(rng, nmsg, cloud, viz):
    """-> bag, {position of message: item}"""
    nid = list(range(1, 40))
    rng.shuffle(nid)
    sch = []
    for _ in range(rng.choice([1, 1, 2])):
        sch.append((nid.pop(), RAWT.encode(), b"ros2msg", RAWDEF))
    if rng.random() < 0.5:
        sch.append((nid.pop(), COMPT.encode(), b"ros2msg", COMPDEF))
    for _ in range(rng.choice([0, 1, 2, 3])):
        sch.append((nid.pop(), rng.choice([b"std_msgs/msg/String", b"tf2_msgs/msg/TFMessage", b"sensor_msgs/msg/PointCloud", b"sensor_msgs/msg/PointCloud2 ", b"PointCloud2", b"foo", b""]), rng.choice([b"ros2msg", b"ros2idl", b"jsonschema", b""]),
                    rng.choice([b"string data\n", b"", rng.randbytes(20), RAWDEF])))
    rng.shuffle(sch)
    cid = list(range(0, 60))
    rng.shuffle(cid)
    ch = []
    for k in range(rng.choice([1, 2, 3, 5, 7])):
        s = rng.choice(sch)[0] if rng.random() < 0.88 else 0
        if k == 0:
            s = next(x for x in sch if x[1] == RAWT.encode())[0]
        cloudy = s and next(x for x in sch if x[0] == s)[1].decode("latin1") in (RAWT, COMPT)
        ch.append((cid.pop(), rng.choice([b"/points", b"/lidar/top", b"/tf", b"/imu", b"", b"/a b"]) + (b"" if rng.random() < 0.3 else b"%d" % k), b"cdr" if cloudy else rng.choice([b"cdr", b"json", b""]), s,
                   {} if rng.random() < 0.4 else {b"offered_qos_profiles": rng.randbytes(6), **({b"k": b""} if rng.random() < 0.3 else {})}))
    rng.shuffle(ch)
    by = {s[0]: s for s in sch}
    msgs, items, last = [], {}, None
    t = 1000
    for q in range(nmsg):
        c = rng.choice(ch)
        nm = by[c[3]][1].decode("latin1") if c[3] else ""
        t = rng.choice([t, t + 1, t + rng.randrange(1000), t - rng.randrange(500) if t > 600 else t + 5, (1 << 63) + q if rng.random() < 0.1 else t])
        if nm in (RAWT, COMPT):
            it = last and not viz and nm == RAWT and rng.random() < 0.4 and sibling(rng, last, fixed=True) or cloud(nm == COMPT)
            last = it if nm == RAWT and not it[1].get("odd") else last
            d = write_msg(it[1], it[2])[0]
            items[q] = it
        else:
            d = rng.randbytes(rng.choice([0, 1, 5, 40, 300]))
        msgs.append((c[0], rng.choice([q, 0, rng.randrange(1 << 32)]), t, rng.choice([t, 0, rng.randrange(1 << 64)]), d))
    meta = [(rng.choice([b"rosbag2", b"info", b"a", b"", b"z"]), {rng.choice([b"k", b"", b"v"]): rng.randbytes(4) for _ in range(rng.choice([0, 1, 2]))}) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    return {"prof": rng.choice([b"ros2", b"", b"custom"]), "sch": sch, "ch": ch, "msgs": msgs, "meta": meta}, items


class Interner(dict):
    def __call__(self, b):
        return self.setdefault(b, len(self) + 1)


def bag_tla(bag, ids, order):
    """order: positions of the messages in reading order"""
    spos = {s[0]: j + 1 for j, s in enumerate(bag["sch"])}
    cpos = {c[0]: j + 1 for j, c in enumerate(bag["ch"])}
    hx = lambda b: b.hex()
    txt = lambda b: b.decode("latin1") if b.decode("latin1") in (RAWT, COMPT) else "h" + b.hex()
    return {"prof": hx(bag["prof"]),
            "sch": [{"name": txt(n), "enc": hx(e), "data": ids(norm_def(d) if n.decode("latin1") in (RAWT, COMPT) else b"D" + d)} for _, n, e, d in bag["sch"]],
            "ch": [{"topic": hx(t), "menc": hx(e), "meta": sorted([hx(a), hx(b)] for a, b in m.items()).__repr__(), "sch": spos.get(s, 0) if s else 0} for _, t, e, s, m in bag["ch"]],
            "msgs": [{"ch": cpos.get(c, 0), "seq": str(q), "log": str(l), "pub": str(p), "data": ids(b"M" + d)} for c, q, l, p, d in (bag["msgs"][j] for j in order)],
            "meta": [[hx(n), sorted([hx(a), hx(b)] for a, b in m.items()).__repr__()] for n, m in bag["meta"]]}


def reading_order(bag):
    return sorted(range(len(bag["msgs"])), key=lambda j: bag["msgs"][j][2])


EMPTY = {"prof": b"", "comp": b"", "sch": [], "ch": [], "msgs": [], "meta": []}
CN = {CNONE: b"none", LZ4: b"lz4", ZSTD: b"zstd"}


def bags(chk, exe, rng):
    d = tempfile.mkdtemp(prefix="bags-")
    try:
        runs = []  # (bag, items, prof, default, writer comp, viz, full, paths, step positions)
        ops = []
        todo = [rng.choice([0, 1, 2, 4, 8, 16]) for _ in range(1500 if THOROUGH else 400)] + [400, 1500]
        for b, nmsg in enumerate(todo):
            viz = rng.random() < 0.3 and nmsg < 100
            prof = {}
            for nm in CLOUDNAMES:
                if rng.random() < 0.25:
                    prof[nm] = rng.choice([0.0, 0.001, 0.01, 0.5, 0.25])
            default = rng.choice([None, 0.001, 0.01, 0.25])
            if viz:
                prof = {k: v for k, v in prof.items() if v}
                if rng.random() < 0.8:
                    r = rng.choice([0.25, 0.5, 0.01])
                    prof.update({b"x": r, b"y": r, b"z": r})
            wcomp = rng.choice([CNONE, LZ4, ZSTD, ZSTD])
            cloud = (lambda plain: viz_cloud(rng, prof, default, plain)) if viz else (lambda plain: message(rng, prof=prof, default=default, enc=LOSSY, comp=wcomp, n=rng.choice([0, 1, 2, 5, 20])))
            bag, items = rand_bag(rng, nmsg, cloud, viz)
            # messages that are compressed already
            by = {s[0]: s for s in bag["sch"]}
            chs = {c[0]: c for c in bag["ch"]}
            already = [q for q in items if by[chs[bag["msgs"][q][0]][3]][1].decode() == COMPT]
            p = [os.path.join(d, "%d%s.mcap" % (b, x)) for x in ("in", "enc", "dec", "enc2", "full")]
            text = ";".join("%s:%s" % (n.decode(), "remove" if v == 0 and rng.random() < 0.7 else repr(v)) for n, v in prof.items())
            runs.append([bag, items, already, prof, default, wcomp, viz, p, text])
        # the messages that are compressed already: made by the library
        cops, back = [], []
        for r in runs:
            for q in r[2]:
                cops.append(("compress", {"d": r[0]["msgs"][q][4].hex(), "prof": prof_str(r[3]), "def": "" if r[4] is None else "%08x" % f32bits(r[4]), "enc": LOSSY, "comp": rng.choice([CNONE, LZ4, ZSTD])}))
                back.append((r, q))
        for (r, q), c in zip(back, run_ops(exe, cops)):
            if not c.get("ok"):
                raise Unexpected("a message is not compressed: %s" % c)
            m = r[0]["msgs"][q]
            r[0]["msgs"][q] = m[:4] + (bytes.fromhex(c["out"]),)
            it = r[1][q]
            r[1][q] = (Info(it[0].fields, it[0].step, it[0].w, it[0].h, 5, LOSSY, c and it[0].comp, True),) + it[1:]
        plan = []
        other = None
        for bag, items, already, prof, default, wcomp, viz, p, text in runs:
            write_bag(p[0], bag, rng)
            hp = [x.encode().hex() for x in p]
            dbits = "-" if default is None else "%08x" % f32bits(default)
            full = rng.randint(0, len(bag["msgs"]) + len(bag["meta"]) + 1)
            new = rng.random() < 0.5
            st = []
            if text:
                st += ["prof:" + text.encode().hex()]
            st += ["open:" + hp[0], "enc:%s,%s,%d,%d,-" % (hp[1], dbits, wcomp, viz)]
            if rng.random() < 0.3:
                st += ["enc:%s,%s,%d,%d,%d" % (hp[4], dbits, wcomp, viz, full)]
            if rng.random() < 0.4:  # once more, or after another bag
                if other and rng.random() < 0.6:
                    st += ["open:" + other, "open:" + hp[0]]
                st += ["enc:%s,%s,%d,%d,-" % (hp[3], dbits, wcomp, viz)]
            dcomp = rng.choice([CNONE, LZ4, ZSTD])
            st += (["new"] if new else []) + ["open:" + hp[1], "dec:%s,-,%d,0,-" % (hp[2], dcomp)]
            other = hp[0]
            plan.append((st, full, dcomp))
            ops.append(("bag", {"steps": "|".join(st)}))
        res = run_ops(exe, ops, timeout=60)
        tla, metas = [], []
        conv, cargs, citems, cres, rres, labels = [], [], [], [], [], []
        for (bag, items, already, prof, default, wcomp, viz, p, text), (st, full, dcomp), r in zip(runs, plan, res):
            if not r.get("ok"):
                chk.violation("converting a bag: %s" % r.get("what", r.get("ex")), {"steps": st, "bag": repr(bag)[:5000]})
                continue
            rs = r["steps"].split("|")
            topics = []
            encbag = None
            for s, x in zip(st, rs):
                kind, _, arg = s.partition(":")
                if kind == "prof" and x != "ok":
                    chk.violation("a well-formed profile is rejected: %r" % text, st)
                if kind == "open":
                    topics = [e.split(":") for e in x.split(";")[1:]] if x.startswith("ok") else [["", x]]
                if kind not in ("enc", "dec"):
                    continue
                a = arg.split(",")
                path = bytes.fromhex(a[0]).decode()
                ok = x == "ok"
                src = bag if kind == "enc" else encbag
                if src is None:
                    continue
                out = read_bag(path) if ok and os.path.exists(path) else None
                ids = Interner()
                oa = reading_order(src)
                ob = reading_order(out) if out else []
                tla.append({"enc": int(kind == "enc"), "real": "ok" if out else "failed " + bytes.fromhex(x.split(";")[1]).decode("latin1") if not ok else "ok", "full": int(a[4]) if a[4] != "-" else -1, "a": bag_tla(src, ids, oa),
                            "b": bag_tla(out or EMPTY, ids, ob), "raw": ids(RAWDEF), "cmp": ids(COMPDEF), "topics": [["" if not t else t, bytes.fromhex(n).decode("latin1")] if not n.startswith("threw") else ["?", n] for t, n in topics],
                            "comp": CN[int(a[2])].decode(), "bcomp": (out or {"comp": b""})["comp"].decode()})
                metas.append((st, kind, bag, s))
                if kind == "enc" and a[4] == "-" and out and len(out["msgs"]) == len(bag["msgs"]):
                    if path == p[1]:
                        encbag, pos, epos = out, oa, ob
                if kind == "dec" and out and len(out["msgs"]) == len(bag["msgs"]):
                    # the clouds themselves: the message in the input, the one in the compressed and the one in the restored bag
                    dpos = {q: j for q, j in zip(oa, ob)}
                    for q, j in zip(pos, epos):
                        if q not in items:
                            continue
                        it = items[q]
                        citems.append((it, viz and q not in already))
                        cres.append({"ok": True, "out": encbag["msgs"][j][4].hex(), "definfo": Info([], it[1]["step"], it[1]["w"], it[1]["h"], 5, LOSSY, ZSTD, True).s(), "info": it[0].s()})
                        rres.append({"ok": True, "out": out["msgs"][dpos[j]][4].hex()})
                        cargs.append({"steps": st})
        verd, s = judge("Bag", tla)
        chk.add_stats(s)
        chk.traces(len(tla))
        TX = {"Topics": "the topics with point clouds are not the ones reported", "Unreported": "a failure to write was not reported", "Accepted": "the conversion failed", "Lost": "messages are missing", "Added": "there are more messages than before",
              "Times": "a message has another time or sequence number, or another place", "Channel": "a message is on a channel standing for another one", "ChannelContent": "a channel or its schema is not the converted one", "Data": "a message that is no point cloud to be converted was changed",
              "ChannelLost": "a channel is missing", "ChannelAdded": "there are more channels than before", "Schemas": "the schemas are not the converted ones", "Metadata": "the metadata records are not the original ones", "Profile": "the profile of the bag was changed",
              "Compression": "the bag is not written with the requested compression"}
        for v, t, m in zip(verd, tla, metas):
            chk.count("bags_" + m[1])
            chk.count("bag_messages", len(t["a"]["msgs"]))
            if v[0] != "ok":
                chk.violation("%s: %s (%s), message %s, step %s of %s" % ("compressing a bag" if t["enc"] else "decompressing a bag", TX[v[0]], t["real"], v[1], m[3], m[0]), {"steps": m[0], "bag": repr(m[2])[:20000], "a": t["a"], "b": t["b"]})
        # what the visualization preprocessing leaves of the clouds (see C17)
        vops, vi = [], []
        for j, (it, viz) in enumerate(citems):
            if viz:
                keep = kept_of([f[0] for f in it[1]["fields"]], it[4])
                vops.append(("viz", {"d": it[2].hex(), "w": it[1]["w"], "h": it[1]["h"], "step": it[1]["step"], "row": it[1]["row"], "dense": it[1]["dense"], "fields": ";".join(f.s() for f in it[0].fields)}))
                vi.append(j)
        final = [it for it, _ in citems]
        for j, r in zip(vi, run_ops(exe, vops)):
            if not r.get("ok"):
                raise Unexpected("preprocessing failed: %s" % r)
            info, m, full, data, prof, default = final[j]
            ms, fl = r["msg"].split("|", 1)
            q = ms.split(",")
            w, h, row = int(q[4]), int(q[3]), int(q[6])
            o = bytes.fromhex(r["out"])
            nf = parse_info("0,0,0,0,0,0,0,|" + fl).fields
            final[j] = (Info(nf, info.step, w, h, 5, LOSSY, ZSTD, True), dict(m, w=w, h=h, row=row), o, o, prof, default)
            cres[j]["definfo"] = Info([], info.step, w, h, 5, LOSSY, ZSTD, True).s()
            cres[j]["info"] = final[j][0].s()
        raws = [write_msg(m, full) for _, m, full, _, _, _ in final]
        outs = weigh_messages(exe, rng, final, raws, cres, rres, cargs)
        judge_messages(chk, final, outs, "cloud in a bag")
        judge_rt(chk, [(it[0], it[3]) for it, o in zip(final, outs) if o[0]], [(o[1], o[2], o[3]) for o in outs if o[0]], "cloud in a bag", {"Exact", "HalfStep", "NaNKept"})
        chk.count("clouds_preprocessed", len(vi))
        chk.sample({"steps": plan[0][0], "channels": len(runs[0][0]["ch"]), "messages": len(runs[0][0]["msgs"])})
        chk.sample({"steps": plan[1][0]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c21(chk):
    exe = build_bagdrv()
    rng = chk.rng
    profiles(chk, exe, rng)
    bags(chk, exe, rng)
