"""C22 the plugins of point_cloud_transport, C24 the topic converter."""
import hashlib
from rosmsg import *


def f64hex(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def f32hex(x):
    return "%08x" % f32bits(f32(x))


def with_big(raw, m, big):
    return big_endian(raw, m) if big else raw


def strOf(h):
    return bytes.fromhex(h).decode("latin1")


def meta_of(s):
    p = s.split(";")
    w, h, st = map(int, p[0].split(","))
    return {"w": w, "h": h, "step": st, "fields": [[x.split(":")[0], int(x.split(":")[1]), int(x.split(":")[2])] for x in p[1:]]}


NOMETA = {"w": 0, "h": 0, "step": 0, "fields": []}


def pay_of(s):
    if s == "-":
        return NOMETA, []
    i = parse_info(s)
    return ({"w": i.w, "h": i.h, "step": i.step, "fields": [[(f.name if isinstance(f.name, bytes) else f.name.encode()).hex(), f.off, f.type] for f in i.fields]},
            ["-" if f.res is None else "%08x" % f32bits(f.res) for f in i.fields])


RESOLUTIONS = [0.001, 0.001, 0.01, 0.1, 1.0, 0.5, 0.0005, 0.02, 2.5, 0.003]


def compress_args(it, pre=0):
    info, m, full, data, prof, default = it
    return {"d": write_msg(m, full)[0].hex(), "prof": prof_str(prof), "def": "" if default is None else "%08x" % f32bits(default), "enc": info.enc, "comp": info.comp, "ver": info.ver, "thr": int(info.thr), "pre": pre}


def changes(rng, it):
    """-> change, contradictory?, soft?"""
    info, m = it[0], it[1]
    k = rng.randrange(24)
    nf = len(m["fields"])
    j = rng.randrange(nf)
    if k < 7:
        return "", False
    if k < 10:
        return rng.choice(["frame=%s" % rng.randbytes(rng.randint(0, 9)).hex(), "sec=77", "dense=%d" % (1 - m["dense"]), "row=%d" % rng.choice([0, 5, 1 << 31]), "big=1", "fmt=%s" % b"other".hex(), "fcnt=%d.%d" % (j, 1)]), False
    n = m["fields"][j]
    opts = ["w=%d" % (m["w"] + rng.choice([1, 2, 1 << 20])),
            "h=%d" % (m["h"] + 1), "step=%d" % (info.step + rng.choice([1, 4, -1]) if info.step > 1 else info.step + 1), "fdel=%d" % j, "fadd", "fname=%d.%s" % (j, (n[0] + b"q").hex()), "fname=%d." % j if n[0] else "fname=%d.71" % j,
            "foff=%d.%d" % (j, n[1] + rng.choice([1, 4])), "ftyp=%d.%d" % (j, n[2] % 10 + 1), "ftyp=%d.0" % j, "fname=%d.%s" % (j, n[0][:-1].hex()) if n[0] else "h=%d" % (m["h"] + 3), "cut=%d" % rng.randrange(1 << 20)]
    if m["w"] > 1:
        opts += ["w=%d;h=%d" % (m["h"], m["w"]) if m["w"] != m["h"] else "w=%d" % (m["w"] - 1), "w=%d" % (m["w"] - 1)]
    if m["h"] > 1:
        opts += ["h=%d" % (m["h"] - 1), "w=%d;h=1" % (m["w"] * m["h"])]
    if m["w"] % 2 == 0 and m["w"]:
        opts += ["w=%d;h=%d" % (m["w"] // 2, m["h"] * 2)]
    if nf > 1:
        a, b = rng.sample(range(nf), 2)
        opts += ["fswap=%d.%d" % (a, b)] * (m["fields"][a][:3] != m["fields"][b][:3])
        opts += ["fdel=%d" % (nf - 1), "fdel=0", "ftyp=%d.%d" % (nf - 1, m["fields"][-1][2] % 10 + 1), "foff=%d.%d" % (nf - 1, m["fields"][-1][1] + 1)]
    return rng.choice(opts), True


def plugin_history(rng, length, big=None, foreign=()):
    """-> steps for the driver, and what they are about"""
    steps, about = [], []
    items = []
    res = None

    def add(s, **k):
        steps.append(s)
        about.append(k)

    def declare():
        nonlocal res
        over = rng.choice(RESOLUTIONS) if rng.random() < 0.5 else None
        add("decl:" + ("-" if over is None else f64hex(over)), k="decl", over=over)
        res = 0.001 if over is None else over  # the default is compared with what was declared
    declare()
    while len(steps) < length:
        x = rng.random()
        if x < 0.12:
            ps = []
            if rng.random() < 0.8:
                ps.append(("cloudini_resolution", rng.choice(RESOLUTIONS)))
            if rng.random() < 0.4:
                ps.insert(rng.randint(0, len(ps)), (rng.choice(["other", "resolution", "threads"]), rng.choice(RESOLUTIONS)))
            if not ps:
                continue
            add("set:" + ";".join("%s,%s" % (n.encode().hex(), f64hex(v)) for n, v in ps), k="set", ps=ps)
            for n, v in ps:
                if n == "cloudini_resolution":
                    res = v
        elif x < 0.16:
            add("newsub", k="newsub")
        elif x < 0.19:
            add("newpub", k="newpub")
            declare()
        elif x < 0.25 and foreign:
            it, comp = foreign.take()
            items.append((it, 0))
            add("ext:" + comp, k="ext", it=it, be=0, res=0.0)
        elif x < 0.5 or not items:
            ser = rng.random() < 0.3
            r = rng.choice(RESOLUTIONS) if ser else res
            it = None
            if items and not big and rng.random() < 0.4 and not items[-1][0][4]:
                o = items[-1][0]
                it = sibling(rng, (o[0].copy(enc=LOSSY, comp=ZSTD, ver=5, thr=True),) + o[1:5] + (f32(r),), fixed=True)
            it = it or message(rng, n=big, prof={}, default=f32(r), enc=LOSSY, comp=ZSTD)
            be = int(rng.random() < 0.06 and it[0].n > 0)
            raw, at = write_msg(it[1], it[2])
            items.append((it, be))
            add("%s:%s,%s,%d" % ("ser" if ser else "pub", with_big(raw, it[1], be).hex(), f32hex(r), rng.choice([0, 3, 4000])), k="ser" if ser else "pub", it=it, be=be, res=r, raw=(raw, at))
        elif x < 0.9:
            q = rng.choice([len(items) - 1, rng.randrange(len(items))])
            if items[q][1]:
                continue
            ch, hard = changes(rng, items[q][0])
            add("recv:%d,%s" % (q, ch), k="recv", src=q, ch=ch, hard=hard)
        elif x < 0.95:
            q = rng.randrange(len(items))
            if items[q][1]:
                continue
            f = rng.choice(["cloudini"] * 4 + ["draco", "", "Cloudini", "cloudini "])
            add("rei:%d,fmt=%s" % (q, f.encode().hex()), k="rei", src=q, fmt=f)
        else:
            it = message(rng)
            raw, at = write_msg(it[1], it[2])
            be = int(rng.random() < 0.2)
            add("conv:" + with_big(raw, it[1], be).hex(), k="conv", it=it, be=be)
    return steps, about


PLUGTX = {"Declared": "the configured resolution is not used", "Set": "a parameter change is refused", "BigEndian": "a big-endian cloud was published as if it were little-endian", "Published": "a well-formed cloud is not published", "Touched": "the published cloud was modified",
          "Announced": "the message announces another cloud than the published one", "Payload": "the payload describes another cloud than the published one", "Resolution": "the payload is not encoded with the resolution in force",
          "Contradiction": "a message that contradicts its payload was delivered", "Delivered": "a published cloud is not delivered", "Repeated": "the same message was delivered differently", "Format": "the encoding of a message of another format (or without payload) was read",
          "Info": "ReadEncodingInfo does not tell the encoding of the payload", "Converted": "ConvertToRosPointCloud2 does not carry the cloud over"}


def c22(chk):
    exe = build_nodedrv()
    rng = chk.rng
    foreign = []
    fi = [message(rng) for _ in range(600 if THOROUGH else 120)]
    fi = [it for it in with_siblings(rng, [it for it in fi if not it[4]], 0.5) if not it[4]]
    for it, r in zip(fi, run_ops(exe, [("compress", compress_args(it)) for it in fi])):
        if r.get("ok"):
            foreign.append((it, r["out"]))
    foreign = Near(rng, foreign)
    hists = [plugin_history(rng, rng.randint(4, 40), foreign=foreign) for _ in range(1500 if THOROUGH else 260)]
    hists += [plugin_history(rng, 5, big=n) for n in ([32767, 32768, 32769, 70000, 98304] if THOROUGH else [32769, 65536])]
    ops = [("plug", {"steps": "|".join(s)}) for s, _ in hists]
    res = run_ops(exe, ops, timeout=60)
    cases, weigh = [], []
    for (steps, about), r, (_, a) in zip(hists, res, ops):
        if not r.get("ok"):
            chk.violation("plugins: %s" % r.get("what", r.get("ex")), a)
            continue
        ans = r["steps"].split("|")
        evs, pubs = [], []
        for k, x in zip(about, ans):
            p = x.split(",")
            ok = int(p[0] == "ok")
            e = {"k": k["k"], "ok": ok}
            if k["k"] == "decl":
                e["over"] = "-" if k["over"] is None else f32hex(k["over"])
                e["got"] = p[1] if ok else "-"
                want = "cloudini/cloudini,point_cloud_interfaces/msg/CompressedPointCloud2,point_cloud_interfaces/msg/CompressedPointCloud2"
                if ok and (",".join(p[2:]) != want or k["over"] is None and p[1] != f32hex(0.001)):
                    e["ok"] = 0
            elif k["k"] == "set":
                e["ps"] = [[n, f32hex(v)] for n, v in k["ps"]]
            elif k["k"] in ("pub", "ser", "ext"):
                it = k["it"]
                m = it[1]
                e.update(msg={"w": m["w"], "h": m["h"], "step": m["step"], "fields": [[n.hex(), o, t] for n, o, t, _ in m["fields"]]}, n=len(it[2]), big=k["be"], same=0, out=NOMETA, pay=NOMETA, res=[], size=0)
                e["with"] = f32hex(k["res"])
                pub = {"about": k, "comp": None}
                if ok:
                    e["same"] = int(p[2])
                    mt = ",".join(p[3:-2])
                    e["out"] = meta_of(mt)
                    e["pay"], e["res"] = pay_of(strOf(p[-2]))
                    pub["comp"], pub["info"] = p[1], strOf(p[-1])
                    e["size"] = size_of_payload(bytes.fromhex(p[1]), m)
                pubs.append(pub)
            elif k["k"] == "recv":
                b = pubs[k["src"]]
                at = 2 if ok else 1
                if ok:
                    e["digest"] = hashlib.sha256(p[1].encode()).hexdigest()[:16]
                else:
                    e["digest"] = ""
                    at = 2
                e["meta"] = meta_of(strOf(p[at]))
                e["size"] = int(p[at + 1])
                e["src"] = k["src"] + 1
                e["soft"] = k["ch"].split("=")[0] in ("frame", "sec", "dense")
                if ok and b["comp"] and k["ch"] == "" or ok and b["comp"] and k["ch"].startswith("dense"):
                    weigh.append((b, k, p[1], a))
            elif k["k"] == "rei":
                e.update(src=k["src"] + 1, fmt=k["fmt"], info=NOMETA, res=[])
                if ok:
                    e["info"], e["res"] = pay_of(strOf(p[1]))
            elif k["k"] == "conv":
                m = k["it"][1]
                want = "%d,%d,%s,%d,%d,%d,%d,%d,%d,0" % (int.from_bytes(m["sec"], "little", signed=True), int.from_bytes(m["nsec"], "little"), m["frame"].hex(), m["h"], m["w"], m["step"], m["row"], m["dense"], len(k["it"][2]))
                want += "|" + ";".join("%s:%d:%d:-" % (n.hex(), o, t) for n, o, t, _ in m["fields"]) + "/%d/1" % k["be"]
                e["msg"] = want
                e["got"] = strOf(p[1]) + "/%s/%s" % (p[2], p[3]) if ok else ""
            evs.append(e)
        cases.append((evs, a))
    verd, st = judge("Plugin", [c for c, _ in cases])
    chk.add_stats(st)
    chk.traces(len(cases))
    for v, (evs, a) in zip(verd, cases):
        if v[0] != "ok":
            e = evs[v[1] - 1]
            chk.violation("%s: event %d, %s of %s" % (PLUGTX[v[0]], v[1], e["k"], json.dumps({q: e[q] for q in e if q not in ("k",)})[:300]), {"steps": a["steps"][:20000], "event": v[1]})
    # what is delivered
    items, raws, cres, rres, args = [], [], [], [], []
    for b, k, out, a in weigh:
        it = b["about"]["it"]
        m = dict(it[1], anypay=int(b["about"]["k"] == "pub"))
        comp = b["comp"]
        if k["ch"].startswith("dense"):
            d = int(k["ch"][6:])
            m["dense"] = d
            comp = set_dense(comp, it[1], d)
        it = (it[0], m) + it[2:]
        items.append(it)
        raws.append(write_msg(m, it[2]))
        if b["about"]["k"] == "ext":
            di = Info(it[0].fields, m["step"], m["w"], m["h"], 5, LOSSY, ZSTD).s()
        else:
            di = b["info"]
        cres.append({"ok": True, "out": comp, "definfo": di, "info": di})
        rres.append({"ok": True, "out": out})
        args.append({"steps": a["steps"][:4000]})
    outs = weigh_messages(exe, rng, items, raws, cres, rres, args)
    judge_messages(chk, items, outs, "plugin")
    judge_rt(chk, [(it[0], it[3]) for it, o in zip(items, outs) if o[0]], [(o[1], o[2], o[3]) for o in outs if o[0]], "plugin", {"Exact", "HalfStep", "NaNKept"})
    # fields of several elements
    for cnt in (2, 3):
        info = Info([Field(b"x", 0, F32), Field(b"rgb", 4, U8)], 4 + cnt, 2, 1, 5, LOSSY, ZSTD)
        data = bytes(range(1, 2 * info.step + 1))
        m = {"sec": bytes(4), "nsec": bytes(4), "frame": b"map", "h": 1, "w": 2, "fields": [(b"x", 0, F32, 1), (b"rgb", 4, U8, cnt)], "step": info.step, "row": 2 * info.step, "dense": 1}
        raw, at = write_msg(m, data)
        r = run_ops(exe, [("plug", {"steps": "decl:-|pub:%s,%s,0|recv:0," % (raw.hex(), f32hex(0.001))})])[0]
        p = r["steps"].split("|")[2].split(",") if r.get("ok") else ["threw"]
        if p[0] == "ok":
            got = bytes.fromhex(p[1])[at + 4:at + 4 + len(data)]
            if any(got[j * info.step + 4:(j + 1) * info.step] != data[j * info.step + 4:(j + 1) * info.step] for j in range(2)):
                chk.violation("field with count > 1: elements after the first are lost", {"in": data.hex(), "out": got.hex()})
    chk.count("histories", len(cases))
    chk.count("events", sum(len(c) for c, _ in cases))
    chk.count("contradictions", sum(1 for c, _ in cases for e in c if e["k"] == "recv" and not e["ok"]))
    chk.count("delivered", len(items))
    chk.sample([{q: e[q] for q in e if q not in ("msg", "out", "pay", "meta")} for e in cases[0][0]][:6])


def size_of_payload(comp, m):
    pre, pat = write_msg(dict(m, row=m["w"] * m["step"]), b"")
    return int.from_bytes(comp[pat:pat + 4], "little")


def set_dense(comp, m, d):
    b = bytearray.fromhex(comp)
    pre, pat = write_msg(dict(m, row=m["w"] * m["step"]), b"")
    b[pat + 4 + size_of_payload(b, m)] = d
    return bytes(b).hex()


# ---------------------------------------------------------------- C24
NODETX = {"NoInput": "a node without input topic was made", "Made": "the node cannot be made", "Topics": "the node subscribes or publishes with another topic, type or quality of service than specified", "Died": "an exception leaves the callback of the node",
          "Touched": "the received message was modified", "Idle": "something is published although nobody listens", "Published": "a convertible message is not published exactly once", "Malformed": "a malformed message is not reported, or something is published for it"}


def node_case(rng, foreign, n, big=None):
    """-> args, cfg, eps, events"""
    z = rng.randrange(2)
    res = rng.choice(RESOLUTIONS) if rng.random() < 0.7 else None
    tin = rng.choice(["/points", "/lidar/front", "a", "/points"]) if rng.random() < 0.97 else ""
    tout = rng.choice(["", "/out", "x/y"])
    eps = [(rng.randrange(2), rng.randrange(2)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.4:
        eps = [(rng.randrange(2), 1) if rng.random() < 0.5 else (1, b) for _, b in eps]
    args = {"compressing": "-" if z and rng.random() < 0.3 else z, "in": "-" if tin == "/points" and rng.random() < 0.5 else tin.encode().hex(), "outt": "-" if not tout and rng.random() < 0.5 else tout.encode().hex(),
            "res": "-" if res is None else f64hex(res), "stats": rng.choice(["-", "0", "1"]), "eps": ",".join("br"[a] + "vt"[b] for a, b in eps)}
    evs, steps = [], []
    last = None
    for _ in range(n):
        x = rng.random()
        if x < 0.06:
            l = rng.choice([0, 1, 2])
            steps.append("listeners:%d" % l)
            evs.append({"k": "listeners", "n": l})
        elif x < 0.09:
            l = rng.randrange(2)
            steps.append("stats:%d" % l)
            evs.append({"k": "stats", "n": l})
        else:
            if z:
                it = last and not big and rng.random() < 0.4 and sibling(rng, last, fixed=True)
                it = last = it or message(rng, n=big, prof={}, default=f32(0.001 if res is None else res), enc=LOSSY, comp=ZSTD)
                raw, at = write_msg(it[1], it[2])
                comp = None
                d = raw
                dense_at = len(d) - 1
                if it[0].n and rng.random() < 0.04:
                    evs.append({"k": "msg", "good": 0})
                    steps.append("msg:" + big_endian(raw, it[1]).hex())
                    continue
            else:
                it, comp = foreign.take()
                raw, at = write_msg(it[1], it[2])
                d = bytes.fromhex(comp)
                pre, pat = write_msg(dict(it[1], row=it[1]["w"] * it[1]["step"]), b"")
                dense_at = pat + 4 + size_of_payload(d, it[1])
            if x > 0.85:
                k = rng.randrange(4)
                if k == 0:
                    d = d[:rng.choice([0, 1, 3, 4, 8])]
                elif k == 1 or z or dense_at - pat < 12:
                    d = d[:rng.randrange(dense_at + 1)]
                else:  # the payload is not one
                    b = bytearray(d)
                    b[pat + 4 + rng.randrange(8)] ^= 0x55
                    d = bytes(b)
                evs.append({"k": "msg", "good": 0})
            else:
                evs.append({"k": "msg", "good": 1, "it": it, "raw": (raw, at), "comp": comp})
            steps.append("msg:" + d.hex())
    args["steps"] = "|".join(steps)
    return args, {"compressing": z, "in": tin, "out": tout}, eps, evs


def c24(chk):
    exe = build_nodedrv()
    rng = chk.rng
    fi = [message(rng) for _ in range(1000 if THOROUGH else 250)]
    fi = [it for it in with_siblings(rng, [it for it in fi if not it[4]], 0.5) if not it[4]]
    foreign = [(it, r["out"]) for it, r in zip(fi, run_ops(exe, [("compress", compress_args(it)) for it in fi])) if r.get("ok")]
    foreign = Near(rng, foreign)
    runs = [node_case(rng, foreign, rng.randint(1, 30)) for _ in range(2000 if THOROUGH else 300)]
    for combo in itertools.product([(0, 0), (0, 1), (1, 0), (1, 1)], repeat=2):  # all pairs of offers
        r = node_case(rng, foreign, 1)
        r[0]["eps"] = ",".join("br"[a] + "vt"[b] for a, b in combo)
        runs.append((r[0], r[1], list(combo), r[3]))
    for n in ([32767, 32769, 70000] if THOROUGH else [32769]):
        runs.append(node_case(rng, foreign, 3, big=n))
    res = run_ops(exe, [("node", a) for a, _, _, _ in runs], timeout=60)
    cases, weigh = [], []
    for (a, cfg, eps, evs), r in zip(runs, res):
        if not r.get("ok"):
            chk.violation("topic converter: %s" % r.get("what", r.get("ex")), a)
            continue
        k = {"cfg": cfg, "eps": [list(e) for e in eps], "threw": int(r["made"] == "threw"), "made": {"in": "", "intype": "", "inqos": [], "out": "", "outtype": "", "outqos": []}, "ev": []}
        if r["made"] not in ("threw", "none"):
            p = r["made"].split(",")
            q = lambda s: [int(s[-2] == "r"), int(s[-1] == "t")]
            k["made"] = {"in": strOf(p[0]), "intype": p[1], "inqos": q(p[2]), "out": strOf(p[3]), "outtype": p[4], "outqos": q(p[5])}
            ans = r["steps"].split("|")
        else:
            ans = ["threw,0,0,1,"] * len(evs)
        for e, x in zip(evs, ans):
            if e["k"] != "msg":
                k["ev"].append(e)
                continue
            p = x.split(",")
            k["ev"].append({"k": "msg", "good": e["good"], "threw": int(p[0] == "threw"), "sent": int(p[1]), "said": int(p[2]), "same": int(p[3])})
            if e["good"] and p[1] == "1":
                weigh.append((e, p[4], cfg, a))
        cases.append((k, a))
    verd, st = judge("Node", [c for c, _ in cases])
    chk.add_stats(st)
    chk.traces(len(cases))
    for v, (k, a) in zip(verd, cases):
        if v[0] != "ok":
            chk.violation("%s: event %d %s; %s, offers %s, made %s" % (NODETX[v[0]], v[1], k["ev"][v[1] - 1] if v[1] else "", k["cfg"], k["eps"], k["made"]), dict(a, steps=a["steps"][:20000]))
    fwd = [x for x in weigh if x[2]["compressing"]]
    back = run_ops(exe, [("restore", {"d": x[1]}) for x in fwd], timeout=60)
    back = {id(x): r for x, r in zip(fwd, back)}
    items, raws, cres, rres, args = [], [], [], [], []
    for x in weigh:
        e, out, cfg, a = x
        it = e["it"]
        items.append(it)
        raws.append(e["raw"])
        di = Info(it[0].fields, it[1]["step"], it[1]["w"], it[1]["h"], 5, LOSSY, ZSTD).s()
        cres.append({"ok": True, "out": out if cfg["compressing"] else e["comp"], "definfo": di, "info": di})
        rres.append(back[id(x)] if cfg["compressing"] else {"ok": True, "out": out})
        args.append(dict(a, steps=a["steps"][:3000]))
    outs = weigh_messages(exe, rng, items, raws, cres, rres, args)
    judge_messages(chk, items, outs, "topic converter")
    judge_rt(chk, [(it[0], it[3]) for it, o in zip(items, outs) if o[0]], [(o[1], o[2], o[3]) for o in outs if o[0]], "topic converter", {"Exact", "HalfStep", "NaNKept"})
    chk.count("histories", len(cases))
    chk.count("messages", sum(1 for k, _ in cases for e in k["ev"] if e["k"] == "msg"))
    chk.count("malformed", sum(1 for k, _ in cases for e in k["ev"] if e["k"] == "msg" and not e["good"]))
    chk.count("published", len(items))
    chk.sample(cases[0][0])
