"""C20: the C interface against the library calls it stands for."""
from rosmsg import *

MSGFN = ["GetHeaderAsYAMLFromDDS", "ComputeCompressedSize", "GetDecompressedSize", "ConvertCompressedMsgToPointCloud2Msg", "DecodeCompressedMessage", "EncodePointcloudMessage"]
PAYFN = ["GetHeaderAsYAML", "DecodeCompressedData"]


def damage(rng, b):
    """one or two small changes"""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2])):
        if not b:
            return b"\x00"
        k = rng.randrange(6)
        p = rng.choice([rng.randrange(len(b)), rng.randrange(min(len(b), 80))])
        if k == 0:
            b[p] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[p] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)])
        elif k == 2:
            b = b[:rng.randrange(len(b) + 1)]
        elif k == 3:
            b += rng.randbytes(rng.randint(1, 9))
        elif k == 4:
            q = p & ~3
            b[q:q + 4] = rng.choice([0, 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 65536, len(b)]).to_bytes(4, "little")
        else:
            del b[p:p + rng.choice([1, 4])]
    return bytes(b)


def c20(chk):
    exe = build_capidrv()
    ros = build_rosdrv()
    rng = chk.rng
    n = 2500 if THOROUGH else 500
    items = with_siblings(rng, [message(rng) for _ in range(n * 4 // 5)])
    items += [message(rng, n=rng.choice([32768, 32769, 66000]), big=True) for _ in range(6 if THOROUGH else 2)]
    raws = [write_msg(m, full)[0] for _, m, full, _, _, _ in items]
    cops = [("compress", {"d": r.hex(), "prof": prof_str(it[4]), "def": "" if it[5] is None else "%08x" % f32bits(it[5]), "enc": it[0].enc, "comp": it[0].comp, "ver": it[0].ver}) for it, r in zip(items, raws)]
    comps = []
    for (info, m, full, data, prof, d), r in zip(items, run_ops(ros, cops, timeout=60)):
        if not r.get("ok"):
            raise Unexpected("a message is not compressed (see C14): %s" % r.get("what"))
        keep = kept_of([f[0] for f in m["fields"]], prof)
        _, pat = write_msg(dict(m, fields=[m["fields"][j] for j in keep], row=m["w"] * m["step"]), b"")
        c = bytes.fromhex(r["out"])
        comps.append((c, c[pat + 4:pat + 4 + int.from_bytes(c[pat:pat + 4], "little")], pat))
    calls = []

    fam = [0]

    def call(fn, d, res=None, yaml=b""):
        a = {"f": fn, "d": bytes(d).hex()}
        if res is not None:
            a["res"] = "%08x" % f32bits(res)
        if yaml:
            a["yaml"] = yaml.hex()
        calls.append(("capi", a, fam[0], fn))
    for q, (it, raw, (comp, payload, pat)) in enumerate(zip(items, raws, comps)):
        info, m, full, data, prof, _ = it
        fam[0] = q // 4
        big = len(raw) > 200000
        res = rng.choice([0.001, 0.01, 1.0, 0.1, 0.001, 0.01, 1.0, 0.1, 100.0, 0.0, -0.0, -1.0])
        for fn in MSGFN:
            call(fn, raw, res)
            call(fn, comp, res)
        for fn in PAYFN:
            call(fn, payload)
        yaml_info = Info(info.fields, info.step, info.w, info.h, info.ver, info.enc, info.comp)
        calls.append(("yamlfor", (yaml_info, data), fam[0]))
        if big:
            continue
        for _ in range(6 if THOROUGH else 3):
            call(rng.choice(MSGFN), damage(rng, raw), res)
            call(rng.choice(MSGFN), damage(rng, comp), res)
            call(rng.choice(PAYFN), damage(rng, payload))
        # announced sizes that contradict each other
        for _ in range(2):
            keep = kept_of([f[0] for f in m["fields"]], prof)
            mm = dict(m, fields=[m["fields"][j] for j in keep], row=rng.choice([0, m["row"]]))
            mm["w"], mm["h"], mm["step"] = rng.choice([(m["w"] + 1, m["h"], m["step"]), (65536, 65536, rng.choice([1, m["step"]])), (m["w"], m["h"] * 2, m["step"]), (max(0, m["w"] - 1), m["h"], m["step"]), (m["w"], m["h"], m["step"] + 1),
                                                       (m["w"], m["h"], 0), (1 << 31, 2, 1), ((1 << 32) - 1, 1, 1), (4294967295, 4294967295, 4294967295), (1 << 31, 1, 2)])
            for fn in ("ComputeCompressedSize", "GetDecompressedSize", "EncodePointcloudMessage"):
                call(fn, write_msg(mm, rng.choice([full, data, b""]))[0], res)
            cm, at = write_msg(mm, payload)
            for fn in ("GetDecompressedSize", "DecodeCompressedMessage", "ConvertCompressedMsgToPointCloud2Msg"):
                call(fn, cm + b"\0\0\0\x09\0\0\0cloudini\0", res)
    # descriptions as text for EncodePointcloudData
    ys = [c for c in calls if c[0] == "yamlfor"]
    calls = [c for c in calls if c[0] != "yamlfor"]
    ty = run_ops(ros, [("toyaml", {"info": i.s()}) for _, (i, _), _ in ys])
    for (_, (info, data), fam[0]), r in zip(ys, ty):
        y = bytes.fromhex(r["out"])
        call("EncodePointcloudData", data, yaml=y)
        for _ in range(2):
            k = rng.randrange(5)
            if k == 0:
                call("EncodePointcloudData", data[:-1] if data else b"x", yaml=y)
            elif k == 1:
                call("EncodePointcloudData", data + b"x", yaml=y)
            elif k == 2:
                call("EncodePointcloudData", data, yaml=y[:rng.randrange(1, len(y))])
            elif k == 3:
                lines = y.split(b"\n")
                j = rng.randrange(len(lines))
                call("EncodePointcloudData", data, yaml=b"\n".join(lines[:j] + [rng.choice([b"", b"width: 65536", b"height: -1", b"point_step: x", b"  - name: q", b"version: 9"])] + lines[j + 1:]))
            else:
                big_ = [l if not l.startswith(b"width:") else b"width: 65536" for l in y.split(b"\n")]
                big_ = [l if not l.startswith(b"height:") else b"height: 65536" for l in big_]
                call("EncodePointcloudData", rng.choice([b"", data]), yaml=b"\n".join(big_))
    # the calls go through few processes one after the other: half of them in random order, the other
    # half such that calls of one function with messages that differ in little follow one another
    near = {}
    for c in calls:
        near.setdefault((c[2], c[3]) if c[2] % 2 else rng.random(), []).append(c)
    lots = list(near.values())
    rng.shuffle(lots)
    for l in lots:
        rng.shuffle(l)
    calls = [c[:2] for l in lots for c in l]
    res = run_ops(exe, calls, timeout=60, groups=[i for i, l in enumerate(lots) for _ in l])
    tla, metas = [], []
    for (_, a), r in zip(calls, res):
        if not r.get("ok"):
            chk.violation("cldn_%s: %s" % (a["f"], r.get("what", r.get("ex"))), a)
            continue
        if r["huge"]:
            chk.count("skipped_huge")
            continue
        nb = lambda s: (1 << 64) if s == "big" else int(s)
        tla.append({"fn": a["f"], "msg": r["msg"], "hdr": r["hdr"], "raw": r["raw"], "praw": r["praw"], "data": r["data"], "rawok": int(r["praw"] == r["raw"] != "big"), "step0": int(r["step"] == "0"), "lib": r["lib"], "libn": r["libn"],
                    "limit": r["cap"], "ret": r["ret"], "same": r["same"], "thrown": r["thrown"]})
        metas.append(a)
    verd, st = judge("CApi", tla)
    chk.add_stats(st)
    chk.traces(len(tla))
    TX = {"Thrown": "an exception left the function", "NotReported": "a failure was not reported by returning 0", "Fails": "the function fails where the library succeeds", "Size": "the size returned is not the library's", "Bytes": "the bytes written are not the library's"}
    fails = 0
    for v, k, a in zip(verd, tla, metas):
        fails += v[1] == "0"
        chk.count("calls_" + k["fn"])
        if v[0] != "ok":
            chk.violation("cldn_%s: %s: returned %s, should be %s; %s" % (k["fn"], TX[v[0]], k["ret"], v[1], json.dumps(k)), a)
    chk.count("calls", len(tla))
    chk.count("calls_that_must_fail", fails)
    chk.sample({"fn": tla[0]["fn"], "ret": tla[0]["ret"]})
    chk.sample(metas[1])
