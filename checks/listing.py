"""C31 decode_mcap.py: bags listed by the real script, judged by Listing.tla."""
from front import *

SCRIPT = os.path.join(os.path.dirname(LIBDIR), "cloudini_py", "decode_mcap.py")
CTYPE = "point_cloud_interfaces/msg/CompressedPointCloud2"
OTHER = ["sensor_msgs/msg/PointCloud2", "sensor_msgs/msg/Image", "tf2_msgs/msg/TFMessage", "sensor_msgs/msg/CompressedImage", "point_cloud_interfaces/msg/CompressedPointCloud", "std_msgs/msg/String"]
TOPICS = ["/points", "/lidar/front/compressed", "/a b", "/\u00fcber", "/x:y", "/CompressedPointCloud2", "/velodyne", "/Topic: 7"]


def value_of(t, b):
    return struct.unpack("<" + {1: "b", 2: "B", 3: "h", 4: "H", 5: "i", 6: "I", 7: "f", 8: "d", 9: "q", 10: "Q"}[t], b)[0]


def stands_for(text, t, b):
    v = value_of(t, b)
    try:
        if t not in (7, 8):
            return int(text) == v
        x = float(text)
    except ValueError:
        return False
    if v != v or x != x:
        return v != v and x != x
    if v in (float("inf"), float("-inf")):
        return x == v
    return abs(x - v) <= 1e-6 * abs(v) + 1e-7


def first_point(text, names, x):
    """-1: no point printed, 1: the first point of the message, 0: something else"""
    if text is None:
        return -1
    fs = {bytes(f.name).decode("latin1"): f for f in x["hdr"].fields}
    vals = [v for v in text.strip().removeprefix("(").removesuffix(")").split(",") if v.strip()]
    if len(vals) != len(names) or set(names) != set(fs):
        return 0
    return int(all(stands_for(v.strip(), fs[n].type, x["out"][fs[n].off:fs[n].off + SIZE[fs[n].type]]) for n, v in zip(names, vals)))


def read_listing(text):
    """what a person reads in the output"""
    out, total, stats = [], -1, [-1, -1]
    cur = None
    for l in text.splitlines():
        m = re.fullmatch(r"-+ *Message (\d+) *-+", l)
        if m:
            cur = {"num": int(m.group(1)), "topic": "", "sec": -1, "ms": -1, "ok": 0, "names": [], "text": None, "ratio": -1}
            out.append(cur)
            continue
        m = re.fullmatch(r"Messages parsed: (\d+)", l)
        if m:
            total, cur = int(m.group(1)), None
            continue
        for k, what in enumerate(("Message count", "Channels")):
            m = re.fullmatch(r" *%s: (\d+)" % what, l)
            if m and cur is None:
                stats[k] = int(m.group(1))
        if cur is None:
            continue
        m = re.fullmatch(r"Topic: (.*)", l)
        if m and not cur["topic"]:
            cur["topic"] = m.group(1)
        m = re.fullmatch(r"Timestamp: (\d+)\.(\d{3})s", l)
        if m:
            cur["sec"], cur["ms"] = int(m.group(1)), int(m.group(2))
        if "Decoded successfully" in l:
            cur["ok"] = 1
        if re.match(r"Failed to decode", l):
            cur["ok"] = 0 if not cur.get("bad") else 2
            cur["bad"] = 1
        m = re.fullmatch(r" *Fields: (.*)", l)
        if m:
            cur["names"] = [n.strip() for n in m.group(1).split(",")]
        m = re.fullmatch(r" *First point: (.*)", l)
        if m:
            cur["text"] = m.group(1)
        m = re.fullmatch(r" *Compression ratio: (\d+)\.(\d\d)x", l)
        if m:
            cur["ratio"] = int(m.group(1)) * 100 + int(m.group(2))
    return out, total, stats


def rand_listing(rng, ms):
    good = [x for x in ms.good if x["must"] == 1 and plain(x["hdr"]) and len({f.off for f in x["hdr"].fields}) == len(x["hdr"].fields) and x["n"] < 10 ** 6]
    bad = [x for x in ms.bad + ms.mis if x["may"] == 0]
    schemas = {1: CTYPE}
    for k in range(rng.choice([0, 1, 3, 5])):
        schemas[k + 2] = rng.choice(OTHER)
    if rng.random() < 0.2:
        schemas[9] = CTYPE
    ids = rng.sample(range(0, rng.choice([6, 6, 300, 65536])), 6)
    tp = rng.sample(TOPICS, 6)
    chans = {}
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        chans[ids[k]] = [rng.choice(tp) if rng.random() < 0.2 else tp[k], rng.choice([1, 1, rng.choice(list(schemas)), rng.choice(list(schemas)), 0] if k or rng.random() < 0.3 else [1])]
    t0 = rng.choice([0, 1715873853286000000, 1700000000999000000, 10 ** 9])
    msgs = []
    for k in range(rng.choice([0, 1, 2, 4, 7, 12])):
        ch = rng.choice(list(chans))
        x = rng.choice(good if rng.random() < 0.75 or not bad else bad)
        cloud = schemas.get(chans[ch][1]) == CTYPE
        t = t0 + rng.choice([0, 1, 10 ** 5, 10 ** 6, 10 ** 8, 10 ** 9]) * rng.randrange(12)
        if 498 * 10 ** 3 < t % 10 ** 6 < 502 * 10 ** 3:  # the double in between may round either way
            t += 10 ** 4
        msgs.append({"ch": ch, "t": t, "x": x, "d": x["d"].hex() if cloud or rng.random() < 0.5 else rng.randbytes(rng.choice([0, 3, 40])).hex(), "cloud": cloud})
    if rng.random() < 0.5:
        rng.shuffle(msgs)
    return {"schemas": schemas, "channels": chans, "msgs": msgs, "summary": rng.choice([0, 1, 2, 2, 2]), "breaks": rng.randrange(len(msgs) + 1) if rng.random() < 0.12 else None}


def c31(chk):
    so = build_frontlib()
    rng = chk.rng
    ms = Msgs(chk, 120 if THOROUGH else 40, "listing-")
    work = tempfile.mkdtemp(prefix="listing-")
    try:
        wasm = os.path.join(work, "module.wasm")
        with open(wasm, "wb") as f:
            f.write(b"\0asm\1\0\0\0")
        jobs = []
        for k in range(800 if THOROUGH else 170):
            bag = rand_listing(rng, ms)
            d = os.path.join(work, "%d" % k)
            os.mkdir(d)
            path = os.path.join(d, rng.choice(["bag.mcap", "my bag.mcap", "x", "a.b.mcap"]))
            with open(path, "wb") as f:
                f.write(b"\x89MCAP0\r\n" + json.dumps(dict(bag, msgs=[{q: m[q] for q in ("ch", "t", "d")} for m in bag["msgs"]])).encode())
            clouds = sum(m["cloud"] for m in bag["msgs"])
            limit = rng.choice([None, None, -1, 0, 1, 2, max(0, clouds - 1), clouds, clouds + 1, 100])
            miss = rng.choice(["bag", "module"]) if rng.random() < 0.06 else ""
            rel = rng.random() < 0.5
            cmd = [PYVT, SCRIPT, (os.path.basename(path) if rel else path) + (".no" if miss == "bag" else ""), "--wasm", wasm + (".no" if miss == "module" else "")]
            if limit is not None:
                cmd += rng.choice([["--max-messages", str(limit)], ["--max-messages=%d" % limit]])
            jobs.append((bag, d, path, limit, miss, cmd))
        env = dict(os.environ, FRONT_LIB=so, PYTHONPATH=os.path.join(VERIF, "harness", "pystub"), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore")

        def files(d):
            return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}

        def run(j):
            before = files(j[1])
            try:
                r = subprocess.run(j[5], cwd=j[1], env=env, capture_output=True, timeout=120)
                return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"), int(files(j[1]) == before)
            except subprocess.TimeoutExpired:
                return 124, "", "timed out", 1
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(run, jobs))
        cases = []
        for (bag, d, path, limit, miss, cmd), (rc, out, err, kept) in zip(jobs, res):
            if rc < 0 or rc == 124:
                raise Unexpected("decode_mcap.py ended with %d: %s" % (rc, err[-500:]))
            entries, total, stats = read_listing(out)
            order = sorted((m for m in bag["msgs"] if m["cloud"]), key=lambda m: m["t"])
            es = []
            for k, e in enumerate(entries):
                x = order[k]["x"] if k < len(order) else None
                es.append({"num": e["num"], "topic": e["topic"], "sec": e["sec"], "ms": e["ms"], "ok": e["ok"], "names": sorted(n.encode("latin1", "replace").hex() for n in e["names"]), "ratio": e["ratio"],
                           "first": first_point(e["text"], e["names"], x) if x and x["hdr"] and x["out"] else 0})
            tm = []
            for m in bag["msgs"]:
                x = m["x"]
                g = int(m["cloud"] and x["must"] == 1)
                tm.append({"sec": m["t"] // 10 ** 9, "ns": m["t"] % 10 ** 9, "cloud": int(m["cloud"]), "good": g, "topic": bag["channels"][m["ch"]][0], "names": sorted(bytes(f.name).hex() for f in x["hdr"].fields) if g else [],
                           "bytes": x["n"] if g else 0, "comp": len(x["d"]), "rows": x["hdr"].w * x["hdr"].h if g else 0})
            have = [len(bag["msgs"]) if bag["summary"] == 2 else -1, len(bag["channels"]) if bag["summary"] else -1]
            cases.append({"limit": -1 if limit is None else limit, "msgs": tm, "entries": es, "total": total, "file": 0 if miss else 1, "broken": -1 if bag["breaks"] is None or bag["breaks"] >= len(bag["msgs"]) else bag["breaks"], "rc": rc, "kept": kept,
                          "stats": stats, "have": have})
        TX = {"Number": "the entries are not counted one by one", "Topic": "another topic is listed", "Time": "another time is listed", "Refused": "a cloud that can be decoded is listed as a failure", "NotRefused": "a cloud that can not be decoded is listed as decoded",
              "Fields": "the fields listed are not those of the message", "First": "the point shown is not the first one", "Ratio": "the compression ratio is wrong", "Missing": "a cloud is not listed", "Extra": "more clouds are listed than there are, or than asked for",
              "Disk": "a file was changed", "Silent": "a failure is not reported", "Failed": "the listing fails", "Total": "the number of messages is wrong", "Summary": "the summary is not that of the bag"}
        verd, st = judge("Listing", cases)
        chk.add_stats(st)
        chk.traces(len(cases))
        for v, j, k, r in zip(verd, jobs, cases, res):
            if v[0] != "ok":
                chk.violation("%s (entry %d; %s; limit %s): %s" % (TX[v[0]], v[1] + 1, j[4] and "without " + j[4] or "rc %d" % r[0], k["limit"], json.dumps(k["entries"][v[1]:v[1] + 1])[:300] + r[2][-300:]),
                              {"bag": dict(j[0], msgs=[{q: m[q] for q in ("ch", "t", "d", "cloud")} for m in j[0]["msgs"]]), "cmd": j[5][1:], "stdout": r[1][-6000:], "stderr": r[2][-2000:]})
        chk.count("bags", len(cases))
        chk.count("clouds", sum(len(k["entries"]) for k in cases))
        chk.sample({"cmd": jobs[0][5][1:], "entries": cases[0]["entries"][:2], "total": cases[0]["total"]})
        chk.sample({"cmd": jobs[-1][5][1:], "entries": cases[-1]["entries"][:2], "total": cases[-1]["total"]})
    finally:
        ms.close()
        shutil.rmtree(work, ignore_errors=True)
