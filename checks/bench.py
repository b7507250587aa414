"""C32 mcap_codec_benchmark: bags measured by the real tool (with the stand-in for the mcap library), judged by Bench.tla."""
from cli import *

MODES = ["V4", "V5", "V4-viz", "V5-viz"]


def fnv(data, h):
    for b in data:
        h = ((h ^ b) * 0x100000001b3) & 0xFFFFFFFFFFFFFFFF
    return h


def hundredths(s):
    a, b = s.split(".")
    return int(a) * 100 + int(b)


def read_report(text):
    """what a person reads in the output"""
    got = {"found": [], "none": 0, "blocks": [], "replay": [-1, -1, -1], "prints": [], "xps": []}
    prints = {}
    listing = False
    blk = xp = None
    for l in text.splitlines():
        m = re.match(r"PointCloud2 topics found: (\d+)$", l)
        if m:
            listing = True
            continue
        if listing and re.match(r"  - ", l):
            got["found"].append(l[4:])
            continue
        listing = False
        m = re.match(r"(?:Topic: (.*)|(FILE TOTAL))  \[", l)
        if m:
            blk = {"name": "" if m.group(2) else m.group(1), "m": -1, "p": -1, "raw": -1, "rows": []}
            got["blocks"].append(blk)
            continue
        m = re.match(r"  messages=(\d+)  points=(\d+)  raw=(\d+\.\d\d) MiB", l)
        if m and blk:
            blk["m"], blk["p"], blk["raw"] = int(m.group(1)), int(m.group(2)), hundredths(m.group(3))
            continue
        m = re.match(r"  (V4|V5|V4-viz|V5-viz) +(\d+\.\d\d) +(n/a|\d+\.\d%) +(n/a|\d+) +(n/a|\d+)$", l)
        if m and blk:
            num = lambda s: -1 if s == "n/a" else int(s.replace(".", "").replace("%", ""))
            blk["rows"].append({"mode": MODES.index(m.group(1)) + 1, "out": hundredths(m.group(2)), "ratio": num(m.group(3)), "enc": min(num(m.group(4)), 10 ** 9), "dec": min(num(m.group(5)), 10 ** 9)})
            continue
        m = re.match(r"Decode replay: samples=(\d+) +repeat=(\d+) +total-decodes=(\d+)", l)
        if m:
            got["replay"] = [int(x) for x in m.groups()]
        m = re.match(r"  (V4|V5|V4-viz|V5-viz) : 0x([0-9a-f]+)$", l)
        if m:
            k = MODES.index(m.group(1)) + 1
            got["prints"].append(k)
            prints[k] = int(m.group(2), 16)
        if "No PointCloud2 messages were processed" in l:
            got["none"] = 1
        m = re.match(r"Topic: (.*)$", l)
        if m:
            xp = {"topic": m.group(1), "step": -1, "n": -1, "raw": "", "fields": [], "from": -1, "to": -1, "gone": -1, "share": "", "f64": []}
            got["xps"].append(xp)
        if xp is None:
            continue
        m = re.match(r"  point_step=(\d+)  n_points=(\d+)  raw=(\S+) MiB", l)
        if m:
            xp["step"], xp["n"], xp["raw"] = int(m.group(1)), int(m.group(2)), m.group(3)
        m = re.match(r"    \[(\d+)\] (.*?) +type=(\w+) +offset=(\d+) +size=(\d+) resolution=(\S+)", l)
        if m:
            xp["fields"].append("|".join(m.groups()))
        m = re.match(r"    points: (\d+) -> (\d+)  \(removed (\d+) = (\S+)\)", l)
        if m:
            xp["from"], xp["to"], xp["gone"], xp["share"] = int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4)
        m = re.match(r"    FLOAT64 fields quantized to 1us: (.*)", l)
        if m:
            xp["f64"] = [] if m.group(1) == "(none)" else m.group(1).split(", ")
    return got, prints


def explained(topic, item, mode):
    """what is to be said about a message; mode: the facts about V4-viz (or nothing)"""
    i, n = item[0], item[0].w * item[0].h
    to, f64 = (n, []) if mode is None else (mode[1], mode[2])
    if not i.step:
        n = to = 0
    return {"topic": topic, "step": i.step, "n": n, "raw": "%.2f" % (n * i.step / 2 ** 20), "from": n, "to": to, "gone": n - to, "share": "%.1f%%" % (100.0 * (n - to) / n) if n else "n/a", "f64": f64,
            "fields": ["%d|%s|%s|%d|%d|%s" % (k, f.name.decode("latin1"), TYPE_NAMES[f.type] if f.type < 11 else "UNKNOWN", f.off, SIZE.get(f.type, 0), "n/a" if f.res is None else "%f" % f.res) for k, f in enumerate(i.fields)]}


def odd_cloud(rng, res):
    """messages that can be parsed, and that no encoder takes; and clouds without points"""
    k = rng.randrange(6)
    if k > 3:  # more or fewer points than there are, or bytes of a part of one
        i = Info([Field(b"x", 0, F32, res)], 4, rng.choice([0, 1, 2, 3, 4, 7, 1 << 20, 0xFFFFFFFF]), rng.choice([0, 1, 1, 2, 0xFFFFFFFF]), 5, LOSSY, ZSTD)
        data = struct.pack("<3f", 1.0, 2.0, 3.0) + rng.choice([b"", b"\1"])
    elif k == 0:  # nothing at all
        i = Info([Field(b"x", 0, F32, res)] if rng.random() < 0.5 else [], rng.choice([0, 0, 4]), 0, rng.choice([0, 1]), 5, LOSSY, ZSTD)
        data = b""
    elif k == 1:  # a field beyond the point
        i = Info([Field(b"x", rng.choice([2, 9, 4096]), F32, res)], 5, 4, 1, 5, LOSSY, ZSTD)
        data = rng.randbytes(20)
    elif k == 2:  # a type nobody knows
        i = Info([Field(b"x", 0, 77, None)], 4, 3, 1, 5, LOSSY, ZSTD)
        data = struct.pack("<3f", 1.0, 2.0, 3.0)
    else:  # no fields
        i = Info([], 4, 3, 1, 5, LOSSY, ZSTD)
        data = rng.randbytes(12)
    m = {"sec": bytes(4), "nsec": bytes(4), "frame": b"map", "h": i.h, "w": i.w, "fields": [(f.name, f.off, f.type, 1) for f in i.fields], "step": i.step, "row": i.w * i.step & 0xFFFFFFFF, "dense": 1, "odd": True}
    return i, m, data, data, {}, res


def c32(chk):
    rng = chk.rng
    exe = build_rosdrv()
    tool = build_tool("benchtool", ["mcap_codec_benchmark.cpp"])
    work = tempfile.mkdtemp(prefix="bench-")
    try:
        plans, ops = [], []
        for j in range(1500 if THOROUGH else 240):
            res = rng.choice([0.001, 0.001, 0.01, 0.25, 1.0])
            viz = rng.random() < 0.6
            hash_ = rng.random() < 0.25

            def cloud(plain):
                while True:
                    it = some_cloud(plain)
                    # what lies between the fields is not decoded: the fingerprint says nothing about it
                    if not hash_ or sorted(b for f in it[0].fields for b in range(f.off, f.off + SIZE.get(f.type, 0))) == list(range(it[0].step)):
                        return it

            def some_cloud(plain):
                if rng.random() < 0.1:
                    return odd_cloud(rng, f32(res))
                if viz:
                    return viz_cloud(rng, {}, f32(res), plain)
                return message(rng, prof={}, default=f32(res), enc=LOSSY, comp=ZSTD, n=rng.choice([0, 1, 5, 30, 200, 200, 1500, 1500, 12000]))
            bag, items = rand_bag(rng, rng.choice([0, 1, 3, 8, 8, 20, 40]), cloud, viz or hash_)
            bag["ch"] = [(c[0], c[1].decode("latin1").strip().replace("\n", "").encode() or b"/e") + c[2:] for c in bag["ch"]]
            if rng.random() < 0.35:  # several channels of one topic
                ts = [rng.choice([b"/points", b"/lidar"]) for _ in range(rng.choice([1, 2]))]
                bag["ch"] = [(c[0], rng.choice(ts)) + c[2:] for c in bag["ch"]]
            by = {s[0]: s[1].decode("latin1") for s in bag["sch"]}
            if rng.random() < 0.07:
                gone = {c[0] for c in bag["ch"] if by.get(c[3]) == RAWT}
                bag["ch"] = [c for c in bag["ch"] if c[0] not in gone]
                items = {q: it for q, it in items.items() if bag["msgs"][q][0] not in gone}
                keep = [q for q, m in enumerate(bag["msgs"]) if m[0] not in gone]
                items = {keep.index(q): it for q, it in items.items()}
                bag["msgs"] = [bag["msgs"][q] for q in keep]
            sch = {c[0]: by.get(c[3]) for c in bag["ch"]}
            torn = set()
            for q, m in enumerate(bag["msgs"]):
                if sch[m[0]] == RAWT and rng.random() < (0 if hash_ else 0.08):
                    torn.add(q)
                    bag["msgs"][q] = m[:4] + (m[4][:rng.randrange(len(m[4]))] if rng.random() < 0.7 else rng.randbytes(rng.choice([0, 3, 40])),)
            p = os.path.join(work, "%d.mcap" % j)
            write_bag(p, bag, rng)
            zstd = int(rng.random() < 0.4)
            need = [q for q, m in enumerate(bag["msgs"]) if sch[m[0]] == RAWT]
            plans.append([bag, items, torn, p, res, zstd, sch, hash_, {}])
            ops += [(len(plans) - 1, q, ("modes", {"d": bag["msgs"][q][4].hex(), "def": "%08x" % f32bits(res), "zstd": zstd})) for q in need]
        for (k, q, _), r in zip(ops, run_ops(exe, [o for _, _, o in ops])):
            if r.get("ex") == "crash":
                raise Unexpected("the library does not survive a message: %s" % str(r)[:300])
            if "lost" in r:
                raise Unexpected("the library does not decode what it encoded: %s" % r["lost"])
            plans[k][8][q] = r
        jobs, cases, sums = [], [], []
        for bag, items, torn, p, res, zstd, sch, hash_, facts in plans:
            o = {"max": 0, "every": 1, "mode": 0, "only": 0, "replay": 0, "rep": 1, "hash": 0, "explain": 0, "help": 0, "file": "bag"}
            args = [["-r", "%r" % res], ["--resolution=%r" % res], ["--resolution", "%r" % res], ["-r%r" % res]]
            args = [rng.choice(args)] if res != 0.001 or rng.random() < 0.5 else []

            def give(name, v):
                args.append(rng.choice([["--%s" % name, str(v)], ["--%s=%s" % (name, v)]]))
            if zstd:
                args.append(["--zstd"])
            if rng.random() < 0.35:
                o["max"] = rng.choice([0, 1, 2, 3, 5, 100])
                give("max-messages", o["max"])
            if rng.random() < 0.35:
                o["every"] = rng.choice([0, 1, 2, 3, 7])
                give("sample-every", o["every"])
            if rng.random() < 0.4 or hash_:
                o["mode"] = rng.choice([1, 2, 3, 4])
                if rng.random() < 0.04:
                    o["mode"] = 5
                give("mode", MODES[o["mode"] - 1] if o["mode"] < 5 else rng.choice(["V6", "v5", "", "viz", "V5-VIZ"]))
            if hash_ or rng.random() < 0.2:
                o["replay"] = int(not hash_ or rng.random() < 0.95)
                if o["replay"]:
                    args.append(["--decode-replay"])
            if rng.random() < (0.5 if o["replay"] else 0.05):
                o["rep"] = rng.choice([0, 1, 2, 3])
                give("decode-repeat", o["rep"])
            if hash_:
                o["hash"] = 1
                args.append(["--hash"])
            if rng.random() < (0.03 if o["replay"] else 0.2):
                o["only"] = 1
                args.append(["--encode-only"])
            if rng.random() < 0.15:
                o["explain"] = 1
                args.append(["--explain"])
            if rng.random() < 0.03:
                o["help"] = 1
                args.append([rng.choice(["-h", "--help"])])
            path = p
            if rng.random() < 0.06:
                o["file"] = rng.choice(["junk", "none", ""])
                path = {"junk": p + ".junk", "none": p + ".no", "": None}[o["file"]]
                if o["file"] == "junk":
                    open(path, "wb").write(rng.choice([b"", b"BAG", b"\x89MCAP0\r\n", rng.randbytes(40)]))
            if path is not None:
                name = path if rng.random() < 0.6 else os.path.basename(path)
                args.append(rng.choice([[name], ["-f", name], ["--filename", name], ["--filename=" + name]]))
            rng.shuffle(args)
            topic = {c[0]: c[1].decode("latin1") for c in bag["ch"]}
            raws = sorted({topic[k] for k, s in sch.items() if s == RAWT}, key=lambda s: s.encode("latin1"))
            topics = raws + sorted(set(topic.values()) - set(raws))
            msgs, decoded = [], []
            for q in reading_order(bag):
                m = bag["msgs"][q]
                raw = int(sch[m[0]] == RAWT)
                f = facts.get(q, {})
                ok = int(bool(f.get("ok") and f["fits"]))
                md = [x.split(",") for x in f["modes"].split(";")] if ok else []
                full = ok and len(md) == 4 and all(len(x) == 4 for x in md)
                third = (int(md[2][0]), int(md[2][1]), [bytes.fromhex(h).decode("latin1") for h in md[2][2].split("+") if h]) if full and md[2][0] != "-1" else None
                xp = {"topic": ""}
                if raw and ok and q in items:
                    xp = explained(topic[m[0]], items[q], third)
                elif raw and ok:  # a damaged message that can still be parsed
                    xp = {"topic": "?"}
                msgs.append({"t": topics.index(topic[m[0]]) + 1, "raw": raw, "ok": ok, "n": f.get("n", 0), "b": f.get("raw", 0), "e": [int(x[0]) if len(x) == 4 else -1 for x in md] or [-1] * 4, "xp": xp})
                decoded.append([bytes.fromhex(x[3]) if len(x) == 4 else b"" for x in md] or [b""] * 4)
            cases.append(dict(o, topics=topics, raws=raws, msgs=msgs))
            sums.append(decoded)
            jobs.append(([a for x in args for a in x], work, ""))
        before = {f: open(os.path.join(work, f), "rb").read() for f in os.listdir(work)}

        def one(j):
            t = time.monotonic()
            r = launch(tool, [j])[0]
            return r + (int((time.monotonic() - t) * 1e6),)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, jobs))
        kept = int({f: open(os.path.join(work, f), "rb").read() for f in os.listdir(work)} == before)
        found = []
        for k, (rc, text, us) in zip(cases, res):
            got, prints = read_report(text)
            k["got"] = dict(got, rc=rc if rc is not None else -1, crash=crashed(rc, text), kept=kept, us=min(us, 2 * 10 ** 9))
            found.append(prints)
        verd, st = judge("Bench", cases)
        chk.add_stats(st)
        chk.traces(len(cases))
        TX = {"Crash": "it crashes", "Disk": "a file was changed", "Help": "--help fails", "Silent": "a failure is not reported", "Failed": "it fails", "Found": "the topics announced are not those of the clouds", "Explained": "the explanation is not about the first message of each topic",
              "Nothing": "it does not say whether anything was measured", "Blocks": "it does not report once about each topic", "Replay": "the replay announced is another one", "Prints": "the fingerprints are not those asked for", "Unmeasured": "it reports figures of what was not measured",
              "Size": "the encoded size is wrong", "Ratio": "the ratio is wrong", "Speed": "the throughput can not be true", "Topic": "the topics are not reported in order", "Messages": "the number of messages is wrong", "Points": "the number of points is wrong", "Raw": "the raw size is wrong", "Modes": "the modes reported are not those asked for"}
        for v, k, j, (rc, text, us), prints, dec in zip(verd, cases, jobs, res, found, sums):
            said = dict(args=[a.replace(work + "/", "") for a in j[0]], rc=rc, said=text[-5000:])
            if v[0] != "ok":
                chk.violation("%s: %s (rc %s) %s" % (TX[v[0]], " ".join(said["args"]), rc, text.replace("\n", " / ")[-300:]), dict(said, case={q: x for q, x in k.items() if q != "got"}, got=k["got"]))
            elif k["hash"] and prints:
                h = 0xcbf29ce484222325
                for q in map(int, v[1].split()):
                    if k["msgs"][q - 1]["e"][k["mode"] - 1] >= 0:
                        h = fnv(dec[q - 1][k["mode"] - 1], h)
                chk.count("fingerprints")
                if prints[k["mode"]] != h:
                    chk.violation("the fingerprint is not that of the decoded points: %s: %x, not %x" % (" ".join(said["args"]), prints[k["mode"]], h), said)
        chk.count("runs", len(cases))
        chk.count("reports", sum(1 for k in cases if k["got"]["blocks"]))
        chk.count("messages", sum(len(v[1].split()) for v in verd if len(v) > 1))
        chk.sample({"args": [a.replace(work + "/", "") for a in jobs[0][0]], "said": res[0][1][-800:]})
    finally:
        shutil.rmtree(work, ignore_errors=True)
