"""C30 the web page: histories of a user and an event loop on the real page, judged by Web.tla."""
from html.parser import HTMLParser
from common import *

WEB = os.path.join(os.path.dirname(LIBDIR), "cloudini_web")
CLOUD = "sensor_msgs/msg/PointCloud2"
TOPICS = ["/points", "/lidar/front", "/lidar", "/a b", "/<b>bold</b>", "/<img src=x onerror=alert(1)>", "/\"quoted\" & 'co'", "/&amp;", "/x<y", "/velodyne_points_raw/with/a/long/name", "/${topic}", "/\u00fcber"]
OTHERS = ["sensor_msgs/PointCloud2", "sensor_msgs/msg/PointCloud", "sensor_msgs/msg/Image", "point_cloud_interfaces/msg/CompressedPointCloud2", "tf2_msgs/msg/TFMessage", "my/<i>T</i>", "std_msgs/msg/String", "sensor_msgs/msg/PointCloud2Array", "x_sensor_msgs/msg/PointCloud2", "Sensor_msgs/msg/PointCloud2"]


class Text(HTMLParser):
    """the visible text of a piece of markup, element by element"""

    def __init__(self, s):
        super().__init__(convert_charrefs=True)
        self.out, self.tags, self.hide = [], [], 0
        self.new = True
        self.feed(s)
        self.close()
        self.out = [" ".join(x.split()) for x in self.out]
        self.out = [x for x in self.out if x]

    def handle_starttag(self, tag, attrs):
        self.new = True
        self.tags.append(tag)
        self.hide += tag in ("script", "style")

    def handle_endtag(self, tag):
        self.new = True
        self.hide -= tag in ("script", "style")

    def handle_data(self, d):
        if self.hide:
            return
        if self.new:
            self.out.append("")
        self.new = False
        self.out[-1] += d


LABELS = ["Schema:", "Encoding:", "Channel ID:", "Messages:"]


def integer(s):
    d = re.sub(r"[,.\s\u202f\u00a0']", "", s)
    return int(d) if d.isdigit() and len(d) < 10 else -1


def fixed(s, digits):
    m = re.fullmatch(r"(\d{1,6})(?:\.(\d{1,%d}))?" % digits, s)
    return int(m.group(1)) * 10 ** digits + int((m.group(2) or "").ljust(digits, "0")) if m else -1


def read_page(o):
    """what a person reads on the page"""
    r = {"busy": o["busy"], "kept": o.get("kept", 1), "dlg": o.get("dlg", 0), "cards": [], "none": 0, "tags": [], "found": -1, "orig": -1, "comp": -1, "ratio": -1,
         "status": {"kind": "other", "name": "", "channels": -1, "schemas": -1}}
    st = " ".join(Text(o["status"]).out)
    m = re.fullmatch(r"File: (.*) \| Channels: ([\d,.]+) \| Schemas: ([\d,.]+)", st)
    if m and len(Text(o["status"]).tags) == 0:
        r["status"] = {"kind": "file", "name": m.group(1), "channels": integer(m.group(2)), "schemas": integer(m.group(3))}
    elif st.startswith("Error"):
        r["status"]["kind"] = "error"
    t = Text(o["results"]).out
    k = 0
    while k < len(t):
        x = t[k]
        m = re.search(r"Found ([\d,.]+) PointCloud2 Channel(s?)$", x)
        if m:
            r["found"] = integer(m.group(1))
            if (m.group(2) == "s") != (r["found"] != 1):
                r["found"] = -1
        elif k + 8 < len(t) + 0 and [t[k + j] for j in (1, 3, 5, 7)] == LABELS:
            r["cards"].append({"topic": x, "schema": t[k + 2], "encoding": t[k + 4], "id": integer(t[k + 6]), "count": integer(t[k + 8])})
            k += 8
        elif x in LABELS:
            r["cards"].append({"topic": "?", "schema": "?", "encoding": "?", "id": -1, "count": -1})
        elif x.startswith("Original Size") and k + 1 < len(t):
            r["orig"] = fixed(t[k + 1].removesuffix(" MB"), 1)
        elif x == "Compressed Size" and k + 1 < len(t):
            r["comp"] = fixed(t[k + 1].removesuffix(" MB"), 1)
        elif x == "Compression Ratio" and k + 1 < len(t):
            r["ratio"] = fixed(t[k + 1], 3)
        elif x == "No PointCloud2 Channels Found":
            r["none"] = 1
        elif x.endswith("Available Schemas in this file:"):
            r["tags"] = t[k + 1:]
            break
        k += 1
    return r


def rand_bag(rng, k, unit, limit, mode, many=False):
    nsc = rng.choice([0, 1, 2, 3, 5])
    names = [CLOUD] * rng.choice([0, 1, 1, 1, 2]) + rng.sample(OTHERS, min(nsc, len(OTHERS)))
    rng.shuffle(names)
    schemas = [[j + 1, n, rng.choice(["ros2msg", "ros2idl", "ros1msg", "x<y"])] for j, n in enumerate(names)]
    chans, tp = [], rng.sample(TOPICS, len(TOPICS))
    ids = rng.sample(range(0, 400), 40)
    for j in range(rng.choice([0, 1, 2, 3, 4, 6])):
        sc = rng.choice(schemas)[0] if schemas and rng.random() < 0.9 else 0
        if schemas and rng.random() < 0.4:
            sc = rng.choice([s[0] for s in schemas if s[1] == CLOUD] or [sc])
        topic = rng.choice(chans)["topic"] if chans and rng.random() < 0.3 else tp[j]
        chans.append({"id": ids[j], "schemaId": sc, "topic": topic})
    used = {c["schemaId"] for c in chans}
    if rng.random() < 0.5:
        schemas = [s for s in schemas if s[0] in used]
    msgs = []
    if chans:
        for _ in range(rng.choice([1200, 2300]) if many else rng.choice([0, 1, 3, 6, 10])):
            big = mode == "mem" and not many and rng.random() < 0.1
            size = (limit + rng.choice([1, 1024]) if big else 16 + rng.randrange(40) if many else unit * rng.randint(1, limit // unit if rng.random() < 0.3 else max(1, limit // unit // 4)) if unit == 1024 else rng.choice([4, 5, 16, 60, rng.randint(4, 3000)]))
            comp = unit * rng.randint(1, max(1, size // unit)) if rng.random() < 0.9 else size * 2 if unit == 1 else unit * (size // unit + 7)
            fault = rng.choice(["throw", "zero", "oom"] if mode == "mem" else ["throw", "zero"]) if rng.random() < 0.12 and not big else ""
            if unit == 1024 and size % 1024 and not big:
                size = 1024 * max(1, size // 1024)
            msgs.append({"ch": rng.choice(chans)["id"], "size": size, "comp": comp, "fault": fault, "big": int(big)})
    return {"name": rng.choice(["bag%d.mcap", "my bag %d.mcap", "a<b>%d.mcap", "x&%d.mcap", "%d.mcap.mcap"]) % k, "schemas": schemas, "chans": chans, "msgs": msgs}


def web_plan(rng, hist, nfiles, many=False):
    unit = 1 if many else rng.choice([1, 1024])
    heap = 1 << 20
    mode = rng.choice(["mem", "mem", "mem", "ccall"])
    grown = 2 << 20 if mode == "mem" and rng.random() < 0.4 else 0
    limit = heap // 4
    bags = [rand_bag(rng, k, unit, limit, mode, many) for k in range(nfiles - 1)] + [{"name": rng.choice(["notes.txt", "bag.mcap.zip", "mcap", "x.MCAP.bak", "a.db3"]), "schemas": [], "chans": [], "msgs": []}]
    first = 1 if grown and rng.random() < 0.5 else 2  # the allocation at which the module's memory grows
    if first == 1:  # ... with the first message of any channel, after that larger ones fit
        for b in bags:
            seen = set()
            for m in b["msgs"]:
                if m["ch"] not in seen:
                    seen.add(m["ch"])
                    if m["big"]:
                        m.update(big=0, size=4 * unit, comp=unit)
                elif not m["big"] and rng.random() < 0.3:
                    m["size"] = unit * rng.randint(limit // unit + 1, grown // 4 // unit)
    # sizes for which there is no memory are nobody else's
    taken = {m["size"] for b in bags for m in b["msgs"] if m["fault"] != "oom"}
    oom = set()
    for b in bags:
        for m in b["msgs"]:
            if m["big"]:
                m["size"] += heap if grown else 0
            if m["fault"] == "oom":
                if m["size"] in taken:
                    m["fault"] = ""
                else:
                    oom.add(m["size"])
    faults = [rng.choice(["", "", "", "", "init", "script", "module", "read"]) for _ in range(40)]
    acts = [(a, f, []) for a, f in hist] + [("finish", 0, [])]
    acts = [(a, rng.randrange(3), m) if a == "tick" else (a, f, [rng.randint(1, nfiles)]) if a == "drop" and f and rng.random() < 0.15 else (a, f, m) for a, f, m in acts]
    return {"heap": heap, "grown": grown, "first": first, "mode": mode, "oom": sorted(oom), "faults": faults, "bags": bags, "acts": [list(a) for a in acts], "unit": unit}


def web_case(plan, r):
    u = plan["unit"]
    files = []
    for b in plan["bags"]:
        sc = {s[0]: s for s in b["schemas"]}
        idx = {c["id"]: j + 1 for j, c in enumerate(b["chans"])}
        files.append({"name": b["name"], "mcap": int(b["name"].endswith(".mcap")),
                      "chans": [{"id": c["id"], "topic": c["topic"], "schema": sc[c["schemaId"]][1] if c["schemaId"] in sc else "", "encoding": sc[c["schemaId"]][2] if c["schemaId"] in sc else "",
                                 "cloud": int(c["schemaId"] in sc and sc[c["schemaId"]][1] == CLOUD)} for c in b["chans"]],
                      "msgs": [{"ch": idx[m["ch"]], "size": m["size"] // u, "comp": m["comp"] // u, "fault": m["fault"], "big": m["big"]} for m in b["msgs"]]})
    return {"files": files, "faults": plan["faults"], "unit": u, "acts": [a[:2] for a in plan["acts"]], "obs": [read_page(o) for o in r["obs"]], "bad": "; ".join(r["bad"])}


def histories(chk, length, num, nfiles, exhaustive=0):
    env = {"WEB_FILES": str(nfiles), "WEB_LEN": str(length)}
    r = tlc("WebGen", env=env, workers=1, simulate="num=%d" % num, extra=["-seed", str(chk.rng.randrange(1, 1 << 30)), "-depth", str(length + 3)])
    out = [[(a, int(k)) for a, k in re.findall(r'<<"(\w+)", (\d+)>>', p[5:])] for p in r.prints if p.startswith('<<"S"')]
    if not out or any(len(h) != length for h in out):
        raise CheckError("WebGen gave nothing\n" + r.out[-2000:])
    return out


def setup(d):
    """the page's scripts as one file, its packages replaced by the stand-ins"""
    for n in ("web.mjs", "dom.mjs"):
        shutil.copy(os.path.join(VERIF, "harness", "web", n), d)
    shutil.copytree(os.path.join(VERIF, "harness", "web", "mcap"), os.path.join(d, "node_modules", "@mcap"))
    markup = open(os.path.join(WEB, "index.html"), encoding="utf-8").read()
    m = re.search(r'<script[^>]*type="module"[^>]*src="/?([^"]+)"', markup)
    if not m:
        raise CheckError("the page has no script")
    src = os.path.join(WEB, m.group(1))
    r = subprocess.run(["/opt/veriftools/node/node_modules/.bin/esbuild", src, "--bundle", "--format=esm", "--platform=node", "--outfile=" + os.path.join(d, "page.mjs"), "--log-level=error",
                        "--loader:.css=empty", "--loader:.svg=text", "--loader:.png=text"], cwd=d, capture_output=True, text=True, env=dict(os.environ, NODE_PATH=os.path.join(d, "node_modules")))
    if r.returncode:
        raise CheckError("bundling the page failed:\n" + r.stderr[-3000:])
    with open(os.path.join(d, "package.json"), "w") as f:
        f.write('{"type":"module"}')
    return ["node", "--no-warnings", os.path.join(d, "web.mjs"), os.path.join(d, "page.mjs"), markup]


def run_plans(cmd, plans, limit=60):
    """several processes; a process that ends or hangs costs the plan it was at"""
    groups = [list(range(g, len(plans), NCPU)) for g in range(NCPU)]
    res = [None] * len(plans)

    def work(ix):
        ix = list(ix)
        while ix:
            inp = "".join(json.dumps({k: v for k, v in plans[i].items() if k != "unit"}) + "\n" for i in ix)
            try:
                p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=limit + len(ix))
                out, why = p.stdout.splitlines(), "the page ended the process: " + p.stderr[-300:]
            except subprocess.TimeoutExpired as e:
                out, why = (e.stdout or b"").decode("utf-8", "replace").splitlines(), "the page hangs"
            out = [json.loads(x) for x in out if x.endswith("}")]
            for i, x in zip(ix, out):
                res[i] = x
            if len(out) < len(ix):
                res[ix[len(out)]] = {"crash": why}
            ix = ix[len(out) + 1:]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(work, groups))
    return res


def c30(chk):
    rng = chk.rng
    T = THOROUGH
    d = tempfile.mkdtemp(prefix="web-")
    try:
        cmd = setup(d)
        r = tlc("WebGen", cfg="WebGenMC.cfg", env={"WEB_FILES": "2", "WEB_LEN": "6" if T else "5"})
        if r.violated:
            raise CheckError("the model of the page is wrong:\n" + r.out[-2000:])
        chk.add_stats({"states": r.states, "transitions": r.generated})
        plans = []
        for length, num in ((6, 900 if T else 260), (14, 900 if T else 180), (40, 200 if T else 40)):
            nfiles = 4
            plans += [web_plan(rng, h, nfiles) for h in histories(chk, length, num, nfiles)]
        # every kind of file, undisturbed
        for _ in range(900 if T else 250):
            plans.append(web_plan(rng, [("drop", rng.randint(1, 2)), ("finish", 0), ("click", 0), ("choose", 1)], 3))
        for _ in range(60 if T else 16):  # the same file once more, after a failure that has passed
            p = web_plan(rng, [("click", 0), ("choose", 1), ("finish", 0), ("click", 0), ("choose", 1)], 2)
            p["faults"][:2] = [rng.choice(["init", "script", "module"]), ""]
            plans.append(p)
        for _ in range(12 if T else 4):  # more than a thousand messages
            p = web_plan(rng, [("drop", 1)], 2, many=True)
            p["faults"] = [""] * 40
            plans.append(p)
        res = run_plans(cmd, plans)
        cases, metas = [], []
        for p, x in zip(plans, res):
            if x is None or "crash" in x:
                chk.violation("the page fails: %s" % (x or {}).get("crash", "no result"), {"plan": p})
                continue
            cases.append(web_case(p, x))
            metas.append(p)
        verd, st = judge("Web", cases)
        chk.add_stats(st)
        chk.traces(len(cases))
        for v, p, k in zip(verd, metas, cases):
            if v[0]:
                small = {x: p[x] for x in ("heap", "grown", "first", "mode", "oom", "acts", "faults")}
                chk.violation("the page: %s; after %s; %s" % (v[0], p["acts"][:v[1]][-6:], json.dumps(k["obs"][min(v[1], len(k["obs"]) - 1)])), {"plan": dict(small, bags=p["bags"] if len(json.dumps(p["bags"])) < 60000 else "large"), "obs": k["obs"][-1]})
        chk.count("histories", len(cases))
        chk.count("files_shown", sum(1 for p in metas for a in p["acts"] if a[0] == "finish"))
        chk.sample(metas[0]["acts"])
        chk.sample(cases[0]["obs"][-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)
