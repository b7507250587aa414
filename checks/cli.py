"""C27: cloudini_rosbag_converter as a command."""
from bag import *


def run_gen(module, chk, env, simulate=0, length=0):
    """histories printed by a generator as JSON; also checks its invariant"""
    r = tlc(module, env=env, workers=1 if simulate else NCPU, **({"simulate": "num=%d" % simulate, "extra": ["-seed", str(SEED), "-depth", str(length + 3)]} if simulate else {}))
    if r.violated:
        raise CheckError("%s: the specification violates what is claimed about it: %s" % (module, r.violated))
    chk.add_stats({"states": r.states, "generated": r.generated, "wall": r.wall})
    out = [json.loads(json.loads(p[len('<<"S", '):-2])) for p in r.prints if p.startswith('<<"S"')]
    if not out:
        raise CheckError("%s gave nothing\n%s" % (module, r.out[-2000:]))
    return out


RANDOM_STEM = [b"a", b"cloud", b"my bag", b"v1.2", b"rosbag2_2024_05_01-10_11_12_0", b"b-1", b"x_encoded", b"\xc3\xa4"]
TYPES = [RAWT, COMPT, "std_msgs/msg/String", "tf2_msgs/msg/TFMessage", "sensor_msgs/msg/Image"]


def metadata_text(rng, main):
    t = "rosbag2_bagfile_information:\n  version: 5\n  storage_identifier: mcap\n  duration:\n    nanoseconds: %d\n  message_count: %d\n  topics_with_message_count:\n" % (rng.randrange(1 << 40), rng.randrange(1000))
    for j in range(rng.randint(1, 4)):
        t += "    - topic_metadata:\n        name: /%s%d\n        type: %s\n        serialization_format: cdr\n        offered_qos_profiles: \"%s\"\n      message_count: %d\n" % (rng.choice(["points", "tf", "type"]), j, rng.choice(TYPES), rng.choice(["", "- history: 3\\n  depth: 0\\n  type: x"]), rng.randrange(999))
    t += "  compression_format: \"\"\n  compression_mode: \"\"\n  relative_file_paths:\n    - %s%s\n" % (main, rng.choice(["", "", " ", "\r"]))
    if rng.random() < 0.6:
        t += "  files:\n    - path: %s\n      starting_time:\n        nanoseconds_since_epoch: %d\n      message_count: 7\n" % (main, rng.randrange(1 << 40))
    return t + rng.choice(["", "  ros_distro: rolling\n"])


def meta_tokens(text):
    """-> name of the bag's file, lines of tokens"""
    m = re.search(r"relative_file_paths:\s*- ([^\n]*)", text)
    main = m.group(1).rstrip(" \r") if m else ""
    pat = re.compile((re.escape(main) + "|" if main else "") + r"type: \S+|\s|[^\s:]+|:")
    return main, [pat.findall(ln) for ln in text.split("\n")]


def canon(path):
    try:
        b = read_bag(path)
        if b is None:
            return None
        sch = {s[0]: s for s in b["sch"]}
        ch = {c[0]: (c[1], c[2], sorted(c[4].items()), sch[c[3]][1:] if c[3] else None) for c in b["ch"]}
        return repr((b["prof"], b["comp"], sorted((n, sorted(m.items())) for n, m in b["meta"]), sorted(map(repr, ch.values())), sorted(repr(s[1:]) for s in b["sch"]), [(ch[m[0]],) + m[1:] for m in (b["msgs"][j] for j in reading_order(b))])).encode()
    except (IndexError, KeyError):
        return None


def kind_of(path):
    b = read_bag(path)
    sch = {s[0]: s[1].decode("latin1") for s in b["sch"]}
    ts = [sch.get(c[3]) for c in b["ch"]]
    return {"bag": 1, "raw": int(RAWT in ts), "comp": int(COMPT in ts)}


def bag_pool(exe, rng, d, n):
    """-> {(raw, comp): [paths]}"""
    pool = {}
    todo = []
    for j in range(n):
        viz = rng.random() < 0.6
        bag, items = rand_bag(rng, rng.choice([0, 1, 3, 6]), (lambda plain: viz_cloud(rng, {}, 0.25, plain)) if viz else (lambda plain: message(rng, prof={}, default=0.001, enc=LOSSY, comp=ZSTD, n=rng.choice([0, 1, 5]))), viz)
        by = {s[0]: s[1].decode("latin1") for s in bag["sch"]}
        if j % 4 < 3:  # only raw clouds (0, 1), no clouds (2)
            drop = {c[0] for c in bag["ch"] if by.get(c[3]) == COMPT or (j % 4 == 2 and by.get(c[3]) == RAWT)}
            bag["ch"] = [c for c in bag["ch"] if c[0] not in drop]
            bag["msgs"] = [m for m in bag["msgs"] if m[0] not in drop]
        else:
            for q, m in enumerate(bag["msgs"]):
                if by.get(next(c[3] for c in bag["ch"] if c[0] == m[0])) == COMPT:
                    todo.append((bag, q))
        pool.setdefault(j, bag)
    for (bag, q), c in zip(todo, run_ops(exe, [("compress", {"d": b["msgs"][q][4].hex(), "prof": "", "def": "%08x" % f32bits(0.001), "enc": LOSSY, "comp": ZSTD}) for b, q in todo])):
        m = bag["msgs"][q]
        bag["msgs"][q] = m[:4] + (bytes.fromhex(c["out"]),)
    out, ops = {}, []
    for j, bag in pool.items():
        p = os.path.join(d, "%d.mcap" % j)
        write_bag(p, bag, rng)
        k = kind_of(p)
        out.setdefault((k["raw"], k["comp"]), []).append(p)
        if (k["raw"], k["comp"]) == (1, 0):
            q = os.path.join(d, "%dc.mcap" % j)
            ops.append((q, ("bag", {"steps": "open:%s|enc:%s,%08x,2,0,-" % (p.encode().hex(), q.encode().hex(), f32bits(0.001))})))
    for (q, _), r in zip(ops, run_ops(exe, [o for _, o in ops])):
        if r.get("ok") and r["steps"].endswith("|ok"):
            out.setdefault((0, 1), []).append(q)
    for k in [(1, 0), (0, 1), (0, 0), (1, 1)]:
        if not out.get(k):
            raise Unexpected("no bag of the kind %s: the library refuses to compress" % (k,))
    return out


DIRS = [("r",), ("r", "bag"), ("r", "two"), ("r", "loose"), ("r", "hollow"), ("r", "out"), ("r", "work")]
FILES = [(("r", "bag"), "a", ".mcap", (1, 0)), (("r", "bag"), "metadata", ".yaml", "a"), (("r", "two"), "a", ".mcap", (1, 0)), (("r", "two"), "b", ".mcap", (1, 1)), (("r", "two"), "metadata", ".yaml", "a"), (("r", "loose"), "p", ".mcap", (1, 0)),
         (("r", "loose"), "q", ".mcap", (0, 1)), (("r", "loose"), "n", ".mcap", (0, 0)), (("r", "loose"), "m", ".mcap", (1, 1)), (("r", "loose"), "g", ".mcap", None), (("r", "loose"), "x", ".txt", None), (("r", "hollow"), "metadata", ".yaml", "a"), (("r", "out"), "here", ".mcap", (1, 0))]


class Base:
    """the directory one sequence of commands runs in"""

    def __init__(self, root, rng, names, dirs):
        self.root, self.rng, self.names = root, rng, names
        self.ids, self.links = {}, 0
        for d in dirs:
            os.makedirs(os.path.join(root, *map(self.name, d)))

    def name(self, s):
        return self.names.get(s, s)

    def place(self, p):
        return {"d": [self.name(x) for x in p["d"]], "s": self.name(p["s"]), "e": p["e"]}

    def path(self, p):
        return os.path.join(self.root, *p["d"], p["s"] + p["e"])

    def snapshot(self):
        fs, ds = [], []
        for at, dirs, files in os.walk(os.path.join(self.root, "r")):
            d = os.path.relpath(at, self.root).split(os.sep)
            ds.append(d)
            for f in sorted(files):
                i = f.rfind(".") if f.rfind(".") > 0 else len(f)
                fs.append({"p": {"d": d, "s": f[:i], "e": f[i:]}, "x": self.content(os.path.join(at, f))})
        return fs, ds

    def spell(self, path, cwd):
        r = self.rng.random()
        if r < 0.12:  # through a symbolic link to a directory
            whole = os.path.isdir(path) and r < 0.06
            at = path if whole else os.path.dirname(path)
            if os.path.isdir(at):
                self.links += 1
                ln = os.path.join(self.root, "l%d" % self.links)
                os.symlink(at, ln)
                path = ln if whole else os.path.join(ln, os.path.basename(path))
        if r < 0.4:
            return path
        rel = os.path.relpath(path, cwd)
        if r < 0.5:
            return "./" + rel
        if r < 0.6:
            return os.path.join(os.path.dirname(rel) or ".", ".", os.path.basename(rel))
        if r < 0.7 and os.path.isdir(os.path.dirname(path)):
            return os.path.join(os.path.dirname(path), "..", os.path.basename(os.path.dirname(path)), os.path.basename(path))
        return rel

    def opt(self, s, l, v):
        return self.rng.choice([["-" + s, v], ["-" + s + v] if v else ["-" + s, v], ["--%s=%s" % (l, v)], ["--" + l, v]])

    def typed(self, m):
        return self.rng.choice([m["ans"] + "\n", m["ans"], " " + m["ans"] + "es\n"]) if m["ans"] else ""


class World(Base):

    def __init__(self, root, rng, pool, names):
        super().__init__(root, rng, names, DIRS)
        self.kinds, self.texts = [], []
        os.makedirs(os.path.join(root, "prof"))
        for d, s, e, what in FILES:
            p = os.path.join(root, *map(self.name, d), self.name(s) + e)
            if e == ".yaml":
                open(p, "w", newline="").write(metadata_text(rng, self.name(what) + ".mcap"))
            elif what is None:
                open(p, "wb").write(rng.choice([b"", b"BAG", b"\x89MCAP0\r\n", rng.randbytes(30)]))
            else:
                shutil.copy(rng.choice(pool[what]), p)
        good = profile_text(rng, False)
        while len(good) < 300:
            good += ";" + profile_text(rng, False)
        one = profile_text(rng, False)
        several = ";\n".join(profile_text(rng, False) for _ in range(3))
        self.prof = {"text": profile_text(rng, False), "long": good, "file": re.sub(r"\s", "", one), "lines": several, "bad": profile_text(rng, True)}
        self.arg = dict(self.prof)
        for k in ("file", "lines"):
            p = os.path.join(root, "prof", rng.choice(["p.txt", "profile", "a b"]) + k)
            open(p, "w").write(self.prof[k] + ("" if k == "file" and rng.random() < 0.5 else "\n"))
            self.arg[k] = p

    def content(self, path):
        """number of what the file has in it"""
        raw = open(path, "rb").read()
        c = canon(path) if path.endswith(".mcap") else None
        key = (b"B" + c) if c is not None else b"F" + raw
        if key not in self.ids:
            n = self.ids[key] = str(len(self.ids) + 1)
            self.kinds.append({"x": n, **(kind_of(path) if c is not None else {"bag": 0, "raw": 0, "comp": 0})})
            if path.endswith("metadata.yaml"):
                main, lines = meta_tokens(raw.decode(errors="surrogateescape"))
                self.texts.append({"x": n, "main": main, "lines": lines})
        return self.ids[key]

    def command(self, m):
        rng = self.rng
        cwd = os.path.join(self.root, *m["cwd"])
        opt = self.opt
        parts = []
        if m["help"]:
            parts.append([rng.choice(["-h", "--help"])])
        if m["junk"]:
            parts.append([rng.choice(["--frobnicate", "-q", "--compres"])])
        if m["hasf"]:
            f = self.spell(self.path(m["f"]), cwd)
            parts.append(opt("f", "filename", f + (rng.choice(["", "", "/"]) if os.path.isdir(self.path(m["f"])) else "")))
        if m["hasout"]:
            parts.append(opt("o", "output", self.spell(self.path(m["out"]), cwd)))
        for k, s, l in [("enc", "-c", "--compress"), ("dec", "-d", "--decode"), ("yes", "-y", "--yes")]:
            if m[k]:
                parts.append([rng.choice([s, l])])
        if m["viz"]:
            parts.append(["--viz"])
        if m["res"] != "-":
            parts.append(opt("r", "resolution", m["res"]))
        if m["method"] != "zstd" or rng.random() < 0.4:
            parts.append(opt("m", "method", m["method"]))
        if m["prof"] != "none":
            a = self.arg[m["prof"]]
            if m["prof"] in ("file", "lines") and rng.random() < 0.5:
                a = os.path.relpath(a, cwd)
            parts.append(rng.choice([["--profile", a], ["--profile=" + a]]))
        if rng.random() < 0.2:
            parts.append([rng.choice(["-s", "--stats"])])
        rng.shuffle(parts)
        return [a for p in parts for a in p], cwd, self.typed(m)

    def source(self, m):
        p = self.path(m["f"])
        if os.path.isdir(p):
            in_ = [f for f in os.listdir(p) if f.endswith(".mcap")]
            return os.path.join(p, in_[0]) if len(in_) == 1 else None
        return p if os.path.isfile(p) and p.endswith(".mcap") else None


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000", LC_ALL="C.UTF-8")


def launch(tool, jobs):
    """jobs: [(args, cwd, typed)] -> [(exit status or None after a minute, what it said)]"""
    from concurrent.futures import ThreadPoolExecutor

    def run(j):
        try:
            r = subprocess.run([tool] + j[0], cwd=j[1], input=j[2].encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=60)
            return r.returncode, r.stdout.decode("latin1")
        except subprocess.TimeoutExpired:
            return None, "timeout"
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(run, jobs))


def crashed(rc, text):
    return int(rc is None or rc < 0 or "AddressSanitizer" in text)


def rename(rng, keys, often=0.6):
    names = {}
    if rng.random() < often:
        stems = RANDOM_STEM[:]
        rng.shuffle(stems)
        for k, s in zip(keys, stems):
            if rng.random() < 0.7:
                names[k] = s.decode()
    return names


TX = {"Crash": "it crashes", "Changed": "files are changed that must not be", "Status": "wrong exit status", "Refused": "it does not convert", "Missing": "there is no output file", "Lost": "a file is gone", "Content": "the output is not the converted bag", "Extra": "other files than the ones to be written",
      "Metadata": "the metadata of the converted bag is wrong"}


def c27(chk):
    rng = chk.rng
    exe = build_bagdrv()
    tool = build_tool("bagtool", ["cloudini_rosbag_converter.cpp", "mcap_converter.cpp"])
    hists = run_gen("CliGen", chk, {"CLI_MODE": "all", "CLI_LEN": "1"})
    if not THOROUGH:
        hists = rng.sample(hists, 500)
    hists += run_gen("CliGen", chk, {"CLI_MODE": "sim", "CLI_LEN": "5"}, simulate=1500 if THOROUGH else 250, length=5)
    d = tempfile.mkdtemp(prefix="cli-")
    try:
        pd = os.path.join(d, "pool")
        os.makedirs(pd)
        pool = bag_pool(exe, rng, pd, 48)
        worlds, cases = [], []
        for j, h in enumerate(hists):
            names = rename(rng, ["a", "b", "p", "q", "n", "bag", "loose", "here"])
            if "bag" in names:  # what a run on it leaves
                names["bag_encoded"], names["bag_decoded"] = names["bag"] + "_encoded", names["bag"] + "_decoded"
            w = World(os.path.join(d, "%d" % j), rng, pool, names)
            fs, ds = w.snapshot()
            worlds.append(w)
            cases.append({"dirs": ds, "files": fs, "runs": [], "bad": ["bad"], "cmds": []})
        for step in range(max(map(len, hists))):
            live = [j for j, h in enumerate(hists) if len(h) > step]
            refs, cmds = {}, {}
            for j in live:
                w = worlds[j]
                m = {k: v for k, v in hists[j][step].items()}
                m["f"], m["out"], m["cwd"] = w.place(m["f"]), w.place(m["out"]), [w.name(x) for x in m["cwd"]]
                src = w.source(m)
                if src and m["enc"] != m["dec"] and canon(src) is not None:
                    o = os.path.join(w.root, "ref.mcap")
                    p = ["prof:" + w.prof[m["prof"]].encode().hex()] if m["enc"] and m["prof"] != "none" else []
                    p += ["open:" + src.encode().hex()]
                    wc = {"zstd": ZSTD, "none": CNONE}.get(m["method"], ZSTD)
                    p += ["enc:%s,%08x,%d,%d,-" % (o.encode().hex(), f32bits(0.001 if m["res"] == "-" else float(m["res"])), wc, m["viz"]) if m["enc"] else "dec:%s,-,%d,0,-" % (o.encode().hex(), wc)]
                    refs[j] = (src, o, ("bag", {"steps": "|".join(p)}))
                cmds[j] = (m,) + w.command(m)
            conv = {}
            for j, r in zip(refs, run_ops(exe, [refs[j][2] for j in refs])):
                src, o, _ = refs[j]
                if not r.get("ok"):
                    chk.violation("converting a bag: %s" % r, refs[j][2][1])
                    continue
                conv[j] = (worlds[j].content(src), worlds[j].content(o) if r["steps"].endswith("|ok") else "fails")
                if os.path.exists(o):
                    os.unlink(o)

            for j, (rc, text) in zip(live, launch(tool, [cmds[j][1:] for j in live])):
                w, (m, args, cwd, typed) = worlds[j], cmds[j]
                fs, ds = w.snapshot()
                crash = 0 if m["junk"] and rc else crashed(rc, text)
                src, out = conv.get(j, ("none", "none"))
                cases[j]["runs"].append({"m": m, "code": int(rc != 0), "crash": crash, "files": fs, "dirs": ds, "src": src, "conv": out})
                cases[j]["cmds"].append({"args": args, "cwd": cwd, "typed": typed, "said": text[-600:]})
        for w, c in zip(worlds, cases):
            c["kinds"], c["texts"] = w.kinds, w.texts
        verd, s = judge("CliTrace", [{k: v for k, v in c.items() if k != "cmds"} for c in cases])
        chk.add_stats(s)
        chk.traces(len(cases))
        for v, c, w in zip(verd, cases, worlds):
            chk.count("commands", len(c["runs"]))
            chk.count("successful_runs", sum(1 for r in c["runs"] if r["code"] == 0))
            if v[0] == "NoReference":
                raise CheckError("no reference for %s" % c["runs"][v[1] - 2])
            if v[0] != "ok":
                k = v[1] - 1
                chk.violation("%s: %s" % (TX[v[0]], str(c["cmds"][k]).replace(w.root, "")), {"before": [c["cmds"][i]["args"] for i in range(k)], "command": c["cmds"][k], "run": c["runs"][k], "had": c["runs"][k - 1]["files"] if k else c["files"], "texts": c["texts"]})
        chk.sample({"commands": [c["args"] for c in cases[-1]["cmds"]]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- C28: pcd_to_cloudini_converter
PDIRS = [("r",), ("r", "pcds"), ("r", "one"), ("r", "empty"), ("r", "out"), ("r", "work")]
PFILES = [(("r", "pcds"), "a", ".pcd", "good"), (("r", "pcds"), "b", ".pcd", "good"), (("r", "pcds"), "bad", ".pcd", "bad"), (("r", "pcds"), "b", ".cldn", "old"), (("r", "pcds"), "note", ".txt", "old"), (("r", "one"), "x", ".pcd", "good"),
          (("r", "one"), "z", ".pcd", "good"), (("r", "out"), "here", ".cldn", "old")]
PCDT = {I8: ("I", 1), U8: ("U", 1), I16: ("I", 2), U16: ("U", 2), I32: ("I", 4), U32: ("U", 4), F32: ("F", 4), F64: ("F", 8), I64: ("I", 8), U64: ("U", 8)}
NOCLOUD = {"kind": "none", "dims": [], "fields": [], "enc": "", "comp": ""}


def pcd_file(rng):
    """-> info, points, bytes of the file"""
    types = [rng.choice([F32, F32, F32, rng.randint(1, 10)]) for _ in range(rng.randint(1, 6))]
    fs, step = layout([(t, 0.0001 if t == F32 else None) for t in types])
    names = ["x", "y", "z", "intensity", "ring", "t", "Intensity", "rgb"]
    if rng.random() < 0.5:
        rng.shuffle(names)
    for f, n in zip(fs, names):
        f.name = n
    w, h = rng.choice([(1, 1), (7, 1), (3, 4), (50, 1), (300, 1)])
    info = Info(fs, step, w, h, 5, LOSSY, ZSTD)
    data, _ = gen_points(rng, info, info.n)
    head = rng.choice(["# .PCD v.7 - Point Cloud Data file format\n", ""]) + "VERSION .7\nFIELDS %s\nSIZE %s\nTYPE %s\nCOUNT %s\nWIDTH %d\nHEIGHT %d\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %d\nDATA binary\n" % (
        " ".join(f.name for f in fs), " ".join(str(PCDT[f.type][1]) for f in fs), " ".join(PCDT[f.type][0] for f in fs), " ".join("1" for _ in fs), w, h, info.n)
    return info, data, head.encode() + data


def desc_of(info):
    nm = lambda f: (f.name if isinstance(f.name, bytes) else f.name.encode()).hex()
    return {"dims": [info.w, info.h, info.step], "fields": [{"name": nm(f), "off": f.off, "t": f.type} for f in info.fields]}


ENCS, COMPS = {NONE: "none", LOSSY: "lossy", LOSSLESS: "lossless"}, {CNONE: "none", LZ4: "lz4", ZSTD: "zstd"}


class PcdWorld(Base):
    def __init__(self, root, rng, pool, names):
        super().__init__(root, rng, names, PDIRS)
        self.clouds, self.pcds = [], {}
        self.known = pool
        for d, s, e, what in PFILES:
            with open(os.path.join(root, *map(self.name, d), self.name(s) + e), "wb") as f:
                f.write(rng.choice(list(pool)) if what == "good" else rng.choice([b"", b"not a pcd file\n", b"VERSION .7\nFIELDS x\n"]) if what == "bad" else rng.randbytes(rng.choice([0, 20, 5000])))
        self.new = []  # contents not looked into yet: (number, bytes)

    def content(self, path):
        raw = open(path, "rb").read()
        if raw not in self.ids:
            n = self.ids[raw] = str(len(self.ids) + 1)
            if raw in self.known:
                self.clouds.append({"x": n, **NOCLOUD, **desc_of(self.known[raw][0]), "kind": "pcd"})
                self.pcds[n] = self.known[raw]
            else:
                self.new.append((n, raw))
        return self.ids[raw]

    def command(self, m):
        rng = self.rng
        cwd = os.path.join(self.root, *m["cwd"])
        parts = [[rng.choice(["-h", "--help"])]] if m["help"] else []
        if m["hasb"]:
            parts.append(self.opt("b", "batch", self.spell(self.path(m["b"]), cwd) + rng.choice(["", "/"]) if os.path.isdir(self.path(m["b"])) else self.spell(self.path(m["b"]), cwd)))
        if m["hasf"]:
            parts.append(self.opt("f", "filename", self.spell(self.path(m["f"]), cwd)))
        if m["hasout"]:
            parts.append(self.opt("o", "output", self.spell(self.path(m["out"]), cwd)))
        if m["yes"]:
            parts.append([rng.choice(["-y", "--yes"])])
        for k, s, l, dflt in [("enc", "e", "encoding", "lossy"), ("comp", "c", "compression", "zstd"), ("res", "r", "resolution", "-"), ("ires", "i", "intensity-resolution", "-")]:
            if m[k] != dflt or (dflt != "-" and rng.random() < 0.3):
                parts.append(self.opt(s, l, m[k]))
        if rng.random() < 0.2:
            parts.append([rng.choice(["-v", "--verbose"])])
        rng.shuffle(parts)
        return [a for p in parts for a in p], cwd, (m["ans"] + "\n") * 4 if m["ans"] else ""


PTX = dict(TX, Content="an output file is not the described encoding of its PCD file", Missing="a file was not converted")


def c28(chk):
    rng = chk.rng
    exe = build_pcldrv()
    tool = build_tool("pcdtool", ["pcd_to_cloudini_converter.cpp"], pcl=True)
    hists = run_gen("PcdGen", chk, {"PCD_MODE": "all", "PCD_LEN": "1"})
    if not THOROUGH:
        hists = rng.sample(hists, 250)
    hists += run_gen("PcdGen", chk, {"PCD_MODE": "sim", "PCD_LEN": "4"}, simulate=1200 if THOROUGH else 150, length=4)
    d = tempfile.mkdtemp(prefix="pcdcli-")
    try:
        pool = {}
        for _ in range(120):
            info, data, raw = pcd_file(rng)
            pool[raw] = (info, data)
        worlds, cases, items, results = [], [], [], []
        for j, h in enumerate(hists):
            w = PcdWorld(os.path.join(d, "%d" % j), rng, pool, rename(rng, ["a", "b", "x", "z", "here", "pcds", "one"]))
            fs, ds = w.snapshot()
            worlds.append(w)
            cases.append({"dirs": ds, "files": fs, "runs": [], "cmds": []})
        for w in worlds:  # what was there before is no cloud
            w.clouds += [{"x": n, **NOCLOUD} for n, _ in w.new]
            w.new = []
        for step in range(max(map(len, hists))):
            live = [j for j, h in enumerate(hists) if len(h) > step]
            cmds = {}
            for j in live:
                w, m = worlds[j], dict(hists[j][step])
                m["f"], m["out"], m["b"], m["cwd"] = w.place(m["f"]), w.place(m["out"]), w.place(m["b"]), [w.name(x) for x in m["cwd"]]
                cmds[j] = (m,) + w.command(m)
            said = launch(tool, [cmds[j][1:] for j in live])
            look = []
            for j, (rc, text) in zip(live, said):
                w, (m, args, cwd, typed) = worlds[j], cmds[j]
                had = {json.dumps(f["p"]): f["x"] for f in (cases[j]["runs"][-1] if cases[j]["runs"] else cases[j])["files"]}
                fs, ds = w.snapshot()
                cases[j]["runs"].append({"m": m, "code": int(rc != 0), "crash": crashed(rc, text), "files": fs, "dirs": ds})
                cases[j]["cmds"].append({"args": args, "cwd": cwd, "typed": typed, "said": text[-600:]})
                look += [(j, n, raw) for n, raw in w.new]
                w.new = []
            decs = run_ops(exe, [("full", {"d": raw.hex(), "fill": 0}) for _, _, raw in look])
            got = {}
            for (j, n, raw), r in zip(look, decs):
                w = worlds[j]
                if not r.get("ok") or "info" not in r:
                    w.clouds.append({"x": n, **NOCLOUD})
                    continue
                g = parse_info(r["info"])
                w.clouds.append({"x": n, "kind": "cldn", **desc_of(g), "enc": ENCS.get(g.enc, "?"), "comp": COMPS.get(g.comp, "?")})
                got[j, n] = bytes.fromhex(r["out"])
            for j in live:  # the points, of every file written for a PCD file
                w, m, run = worlds[j], cmds[j][0], cases[j]["runs"][-1]
                at = {(tuple(f["p"]["d"]), f["p"]["s"], f["p"]["e"]): f["x"] for f in run["files"]}
                for (dd, s, e), x in list(at.items()):
                    if e != ".pcd" or x not in w.pcds:
                        continue
                    if m["hasb"]:
                        t = (dd, s, ".cldn")
                        mine = dd == tuple(m["b"]["d"] + [m["b"]["s"] + m["b"]["e"]])
                    else:
                        o = m["out"] if m["hasout"] else m["f"]
                        t = (tuple(o["d"]), o["s"], ".cldn")
                        mine = (list(dd), s, e) == (m["f"]["d"], m["f"]["s"], m["f"]["e"])
                    if not mine or (j, at.get(t)) not in got:
                        continue
                    info, data = w.pcds[x]
                    info = info.copy()
                    info.enc = {v: k for k, v in ENCS.items()}.get(m["enc"], LOSSY)
                    for f in info.fields:
                        r = m["ires"] if f.name == "intensity" else m["res"]
                        f.res = f32(0.001 if r == "-" else float(r)) if f.type == F32 and info.enc == LOSSY else None
                    out = got[j, at[t]]
                    items.append((info, data))
                    results.append(("ok" if len(out) == len(data) else "another size", out if len(out) == len(data) else None, None))
                    chk.count("files_converted")
        for w, c in zip(worlds, cases):
            c["clouds"] = w.clouds
        verd, s = judge("PcdTrace", [{k: v for k, v in c.items() if k != "cmds"} for c in cases])
        chk.add_stats(s)
        chk.traces(len(cases))
        for v, c, w in zip(verd, cases, worlds):
            chk.count("commands", len(c["runs"]))
            if v[0] != "ok":
                k = v[1] - 1
                chk.violation("%s: %s" % (PTX[v[0]], str(c["cmds"][k]).replace(w.root, "")), {"before": [c["cmds"][i]["args"] for i in range(k)], "command": c["cmds"][k], "run": c["runs"][k], "had": c["runs"][k - 1]["files"] if k else c["files"], "clouds": c["clouds"]})
        judge_rt(chk, items, results, "converted PCD file", {"Exact", "HalfStep", "NaNKept"})
        chk.sample({"commands": [c["args"] for c in cases[-1]["cmds"]]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- C29: mcap_cutter and mcap_header_inspector
from header import rand_desc

CDIRS = [("r",), ("r", "in"), ("r", "out"), ("r", "work")]
CFILES = [(("r", "in"), "p", ".mcap", "raw"), (("r", "in"), "q", ".mcap", "comp"), (("r", "in"), "n", ".mcap", "none"), (("r", "in"), "m", ".mcap", "mixed"), (("r", "in"), "g", ".mcap", "bad"), (("r", "in"), "x", ".txt", "bad"), (("r", "out"), "here", ".mcap", "raw")]
TYPE_NAMES = "? INT8 UINT8 INT16 UINT16 INT32 UINT32 FLOAT32 FLOAT64 INT64 UINT64".split()
NOBAG = {"bag": 0, "ch": [], "msgs": []}


def described(i, topic, time, size, dsize):
    """what the inspector has to say about a message with this header"""
    return [topic.decode("latin1"), str(time), str(size), str(dsize)] + [str(x) for x in (i.ver, i.w, i.h, i.step, i.w * i.h, i.w * i.h * i.step)] + [["NONE", "LOSSY", "LOSSLESS"][i.enc], ["NONE", "LZ4", "ZSTD"][i.comp], str(len(i.fields))] + \
        [x for f in i.fields for x in (f.name.decode("latin1"), str(f.off), TYPE_NAMES[f.type], "%g" % (1.0 if f.res is None else f.res))]


SAID = [r"^Topic: (.*)$", r"^Timestamp: (\d+) ns", r"^Message size: (\d+) bytes", r"^Compressed data size: (\d+) bytes", r"^Version: (\d+)", r"^Width: (\d+)", r"^Height: (\d+)", r"^Point step: (\d+)", r"^Total points: (\d+)", r"^Total data size: (\d+)", r"^Encoding option: (\w+)", r"^Compression option: (\w+)", r"^Number of fields: (\d+)"]


def heard(text):
    out = []
    for p in SAID:
        m = re.search(p, text, re.M)
        out.append(m.group(1) if m else "?")
    return out + [x for m in re.finditer(r"^\s+Name: (.*)\n\s+Offset: (\d+)\n\s+Type: (\w+)\n\s+Resolution: (\S+)$", text, re.M) for x in m.groups()]


def comp_message(rng, exe, pool):
    """a compressed message: -> bytes, its header, number of payload bytes (or nothing for what cannot be read)"""
    i, hdr = rng.choice(pool)
    pay = hdr + rng.randbytes(rng.choice([0, 3, 40]))
    k = rng.random()
    if k < 0.08:
        pay = b""
    elif k < 0.14:
        pay = pay[:rng.randrange(len(hdr))]
    fs = [(f.name, f.off, f.type, 1) for f in i.fields] if rng.random() < 0.5 else [(b"other", 3, 2, 1)]
    m, _ = write_msg({"sec": rng.randbytes(4), "nsec": bytes(4), "frame": rng.choice([b"", b"map"]), "h": rng.choice([1, i.h]), "w": rng.choice([i.w, 7]), "fields": fs, "step": rng.choice([i.step, 9]), "row": 0, "dense": 1}, pay)
    w = W()
    w.o[:] = m
    w.s(b"cloudini")
    m = bytes(w.o)
    if 0.14 <= k < 0.2:
        return m[:rng.randrange(len(m) - len(pay) - 12)], None, 0
    return m, (i if k >= 0.14 else None), len(pay)


def cut_pool(exe, rng, d, n):
    """-> {kind: [paths]}, {bytes of a compressed message: header and payload size}"""
    infos = []
    for k in range(60):
        i = rand_desc(rng, False)
        i.w, i.h, i.step = rng.choice([(100, 1, 16), (640, 480, 32), (1, 1, 4), (0, 1, 12), (1, 70000, 20), (7, 0, 8)])
        for j, f in enumerate(i.fields):
            f.name = b"%s%d" % (rng.choice([b"x", b"y", b"intensity", b"a_b"]), j)
        infos.append((i, k % 3 != 0))
    heads = []
    for (i, y), r in zip(infos, run_ops(exe, [("enchdr", {"info": i.s(), "yaml": int(y), "pre": 0}) for i, y in infos])):
        if r.get("ok"):
            heads.append((i, bytes.fromhex(r["out"])))
    if not heads:
        raise Unexpected("no header can be written")
    out, msgs = {}, {}
    for j in range(n):
        bag, _ = rand_bag(rng, rng.choice([0, 2, 6, 15, 15, 30]), lambda plain: message(rng, prof={}, default=0.001, enc=LOSSY, comp=ZSTD, n=1), False)
        by = {s[0]: s[1].decode("latin1") for s in bag["sch"]}
        want = ["raw", "comp", "none", "mixed"][j % 4]
        gone = {"raw": {COMPT}, "comp": {RAWT}, "none": {RAWT, COMPT}, "mixed": set()}[want]
        if want == "comp" and rng.random() < 0.6 or want == "mixed" and COMPT not in by.values():  # clouds of the other kind
            bag["sch"] = [(s[0], COMPT.encode(), b"ros2msg", COMPDEF) if s[1].decode("latin1") == RAWT and (want == "comp" or rng.random() < 0.6) else s for s in bag["sch"]]
            by = {s[0]: s[1].decode("latin1") for s in bag["sch"]}
        drop = {c[0] for c in bag["ch"] if by.get(c[3]) in gone}
        bag["ch"] = [c for c in bag["ch"] if c[0] not in drop]
        bag["msgs"] = [m for m in bag["msgs"] if m[0] not in drop]
        if rng.random() < 0.5:  # several channels of one topic
            ts = [rng.choice([b"/points", b"/lidar"]) for _ in range(rng.choice([1, 2]))]
            bag["ch"] = [(c[0], rng.choice(ts)) + c[2:] for c in bag["ch"]]
        sch = {c[0]: by.get(c[3]) for c in bag["ch"]}
        for q, m in enumerate(bag["msgs"]):
            if sch[m[0]] == COMPT:
                b, i, size = comp_message(rng, exe, heads)
                msgs[b] = (i, size)
                bag["msgs"][q] = m[:4] + (b,)
            elif sch[m[0]] == RAWT and rng.random() < 0.2:
                bag["msgs"][q] = m[:4] + (rng.randbytes(rng.choice([0, 1, 30])),)  # the cutter does not look into them
        p = os.path.join(d, "%d.mcap" % j)
        write_bag(p, bag, rng)
        ts = {by.get(c[3]) for c in bag["ch"]}
        out.setdefault("mixed" if {RAWT, COMPT} <= ts else "raw" if RAWT in ts else "comp" if COMPT in ts else "none", []).append(p)
    return out, msgs


class CutWorld(Base):
    def __init__(self, root, rng, pool, msgs, names):
        super().__init__(root, rng, names, CDIRS)
        self.bags, self.descs, self.msgs = [], [], msgs
        for d, s, e, what in CFILES:
            p = os.path.join(root, *map(self.name, d), self.name(s) + e)
            if what == "bad":
                open(p, "wb").write(rng.choice([b"", b"BAG", b"\x89MCAP0\r\n", rng.randbytes(30)]))
            else:
                shutil.copy(rng.choice(pool[what]), p)

    def content(self, path):
        raw = open(path, "rb").read()
        if raw in self.ids:
            return self.ids[raw]
        n = self.ids[raw] = str(len(self.ids) + 1)
        try:
            b = read_bag(path)
        except IndexError:
            b = None
        if b is None:
            self.bags.append({"x": n, "bag": NOBAG})
            return n
        sch = {s[0]: s for s in b["sch"]}
        ch, at = [], {}
        for c in b["ch"]:
            s = sch.get(c[3], (0, b"", b"", b""))
            name = s[1].decode("latin1")
            kind = "comp" if name == COMPT else "raw" if name == RAWT and s[2] == b"ros2msg" and norm_def(s[3]) == norm_def(RAWDEF) else "other"
            ch.append({"d": repr((b["prof"], c[1], c[2], sorted(c[4].items()))), "kind": kind})
            at[c[0]] = len(ch)
        order = [b["msgs"][j] for j in reading_order(b)]
        self.bags.append({"x": n, "bag": {"bag": 1, "ch": ch, "msgs": [{"ch": at.get(m[0], 0), "d": repr(m[1:])} for m in order]}})
        m = next((m for m in order if at.get(m[0]) and ch[at[m[0]] - 1]["kind"] == "comp"), None)
        if m is not None:
            i, size = self.msgs.get(m[4], (None, 0))
            topic = next(c[1] for c in b["ch"] if c[0] == m[0])
            self.descs.append({"x": n, "ok": int(i is not None), "d": described(i, topic, m[2], len(m[4]), size) if i else []})
        return n

    def command(self, m):
        rng = self.rng
        cwd = os.path.join(self.root, *m["cwd"])
        parts = [[rng.choice(["-h", "--help"])]] if m["help"] else []
        if m["hasf"]:
            parts.append(self.opt("f", "filename", self.spell(self.path(m["f"]), cwd)))
        if not m["insp"]:
            if m["hasout"]:
                parts.append(self.opt("o", "output", self.spell(self.path(m["out"]), cwd)))
            if m["n"] != 1000 or rng.random() < 0.2:
                parts.append(self.opt("n", "max-messages", str(m["n"])))
        rng.shuffle(parts)
        return [a for p in parts for a in p], cwd, ""


CUTX = dict(TX, Content="the output is not the cut of its input", Refused="it does not cut", Description="what is printed is not what the header of the first compressed message says")


def c29(chk):
    rng = chk.rng
    exe = build_rosdrv()
    tools = [build_tool("cuttool", ["mcap_cutter.cpp"]), build_tool("insptool", ["mcap_header_inspector.cpp"])]
    hists = run_gen("CutGen", chk, {"CUT_MODE": "all", "CUT_LEN": "1"})
    if not THOROUGH:
        hists = rng.sample(hists, 350)
    hists += run_gen("CutGen", chk, {"CUT_MODE": "sim", "CUT_LEN": "5"}, simulate=1500 if THOROUGH else 250, length=5)
    d = tempfile.mkdtemp(prefix="cutcli-")
    try:
        pd = os.path.join(d, "pool")
        os.makedirs(pd)
        pool, msgs = cut_pool(exe, rng, pd, 120)
        worlds, cases = [], []
        for j, h in enumerate(hists):
            w = CutWorld(os.path.join(d, "%d" % j), rng, pool, msgs, rename(rng, ["p", "q", "n", "m", "here", "o"]))
            fs, ds = w.snapshot()
            worlds.append(w)
            cases.append({"dirs": ds, "files": fs, "runs": [], "cmds": []})
        for step in range(max(map(len, hists))):
            live = [j for j, h in enumerate(hists) if len(h) > step]
            cmds = {}
            for j in live:
                w, m = worlds[j], dict(hists[j][step])
                m["f"], m["out"], m["cwd"] = w.place(m["f"]), w.place(m["out"]), [w.name(x) for x in m["cwd"]]
                cmds[j] = (m,) + w.command(m)
            for which in (0, 1):
                mine = [j for j in live if cmds[j][0]["insp"] == which]
                for j, (rc, text) in zip(mine, launch(tools[which], [cmds[j][1:] for j in mine])):
                    w, (m, args, cwd, _) = worlds[j], cmds[j]
                    fs, ds = w.snapshot()
                    cases[j]["runs"].append({"m": m, "code": int(rc != 0), "crash": crashed(rc, text), "files": fs, "dirs": ds, "said": heard(text)})
                    cases[j]["cmds"].append({"tool": ["mcap_cutter", "mcap_header_inspector"][which], "args": args, "cwd": cwd, "said": text[-1500:]})
        for w, c in zip(worlds, cases):
            c["bags"], c["descs"] = w.bags, w.descs
        verd, s = judge("CutTrace", [{k: v for k, v in c.items() if k != "cmds"} for c in cases])
        chk.add_stats(s)
        chk.traces(len(cases))
        for v, c, w in zip(verd, cases, worlds):
            chk.count("commands", len(c["runs"]))
            chk.count("successful_runs", sum(1 for r in c["runs"] if r["code"] == 0))
            if v[0] != "ok":
                k = v[1] - 1
                chk.violation("%s: %s" % (CUTX[v[0]], str(c["cmds"][k]).replace(w.root, "")), {"before": [c["cmds"][i]["args"] for i in range(k)], "command": c["cmds"][k], "run": c["runs"][k], "had": c["runs"][k - 1]["files"] if k else c["files"], "bags": c["bags"], "descs": c["descs"]})
        chk.sample({"commands": [c["args"] for c in cases[-1]["cmds"]]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
