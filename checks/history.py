"""C07: reused encoders and decoders, histories from and judged by History.tla."""
import hashlib, re
from wire import *
from codec import rand_info, rand_types, big_item, variant
from wirechk import mutate

NCALL = 16


def histories(rng):
    def parse(r):
        out = []
        for p in r.prints:
            m = re.match(r'<<"H", (.*)>>$', p)
            if m:
                out.append([int(x) for x in re.findall(r"\d+", m[1])])
        return out
    r2 = tlc("History", cfg="HistoryGen3.cfg" if THOROUGH else "HistoryGen2.cfg", workers=1)
    h2 = parse(r2)
    r9 = tlc("History", cfg="HistoryGen9.cfg", workers=1, simulate="num=%d" % (6000 if THOROUGH else 500), extra=["-seed", str(SEED), "-depth", "12"])
    h9 = parse(r9)
    if len(h2) < 200 or len(h9) < 100:
        raise CheckError("History gave too few histories: %d %d" % (len(h2), len(h9)))
    return h2, h9, {"states": r2.states, "transitions": r2.generated + r9.generated}


class Config:
    """one encoder description, three clouds, another description, damaged payloads"""

    def __init__(self, rng, exe, big):
        for _ in range(50):
            if big:
                info, data = big_item(rng, rng.choice([CHUNK + 1, 40000]))
                d2 = gen_points(rng, info, rng.choice([5, 4097, 2 * CHUNK + 9]))[0]
                d3 = gen_points(rng, info, rng.choice([0, 1, 300]))[0]
                info.comp = rng.choice([CNONE, LZ4, ZSTD, ZSTD])
            else:
                info = rand_info(rng)
                info.comp = rng.choice([CNONE, LZ4, ZSTD])
                data, d2, d3 = [gen_points(rng, info, n)[0] for n in (rng.choice([1, 20, 200]), rng.choice([0, 3, 100]), rng.choice([7, 64, 300]))]
            info.thr = rng.random() < 0.6
            if info.fields:
                break
        self.info, self.clouds = info, [data, d2, d3]
        other = rand_info(rng)
        while other.n == 0:
            other = rand_info(rng)
        o2 = variant(rng, self.dims(info, d2 if len(d2) else data))
        self.others = [(other, gen_points(rng, other, other.n)[0]), (o2, gen_points(rng, o2, o2.n)[0])]
        r = run_ops(exe, [("once", {"info": self.dims(info, d).s(), "d": d.hex()}) for d in self.clouds] + [("once", {"info": i.s(), "d": d.hex()}) for i, d in self.others])
        fr = run_ops(exe, [("full", {"d": x.get("out", "")}) for x in r])
        self.ok = all(x.get("ok") for x in r) and all("hdrlen" in x for x in fr)
        if not self.ok:
            return
        self.pay = [bytes.fromhex(x["out"])[y["hdrlen"]:] for x, y in zip(r, fr)]
        full = next((k for k in range(3) if len(self.pay[k])), 0)
        self.damaged = mutate(rng, self.pay[full])
        self.dk = full
        self.cut = self.pay[full][:max(0, len(self.pay[full]) - rng.randint(1, 5))]
        self.small = rng.randint(0, 40)
        self.pad = rng.choice([0, 0, 9])

    def dims(self, info, data):
        return info.copy(w=len(data) // info.step, h=1)

    def op(self, call, enc, dec, vec):
        i = self.info
        if 1 <= call <= 3:
            a = ("encv", {"o": enc, "d": self.clouds[call - 1].hex()})
            if vec:
                a[1]["v"] = vec
            return a
        if call <= 6:
            d = self.clouds[call - 4]
            n = len(d) // i.step
            return ("encb", {"o": enc, "d": d.hex(), "cap": n * sum(12 for f in i.fields) * 2 + 8192 + 64 * len(i.fields), "hdr": call % 2, "fill": 7})
        if call == 7:
            return ("encb", {"o": enc, "d": (self.clouds[0] + b"\1" * (i.step + 1))[:len(self.clouds[0]) + (1 if i.step > 1 else 0)].hex(), "cap": 0 if i.step == 1 else len(self.clouds[0]) * 30 + 20000, "hdr": 1})
        if call == 8:
            return ("encb", {"o": enc, "d": self.clouds[0].hex(), "cap": self.small if self.clouds[0] else 0, "hdr": 1})
        if call <= 11:
            k = call - 9
            di = self.dims(i, self.clouds[k])
            return ("dec", {"o": dec, "info": di.s(), "d": self.pay[k].hex(), "osz": di.n * di.step + self.pad, "fill": 0x33})
        if call <= 13:
            oi, od = self.others[call - 12]
            return ("dec", {"o": dec, "info": oi.s(), "d": self.pay[3 + call - 12].hex(), "osz": oi.n * oi.step, "fill": 0x44})
        di = self.dims(i, self.clouds[self.dk])
        if call == 14:
            return ("dec", {"o": dec, "info": di.s(), "d": self.damaged.hex(), "osz": di.n * di.step, "fill": 0x55})
        if call == 15:
            return ("dec", {"o": dec, "info": di.s(), "d": self.cut.hex(), "osz": di.n * di.step, "fill": 0x55})
        return ("dec", {"o": dec, "info": di.s(), "d": self.pay[self.dk].hex(), "osz": max(0, di.n * di.step - 1), "fill": 0x55})


def outcome(call, r):
    """What counts as the outcome of a call: bytes and size on success, the refusal otherwise."""
    if r.get("ex") in ("crash", "skipped", "other"):
        return r["ex"]
    if not r.get("ok"):
        return "throw"
    k = "%s|%s" % (r.get("n"), r.get("out")) if call <= 8 else r.get("out")
    return "ok:" + hashlib.sha256(str(k).encode()).hexdigest()[:24]


def c07(chk):
    exe = build_cldrv()
    rng = chk.rng
    h2, h9, st0 = histories(rng)
    chk.add_stats(st0)
    nconf = 60 if THOROUGH else 14
    confs = []
    for k in range(nconf):
        c = Config(rng, exe, big=k % 4 == 3)
        if not c.ok:
            chk.violation("encoding or reading a cloud of the history failed; %s" % json.dumps(c.info.brief()), {"info": c.info.s()})
            continue
        confs.append(c)
    sess, fresh_sess, runs = [], [], []
    sid = 0
    for ci, c in enumerate(confs):
        big = ci % 4 == 3
        fs = []
        for call in range(1, NCALL + 1):
            nm = "f%d.%d" % (ci, call)
            o, a = c.op(call, nm, "", None)
            s = ([(nm + "n", "newenc", {"o": nm, "info": c.info.s()})] if call <= 8 else []) + [(nm, o, a)] + ([(nm + "x", "delenc", {"o": nm})] if call <= 8 else [])
            fresh_sess.append(s)
        hs = list(rng.sample(h9, min(len(h9), (200 if THOROUGH else 40) if not big else (40 if THOROUGH else 10))))
        two = list(h2)
        rng.shuffle(two)
        two = two[:len(two) if not big and not THOROUGH else (1200 if not big else 300)]
        if big and not THOROUGH:
            two = two[:12]
        # short histories glued into longer ones: every pair / triple still occurs
        if not big:
            while two:
                hs.append(sum(two[:4], []))
                two = two[4:]
        else:
            hs += two
        for h in hs:
            sid += 1
            nm = "s%d" % sid
            s = [(nm + "n", "newenc", {"o": nm, "info": c.info.s()}), (nm + "d", "newdec", {"o": nm}), (nm + "v", "setvec", {"v": nm, "d": "77" * rng.choice([0, 5, 3000])})]
            s += [("%s.%d" % (nm, j),) + c.op(call, nm, nm, nm) for j, call in enumerate(h)]
            s += [(nm + "x", "delenc", {"o": nm}), (nm + "y", "deldec", {"o": nm}), (nm + "z", "setvec", {"v": nm, "d": ""})]
            sess.append(s)
            runs.append((ci, nm, h))
    fr = run_sessions(exe, fresh_sess, timeout=60)
    rr = run_sessions(exe, sess, timeout=60)
    fresh = [[outcome(call, fr["f%d.%d" % (ci, call)]) for call in range(1, NCALL + 1)] for ci in range(len(confs))]
    for ci, f in enumerate(fresh):
        for call, o in enumerate(f, 1):
            if call in (1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13) and not o.startswith("ok"):
                chk.violation("call %d fails on a new object (%s); %s" % (call, o, json.dumps(confs[ci].info.brief())), {"info": confs[ci].info.s()})
    cases = [{"fresh": fresh[ci], "ops": [{"call": call, "out": outcome(call, rr["%s.%d" % (nm, j)])} for j, call in enumerate(h)]} for ci, nm, h in runs]
    verd, st = judge("History", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    chk.count("histories", len(cases))
    chk.count("calls", sum(len(c["ops"]) for c in cases))
    for v, (ci, nm, h), cs in zip(verd, runs, cases):
        if v[0] != "ok":
            c = confs[ci]
            got = cs["ops"][v[2] - 1]["out"]
            chk.violation("call %d of the history %s does not give what a new object gives (%s instead of %s); %s" % (v[2], h, got, fresh[ci][v[1] - 1], json.dumps(c.info.brief())),
                          {"info": c.info.s(), "history": h, "clouds": [d.hex()[:20000] for d in c.clouds], "others": [[i.s(), d.hex()[:20000]] for i, d in c.others]})
    chk.sample({"history": runs[0][2], "info": confs[0].info.brief()})
