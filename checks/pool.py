"""C23: the clouds CloudiniSubscriberPCL hands out. PoolConc.tla models the pool and its lock
(model checked); PoolGen.tla enumerates histories of one user, replayed on the real subscriber
under AddressSanitizer and judged by PoolTrace.tla; under the controlled scheduler other threads
let go of the clouds, every memory access of the subscriber's code is watched, and PoolSched.tla
judges what was recorded."""
from rosmsg import *
from pcl import real_of
from node import compress_args

MUTANTS = ["nolock", "rawpool", "noclear", "leak"]
TX = {"Construct": "the subscription is not the specified one, or the received message was modified", "Bad": "something is delivered for a malformed message", "Escaped": "an exception leaves the subscriber", "Silent": "a malformed message is not reported",
      "Ghost": "a message is delivered after the destruction of the subscriber", "Delivered": "a message is not delivered exactly once", "Shared": "a cloud that is held is handed out again", "Content": "the delivered cloud is not the cloud of the message",
      "Changed": "a cloud changed while it was held", "Memory": "more storage is kept than four idle clouds need", "Leak": "storage is not released", "race": "unsynchronised accesses of two threads", "released": "released storage is accessed",
      "released twice": "storage is released twice", "hang": "deadlock, crash, or no end"}


def build_poolsched():
    r = os.path.join(os.path.dirname(LIBDIR), "cloudini_ros")
    sub = os.path.join(r, "src", "cloudini_subscriber_pcl.cpp")
    drv = os.path.join(VERIF, "harness", "poolsched.cpp")
    return build("poolsched", [sub, drv] + lib_sources(pcl=True) + [os.path.join(VERIF, "harness", "tsanrt.cpp")], asan=False, fine={sub: ["-fsanitize=thread"], drv: ["-fsanitize=thread"]},
                 flags=["-I/usr/include/pcl-1.14", "-I/usr/include/eigen3"], incs=NODEINCS, link=["-lpcl_common", "-lpcl_io", "-ldl", "-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release"], deps=tree_files(r))


def model(chk):
    r = tlc("PoolConc")
    if r.violated:
        raise CheckError("PoolConc itself is violated:\n" + r.out[-3000:])
    chk.add_stats({"states": r.states, "transitions": r.generated})
    chk.count("model_states", r.states)
    if THOROUGH:
        src = open(os.path.join(SPEC, "PoolConc.cfg")).read()
        for v in MUTANTS + ["big"]:
            name = "PoolConc_%s.cfg" % v
            p = os.path.join(SPEC, name)
            with open(p, "w") as f:
                f.write(src.replace('"ok"', '"%s"' % v) if v != "big" else src.replace("MaxMsgs = 4", "MaxMsgs = 6").replace("MaxObj = 4", "MaxObj = 6").replace("{t1, t2}", "{t1, t2, t3}").replace("PROPERTY Ends", ""))
            try:
                if tlc("PoolConc", cfg=name, timeout=600).violated != (v != "big"):
                    raise CheckError("PoolConc and the protocol mistake %s do not agree" % v)
            finally:
                os.unlink(p)


def generated(slots, length, simulate=0, seed=1):
    env = {"POOL_SLOTS": str(slots), "POOL_LEN": str(length)}
    if simulate:
        r = tlc("PoolGen", env=env, workers=1, simulate="num=%d" % simulate, extra=["-seed", str(seed), "-depth", str(length + 3)])
    else:
        r = tlc("PoolGen", env=env)
    if r.violated:
        raise CheckError("PoolGen: " + r.out[-2000:])
    out = []
    for p in r.prints:
        if p.startswith('<<"S"'):
            out.append([(k, int(s), int(t)) for k, s, t in re.findall(r'<<\\?"(\w)\\?", (\d+), (\d+)>>', p)])
    if not out:
        raise CheckError("PoolGen gave nothing\n" + r.out[-2000:])
    return out, r


def want_of(it):
    """what a message carries; weighed again by RoundTrip for the points"""
    info, m = it[0], it[1]
    sec, ns = int.from_bytes(m["sec"], "little", signed=True), int.from_bytes(m["nsec"], "little")
    return {"good": 1, "w": m["w"], "h": m["h"], "step": info.step, "row": m["w"] * info.step, "big": 0, "dense": m["dense"], "stamp": str((sec * 10 ** 6 + ns // 1000) % 2 ** 64), "seq": 0, "frame": m["frame"].hex(),
            "fields": [[f.name.hex() if isinstance(f.name, bytes) else f.name.encode().hex(), f.off, f.type, 1] for f in info.fields], "n": m["w"] * m["h"] * info.step}


NOTHING = {"good": 0, "w": 0, "h": 0, "step": 0, "row": 0, "big": 0, "dense": 0, "stamp": "", "seq": 0, "frame": "", "fields": [], "n": 0}


def content_of(s):
    p = s.split(",")
    return {"w": int(p[0]), "h": int(p[1]), "step": int(p[2]), "row": int(p[3]), "big": int(p[4]), "dense": int(p[5]), "stamp": p[6], "seq": int(p[7]), "frame": p[8],
            "fields": [[x.split(":")[0]] + [int(v) for v in x.split(":")[1:]] for x in p[9].split(";") if x], "n": len(p[10]) // 2}, bytes.fromhex(p[10])


def damaged(rng, comp, it):
    """a message nothing can be decoded from, as the cut or the header shows"""
    b = bytearray.fromhex(comp)
    k = rng.randrange(4)
    if k == 3 and it[0].w * it[0].h:  # points, but no payload
        return (write_msg(it[1], b"")[0] + b"\0" * rng.choice([0, 3]) + b"\x09\0\0\0cloudini\0").hex()
    k = min(k, 2)
    if k == 0:
        return bytes(b[:rng.randrange(0, min(len(b) - 1, end_of_fields(dict(it[1], fields=[it[1]["fields"][j] for j in kept_of([f[0] for f in it[1]["fields"]], it[4])]))))]).hex()
    at = b.find(b"CLOUDINI_V")
    if k == 1 and at >= 0:
        b[at + rng.randrange(10)] ^= 0x11
        return bytes(b).hex()
    if at >= 0:
        b[at + 10:at + 12] = b"99"
        return bytes(b).hex()
    return bytes(b[:20]).hex()


def usable(it):
    i = it[0]
    return it[2] == it[3] or i.w * i.h


def c23(chk):
    model(chk)
    exe = build_pooldrv()
    rng = chk.rng
    T = THOROUGH
    # messages and what they carry
    its = with_siblings(rng, [message(rng) for _ in range(1000 if T else 200)], 0.4)
    good = []
    for it, r in zip(its, run_ops(exe, [("compress", compress_args(it)) for it in its])):
        if r.get("ok"):
            good.append((it, r["out"]))
    if len(good) < len(its) // 2:
        raise Unexpected("too few messages can be compressed")
    empties = [g for g in good if not g[0][0].w * g[0][0].h]
    bad = [damaged(rng, c, it) for it, c in good]
    hists = []
    ex, st = generated(3, 5 if T else 4)
    chk.add_stats({"states": st.states, "transitions": st.generated})
    hists += [(3, h) for h in ex]
    for slots, length, n in ((8, 30, 1500 if T else 250), (12, 60, 400 if T else 60), (5, 15, 1500 if T else 250)):
        sim, st = generated(slots, length, simulate=n, seed=SEED + slots)
        chk.add_stats({"states": 0, "transitions": st.generated})
        hists += [(slots, h) for h in sim]
    chk.count("histories_enumerated", len(ex))
    cases, ops = [], []
    for slots, h in hists:
        msgs, table, ev = [], [], []
        at = rng.randrange(len(good))
        pool = rng.sample(good, 4) + [good[(at + j) % len(good)] for j in range(3)] + (rng.sample(empties, 1) if empties else [])
        steps = [rng.choice("Nn")]
        ev.append({"k": "N", "m": 1, "slot": 1, "to": 1})
        for k, s, t in h:
            e = {"k": k, "m": 1, "slot": max(s, 1), "to": max(t, 1)}
            if k in "KLTUB":
                if k == "B":
                    table.append(None)
                    msgs.append(rng.choice(bad))
                else:
                    g = rng.choice(pool)
                    table.append(g[0])
                    msgs.append(g[1])
                e["m"] = len(msgs)
                steps.append("%s%d.%d" % (k, s, len(msgs) - 1) if k in "KT" else "%s%d" % ("L" if k == "B" else k, len(msgs) - 1))
            elif k == "C":
                steps.append("C%d.%d" % (s, t))
            elif k in "DS":
                steps.append("%s%d" % (k, s))
            else:
                steps.append(k if k == "X" else rng.choice("Nn"))
            ev.append(e)
        cases.append({"slots": slots, "ev": ev, "msgs": [want_of(it) if it else NOTHING for it in table] or [NOTHING], "cap": 1 << 20, "slack": 1 << 20, "_table": table})
        ops.append(("pool", {"msgs": ",".join(msgs), "steps": "|".join(steps), "times": 4 if rng.random() < 0.3 else 1}))
    # more clouds held at once than the pool keeps: big ones
    for n in (5, 9, 20):
        it = message(rng, n=4000, enc=LOSSLESS, comp=LZ4, prof={}, default=None)
        it[0].enc, it[0].comp = NONE, LZ4
        r = run_ops(exe, [("compress", compress_args(it))])[0]
        if not r.get("ok"):
            continue
        cap = 4000 * it[0].step
        kinds = [("K", i + 1) for i in range(n)]
        for seq in (kinds + [("D", i + 1) for i in range(n)], kinds + [("D", n - i) for i in range(n)] + kinds[:3] + [("X", 1)] + [("D", 1), ("D", 2), ("D", 3)]):
            ev, steps = [{"k": "N", "m": 1, "slot": 1, "to": 1}], ["N"]
            for k, s in seq:
                ev.append({"k": k, "m": 1, "slot": s, "to": 1})
                steps.append("K%d.0" % s if k == "K" else "%s%d" % (k, s) if k == "D" else k)
            cases.append({"slots": n, "ev": ev, "msgs": [want_of(it)], "cap": cap + 4096, "slack": 30000 + cap // 2, "_table": [it]})
            ops.append(("pool", {"msgs": r["out"], "steps": "|".join(steps), "times": 4}))
    res = run_ops(exe, ops, timeout=60)
    todo, rt = [], []
    for c, (_, a), r in zip(cases, ops, res):
        table = c.pop("_table")
        if not r.get("ok"):
            chk.violation("subscriber: %s" % r.get("what", r.get("ex")), a)
            continue
        conts = [content_of(x) for x in r["contents"].split("|")] if r["contents"] else []
        for e, x in zip(c["ev"], r["steps"].split("|")):
            p = x.split(",")
            e.update(n=int(p[0]), said=int(p[1]), esc=int(p[2]), bytes=int(p[3]), odd=p[4], held=[[int(v) for v in h.split(".")] for h in p[5].split(";") if h])
            for h in e["held"]:
                h[2] += 1
            if e["k"] in "KT" and e["n"] == 1:
                for s, o, k in e["held"]:
                    if s == e["slot"]:
                        it = table[e["m"] - 1]
                        i = it[0].copy(step=it[0].step, w=it[1]["w"], h=it[1]["h"])
                        if len(conts[k - 1][1]) == i.w * i.h * i.step:
                            rt.append(((it, conts[k - 1][1]), a))
        c["conts"] = [x for x, _ in conts]
        c["live"] = [int(x) for x in r["live"].split(",") if x]
        todo.append((c, a))
    verd, st = judge("PoolTrace", [c for c, _ in todo])
    chk.add_stats(st)
    chk.traces(len(todo))
    for v, (c, a) in zip(verd, todo):
        if v[0] != "ok":
            chk.violation("%s: event %d of %s" % (TX[v[0]], v[1], a["steps"][:200]), {"steps": a["steps"], "event": v[1], "msgs": a["msgs"][:20000]})
    # the points
    seen, items, results = set(), [], []
    for (it, got), a in rt:
        key = (id(it), got)
        if key in seen or not it[0].w * it[0].h:
            continue
        seen.add(key)
        items.append((it[0], it[3]))
        results.append(("ok", got, None))
    judge_rt(chk, items, results, "delivered", {"Exact", "HalfStep", "NaNKept"})
    chk.count("histories", len(todo))
    chk.count("events", sum(len(c["ev"]) for c, _ in todo))
    scheduled(chk, good, bad)


SCENARIOS = [  # deliveries m<msg>><who keeps it>, d: the executor's thread lets go, X: destruction; 9: malformed
    "m0>1,m1>2,m2>0,X", "m0>1,m1>2,m0>1,m1>2,m2>-", "m0>1,X,d", "m0>0,m1>1,X", "m9>1,m0>1,m9>-,m1>2,m2>1", "m0>1,m0>1,m0>2,m0>2,m0>1,m0>2,m1>1,m2>2",
    "m0>0,m1>0,m2>0,m0>0,m1>0,m2>0,m0>1,d,d,m1>2,d,d,d,m2>1,d,X", "m0>1,m1>1,m2>1,m3>1,m0>1,m1>2,m2>2,m3>2,m0>2,m1>2,X"]


def scheduled(chk, good, bad):
    exe = build_poolsched()
    rng = chk.rng
    T = THOROUGH
    S = []
    small = [g for g in good if g[0][0].w * g[0][0].h <= 6 and len(g[1]) < 900]
    big = [g for g in good if 20 <= g[0][0].w * g[0][0].h]
    scens = list(SCENARIOS)
    for _ in range(60 if T else 10):
        n = rng.randint(3, 12)
        st = ["m%d>%s" % (rng.choice([0, 1, 2, 3, 9]), rng.choice("0-111222333")) if rng.random() < 0.8 else "d" for _ in range(n)]
        if rng.random() < 0.6:
            st.insert(rng.randint(n // 2, n), "X")
        scens.append(",".join(st))
    for q, sc in enumerate(scens):
        ms = [g[1] for g in rng.sample(small, 3)] + [rng.choice(big)[1], rng.choice(bad)]
        a = {"msgs": ",".join(ms), "steps": sc.replace("m9", "m4"), "threads": 3 if q >= len(SCENARIOS) else 2, "late": q % 2, "runs": 10 ** 7}
        budget = 30000 if T else 2500
        S.append(dict(a, mode="dfs", pb=2 if T else 1, ms=budget, spur=0))
        S.append(dict(a, mode="rnd", seed=rng.randrange(1, 10 ** 9), ms=budget, spur=rng.randrange(2)))
    res = run_ops(exe, [("run", a) for a in S], timeout=150)
    cases, meta = [], []
    runs = done = 0
    for a, r in zip(S, res):
        if not r.get("ok"):
            chk.violation("under the scheduler: %s" % r.get("ex"), a)
            continue
        runs += r["runs"]
        done += r["complete"]
        for h in r["hist"]:
            cases.append({"ev": h["ev"], "good": [1, 1, 1, 1, 0]})
            meta.append((a, h["sched"]))
    verd, st = judge("PoolSched", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    for v, (a, sched), c in zip(verd, meta, cases):
        if v[0] != "ok":
            chk.violation("%s: event %d of %s" % (TX.get(v[0], v[0]), v[1], a["steps"]), {"args": dict(a, mode="replay", sched=sched), "events": c["ev"]})
    chk.count("scheduled_runs", runs)
    chk.count("scheduled_scenarios", len(S))
    chk.count("scenarios_exhausted", done)
    chk.count("distinct_histories", len(cases))
    if cases:
        chk.sample(cases[0]["ev"][:12])
