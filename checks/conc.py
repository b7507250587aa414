"""C05, C06: the background compression thread. EncoderConc.tla models the protocol and is
model-checked (safety, liveness, refinement of EncoderApi.tla); the real encoder is run
under a controlled scheduler (harness/encsched.cpp) on schedules enumerated up to a
preemption bound, drawn at random, and taken from EncoderConc; every recorded history is
judged by EncoderTrace.tla."""
import re
from wire import *
from codec import rand_info, big_item

WRAP = ["ZSTD_compress", "ZSTD_compressCCtx", "ZSTD_compress2", "LZ4_compress_default", "LZ4_compress_fast"]
CHUNKS = {0: [0], 1: [1, 2, 8], 2: [3], 3: [4, 5], 5: [6], 6: [7]}  # chunks -> clouds of the harness
CONFIGS = [(0, ZSTD, 4), (1, LZ4, 5), (2, ZSTD, 5), (0, LZ4, 3), (1, ZSTD, 4), (2, LZ4, 4)]  # layout, compression, version
MUTANTS = ["norespawn", "nowait", "donelate", "notifyfirst", "nofinal", "noguard", "nonotify", "failquiet"]


def build_sched():
    """the sources that deal with threads are compiled so that every memory access is watched"""
    src = lib_sources()
    fine = {s: ["-fsanitize=thread"] for s in src if re.search(r"std::(thread|jthread|mutex|atomic|condition_variable|async|future|promise|packaged_task|binary_semaphore|counting_semaphore|latch|barrier|shared_mutex)|#include <(thread|mutex|atomic|condition_variable|future)>", open(s).read()) or os.path.basename(s) == "cloudini.cpp"}
    src.sort(key=lambda s: s not in fine)
    return build("encsched", src + [os.path.join(VERIF, "harness", "encsched.cpp")], asan=False, opt="-O2", fine=fine,
                 link=["-Wl," + ",".join("--wrap=" + s for s in WRAP + ["__cxa_guard_acquire", "__cxa_guard_release"]), "-ldl"])


def model(chk):
    r = tlc("EncoderConc", cfg="EncoderConcT.cfg" if THOROUGH else "EncoderConc.cfg", extra=["-lncheck", "final"])
    if r.violated:
        raise CheckError("EncoderConc itself is violated:\n" + r.out[-3000:])
    chk.add_stats({"states": r.states, "transitions": r.generated})
    chk.count("model_states", r.states)
    if THOROUGH:  # the properties of the model tell apart every protocol mistake we thought of
        src = open(os.path.join(SPEC, "EncoderConc.cfg")).read()
        for v in MUTANTS:
            name = "EncoderConc_%s.cfg" % v
            p = os.path.join(SPEC, name)
            with open(p, "w") as f:
                f.write(src.replace('"ok"', '"%s"' % v).replace("MaxFaults = 1", "MaxFaults = 2"))
            try:
                if not tlc("EncoderConc", cfg=name).violated:
                    raise CheckError("EncoderConc does not notice the protocol mistake " + v)
            finally:
                os.unlink(p)
        chk.count("model_mutants_killed", len(MUTANTS))


def plans(chk, n):
    r = tlc("EncoderConcGen", workers=1, simulate="num=%d" % n, extra=["-seed", str(SEED), "-depth", "400"])
    out = [m[1] for m in (re.match(r'<<"P", *"(\w+)" *>>', p) for p in r.prints) if m]
    if len(out) < n // 4:
        raise CheckError("EncoderConcGen gave %d plans only\n%s" % (len(out), r.out[-1500:]))
    chk.add_stats({"states": 0, "transitions": r.generated})
    return out


def plan_scenario(rng, p):
    """A behaviour of EncoderConc as a scenario: calls, failures, schedule."""
    life, cf, tf, sched = [], [], [], ""
    for ch in p:
        if ch.isdigit():
            life.append([rng.choice(CHUNKS[int(ch)]), rng.randrange(3), 0])
        elif ch in "MW":
            sched += ch
        elif ch == "X":
            cf.append("x")
            sched += "W"
        elif ch == "A":
            life[-1][2] = rng.randint(1, 24)
            sched += "M"
        elif ch == "T":
            tf.append("t")
            sched += "M"
    return life, sched


def fault_positions(p):
    """indices (1-based, over the whole life) of failing compressions and thread creations"""
    comp, creat, cf, tf = 0, 1, [], []
    k = 0
    calls = re.split(r"(?=\d)", p)
    need = False
    for c in calls:
        if "T" in c:
            creat += 1
            tf.append(creat)
        elif need and c[:1].isdigit():
            creat += 1
            need = False
        if "X" in c:
            # position among the chunks of the call is not in the plan: spread it
            cf.append(comp + 1 + (c.index("X") % max(1, int(c[0]))))
            comp = cf[-1]
            need = True
        elif c[:1].isdigit():
            comp += int(c[0]) if "A" not in c else 1
    return cf, tf


def scen(cfg, life, q=0, cf=(), tf=(), spur=0, thr=1, **kw):
    a = {"cfg": "%d,%d,%d,%d,%d" % (*cfg, thr, q), "life": "/".join(";".join("%d:%d:%d" % tuple((list(c) + [0, 0])[:3]) for c in l) for l in life)}
    if cf:
        a["cf"] = ",".join(map(str, cf))
    if tf:
        a["tf"] = ",".join(map(str, tf))
    if spur:
        a["spur"] = spur
    a.update(kw)
    a.setdefault("runs", 10 ** 6)
    return a


def execute(chk, exe, scens):
    res = run_ops(exe, [("run", s) for s in scens], timeout=120)
    cases, src = [], []
    for s, r in zip(scens, res):
        if not r.get("ok"):
            # waits in a way the scheduler does not simulate: judge it on the real threads
            f = dict(s, mode="free", runs=60, ms=15000)
            r = run_ops(exe, [("run", f)], timeout=120)[0]
            chk.count("scenarios_on_free_threads")
            if not r.get("ok"):
                chk.violation("encoding does not end; scenario %s" % json.dumps(s), s)
                continue
        chk.count("schedules", r["runs"])
        chk.count("scheduling_steps", r["steps"])
        chk.count("scenarios_exhausted" if r["complete"] else "scenarios_sampled")
        for h in r["hist"]:
            cases.append({"ev": h["ev"]})
            src.append((s, h))
    verd, st = judge("EncoderTrace", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    seen = set()
    for v, (s, h) in zip(verd, src):
        chk.count("compressions", sum(1 for e in h["ev"] if e[0] == "b"))
        if v[0] != "ok":
            e = h["ev"][v[1] - 1] if v[1] <= len(h["ev"]) else ["end"]
            key = (json.dumps(e), s["life"])
            if key in seen:
                continue
            seen.add(key)
            chk.violation("the encoder does %s, which no encoder may do here; scenario %s, after %s" % (json.dumps(e), {k: s[k] for k in s if k not in ("lists", "ms", "runs")}, json.dumps(h["ev"][:v[1]])[-300:]),
                          {"scenario": dict(s, mode="replay", sched=h["sched"]), "history": h["ev"], "event": v[1]})
    if cases:
        chk.sample({"scenario": src[0][0], "history": src[0][1]["ev"]})


def c05(chk):
    exe = build_sched()
    rng = chk.rng
    model(chk)
    T = THOROUGH
    ms = 40000 if T else 4500
    S = []
    for k, cfg in enumerate(CONFIGS):
        S.append(scen(cfg, [[(5, 0)]], q=k % 2, mode="dfs", pb=3 if T else 2, ms=ms))
        S.append(scen(cfg, [[(3, 1), (2, 2), (0, 1), (4, 0)]], q=(k + 1) % 2, mode="dfs", pb=2 if T else 1, ms=ms))
        S.append(scen(cfg, [[(4, 0)], [(8, 2)]], spur=1, q=k % 2, mode="dfs", pb=2, ms=ms))
        S.append(scen(cfg, [[(rng.choice([3, 4, 5, 6]), rng.randrange(3)) for _ in range(3)]], spur=2, q=k % 2, mode="rnd", seed=rng.randrange(1, 10 ** 9), ms=ms))
        S.append(scen(cfg, [[(7, 0)]], mode="rnd", seed=rng.randrange(1, 10 ** 9), ms=ms))
        # calls that end by an exception of the calling thread leave nothing behind either
        for a in ([1, 2, 3, 4, 5, 7, 9, 12, 15, 20, 26, 33, 40] if cfg[2] == 5 or T else [1, 2, 3]):
            S.append(scen(cfg, [[(5, a % 3, a), (3, 0)]], q=a % 2, mode="dfs", pb=2 if T else 1, ms=ms // 4))
    S += [scen(cfg, [[(4, 0), (3, 1)]], thr=0, mode="dfs", pb=0, ms=1000) for cfg in CONFIGS]
    byscen = {}
    for p in plans(chk, 4000 if T else 400):
        if "X" in p or "T" in p:
            continue
        life, sched = plan_scenario(rng, p)
        byscen.setdefault(json.dumps(life), []).append(sched)
    for k, (life, ls) in enumerate(sorted(byscen.items())):
        S.append(scen(CONFIGS[k % len(CONFIGS)], [json.loads(life)], q=k % 2, mode="list", seed=k + 1, lists=",".join(ls[:50]), ms=3000))
    execute(chk, exe, S)
    # any layout: threaded and unthreaded encoding of the same cloud, bytes compared
    drv = build_cldrv()
    items = []
    for k in range(600 if T else 120):
        i = rand_info(rng)
        i.comp = rng.choice([LZ4, ZSTD])
        items.append((i, gen_points(rng, i, rng.choice([0, 1, 50, 300]))[0]))
    for k in range(40 if T else 8):
        i, d = big_item(rng, rng.choice([CHUNK, CHUNK + 1, 70000, 2 * CHUNK]))
        i.comp = rng.choice([LZ4, ZSTD])
        items.append((i, d))
    ops = []
    for i, d in items:
        n = i.copy(w=len(d) // i.step, h=1)
        for thr in (True, False):
            n.thr = thr
            ops.append(("once", {"info": n.s(), "d": d.hex()}))
    res = run_ops(drv, ops, timeout=60)
    for (i, d), a, b in zip(items, res[::2], res[1::2]):
        x, y = [(r.get("ok"), r.get("out"), r.get("n")) if r.get("ok") else (r.get("ex") == "crash",) for r in (a, b)]
        if x != y or "crash" in (a.get("ex"), b.get("ex")):
            chk.violation("threaded and unthreaded encoding differ; %s" % json.dumps(i.brief()), {"info": i.s(), "data": d.hex()[:20000]})
    chk.count("layouts_compared", len(items))


def c06(chk):
    exe = build_sched()
    rng = chk.rng
    model(chk)
    T = THOROUGH
    ms = 40000 if T else 4000
    S = []
    for k, cfg in enumerate(CONFIGS):
        q = k % 2
        for cf in ([1], [2], [3]):
            S.append(scen(cfg, [[(5, 0), (3, 1)]], q=q, cf=cf, mode="dfs", pb=2 if T else 1, ms=ms))
        S.append(scen(cfg, [[(4, 0), (5, 2), (3, 0)]], q=1 - q, cf=[2, 4], mode="dfs", pb=2 if T else 1, ms=ms))
        S.append(scen(cfg, [[(3, 0), (2, 0), (8, 1), (3, 2)]], q=q, cf=[1, 2, 3], mode="dfs", pb=2 if T else 1, ms=ms))
        S.append(scen(cfg, [[(5, 0)], [(3, 0), (3, 0)]], q=q, cf=[3, 5], spur=1, mode="dfs", pb=2 if T else 1, ms=ms))
        S.append(scen(cfg, [[]], mode="dfs", pb=3, ms=ms))
        S.append(scen(cfg, [[(0, 0)]], mode="dfs", pb=3, ms=ms))
        # the worker cannot be started (again)
        S.append(scen(cfg, [[(3, 0), (3, 0), (3, 1)]], q=q, cf=[2], tf=[2], mode="dfs", pb=2 if T else 1, ms=ms))
        S.append(scen(cfg, [[(3, 0)], [(3, 0)]], tf=[1], mode="dfs", pb=1, ms=ms))
        S.append(scen(cfg, [[(3, 0), (2, 1), (3, 0), (3, 0)]], q=q, cf=[1, 4], tf=[2, 3], mode="dfs", pb=1, ms=ms))
        for _ in range(6 if T else 2):
            life = [[(rng.choice([0, 2, 3, 4, 5, 6]), rng.randrange(3), rng.choice([0, 0, 0, rng.randint(1, 30)])) for _ in range(4)]]
            S.append(scen(cfg, life, q=rng.randrange(2), cf=sorted(rng.sample(range(1, 14), rng.randint(1, 4))), tf=rng.choice([[], [], [2], [3]]), spur=rng.randrange(3), mode="rnd", seed=rng.randrange(1, 10 ** 9), ms=ms))
        # unthreaded
        for cf in ([1], [2], [2, 3]):
            S.append(scen(cfg, [[(5, 0), (3, 1), (5, 2)]], cf=cf, thr=0, mode="dfs", pb=0, ms=1000))
    n = 0
    for p in plans(chk, 6000 if T else 700):
        if not ("X" in p or "T" in p):
            continue
        life, sched = plan_scenario(rng, p)
        cf, tf = fault_positions(p)
        S.append(scen(CONFIGS[n % len(CONFIGS)], [life], q=n % 2, cf=cf, tf=tf, mode="list", seed=n + 1, lists=sched, ms=3000))
        n += 1
    execute(chk, exe, S)
