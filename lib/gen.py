"""Streams generated by the specification WireGen (TLC -simulate)."""
import json
from common import *
from cloud import *
from wire import *

RES = [1.0, 0.5, 0.25, 2.0 ** -10, 0.001, 0.01, 0.1, 0.003, 7.0]


def simulate(num, seed, big=False, depth=3000):
    r = tlc("WireGen", env={"BIG": "1" if big else "0"}, workers=1, simulate="num=%d" % num, extra=["-seed", str(seed), "-depth", str(depth)], timeout=600)
    out = []
    for p in r.prints:
        if p.startswith('"GEN '):
            out.append(json.loads(json.loads(p)[4:]))
    if not out:
        raise CheckError("WireGen produced nothing:\n" + r.out[-1500:])
    return out, r


def expand(cells, big):
    if not big:
        return cells
    return [[cell for ln, cell in col for _ in range(ln)] for col in cells]


def build_info(rng, g, comp):
    types = [(f["t"], rng.choice(RES) if f["res"] else None) for f in g["fields"]]
    fs, step = layout(types, rng, shuffle=rng.random() < 0.6, gaps=rng.random() < 0.6, tail=rng.choice([0, 0, 1, 5]))
    for f, gf in zip(fs, g["fields"]):
        if gf["skip"]:
            f.off = SKIP
    n = g["n"]
    w, h = n, 1
    if n and n % 2 == 0 and rng.random() < 0.3:
        w, h = n // 2, 2
    return Info(fs, step, w, h, g["ver"], g["enc"], comp, False)


def oversize(g):
    """a chunk larger than any encoder's worst case (idle palette entries, say): it may be refused in compressed form"""
    def worst(f):
        t, q = f["t"], f["res"] and g["enc"] == LOSSY
        return 1 if t in (1, 2) else 10 if q or t in (3, 4, 5, 6) else 7 if t == 7 else 11
    left, w = g["n"], sum(worst(f) for f in g["fields"])
    for ch in g["chunks"]:
        n = min(left, CHUNK) if g["ver"] >= 3 else left
        left -= n
        if len(ch) > n * w:
            return True
    return False


def streams(exe, rng, num, seed, big=False):
    """-> list of (info, payload, inp cells, infl)"""
    gs, r = simulate(num, seed, big)
    infos = []
    ops = []
    for g in gs:
        comp = rng.choice([CNONE, CNONE, LZ4, ZSTD]) if g["n"] and not oversize(g) else CNONE
        infos.append(build_info(rng, g, comp))
        for ch in g["chunks"]:
            if comp:
                ops.append(("deflate", {"comp": comp, "d": bytes(ch).hex(), "form": rng.choice([0] + list(range(32)))}))
    res = iter(run_ops(exe, ops)) if ops else iter([])
    out = []
    for g, info in zip(gs, infos):
        pay = b""
        infl = []
        for ch in g["chunks"]:
            raw = bytes(ch)
            if info.comp:
                infl.append({"ok": True, "d": list(raw)})
                raw = bytes.fromhex(next(res)["out"])
            pay += (len(raw).to_bytes(4, "little") if info.ver >= 3 else b"") + raw
        out.append((info, pay, expand(g["cells"], big), infl))
    return out, r


def decode_streams(exe, chk, items, props, label, fill=0x5A, extra=lambda r: r.choice([0, 0, 1, 9])):
    """Replay generated streams into the real decoder; WireTrace judges (and cross-checks the generator)."""
    ops, slack = [], []
    for info, pay, inp, infl in items:
        ex = extra(chk.rng)
        slack.append(ex)
        ops.append(("dec", {"info": info.s(), "d": pay.hex(), "osz": info.n * info.step + ex, "fill": fill}))
    res = run_ops(exe, ops)
    cases, metas = [], []
    for (info, pay, inp, infl), r, op in zip(items, res, ops):
        meta = {"brief": info.brief(), "op": "dec", "args": {k: (v if len(str(v)) < 5000 else str(v)[:5000] + "...") for k, v in op[1].items()}}
        if r.get("ex") == "crash":
            chk.violation("%s: decoder crashed on a legal stream: %s %s" % (label, r.get("what"), json.dumps(info.brief())), meta)
            continue
        outb = bytes.fromhex(r.get("out", ""))
        ok = bool(r["ok"])
        big = len(outb) > 60000
        k = wire_case("dec", info, pay, infl, ok, outb, store=not big, fill=fill)
        k["mode"] = "enc"
        k["inp"] = inp
        if not ok:
            meta["decoder"] = r.get("what", r.get("ex"))
        cases.append(k)
        metas.append(meta)
    verd = judge_wire(chk, cases, metas, props, label)
    for v, m in zip(verd, metas):
        if v[0] in ("EncoderLegal", "EncoderExact", "EncoderQuant"):
            raise CheckError("WireGen and WireTrace disagree: %r %r" % (v, m))
    return verd
