"""Cases for WireTrace: payloads, cells, frames; running the real encoder and decoder on them."""
import math
from fractions import Fraction
from common import *
from cloud import *

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
FMAX = {F32: Fraction(3.4028234663852886e38), F64: Fraction(1.7976931348623157e308)}
EPS = {F32: Fraction(1, 1 << 23), F64: Fraction(1, 1 << 52)}
DEN = {F32: Fraction(1, 1 << 149), F64: Fraction(1, 1 << 1074)}


def _rng_cell(lo, hi):
    lo, hi = max(lo, I64MIN), min(hi, I64MAX)
    if lo > hi:
        return [-1]
    return [limbs4(lo), limbs4(hi)]


def got_cell(f, bits):
    """Quantized integers the decoded float denotes (within the rounding of its type)."""
    if is_nan(f.type, bits):
        return []
    x = to_float(f.type, bits)
    r = Fraction(f.res)
    if math.isinf(x):
        b = FMAX[f.type] * (1 - 4 * EPS[f.type])
        return _rng_cell(math.ceil(b / r), I64MAX) if x > 0 else _rng_cell(I64MIN, math.floor(-b / r))
    v = Fraction(x)
    t = abs(v) * EPS[f.type] * 3 / 2 + DEN[f.type]
    return _rng_cell(math.ceil((v - t) / r), math.floor((v + t) / r))


def in_cell(f, bits):
    """Quantized integers at most half a resolution away from the original float."""
    if is_nan(f.type, bits):
        return []
    v = Fraction(to_float(f.type, bits))
    r = Fraction(f.res)
    s = abs(v) * EPS[f.type] * 3 / 2
    h = Fraction(1, 2)
    return _rng_cell(math.ceil((v - s) / r - h), math.floor((v + s) / r + h))


def cells(info, data, n, orig):
    """Per field, per point cells of a cloud."""
    out = []
    for f in info.fields:
        if f.off == SKIP or f.size == 0 or f.off + f.size > info.step:
            out.append([[0]] * 0)
            continue
        col = column(info, f, data, n)
        if info.quantized(f):
            memo = {}
            fn = in_cell if orig else got_cell
            o = []
            for b in col:
                if b not in memo:
                    memo[b] = fn(f, b)
                o.append(memo[b])
            out.append(o)
        else:
            sz = f.size
            out.append([limbs(b, sz) for b in col])
    return out


def frames(payload):
    """Chunks of a version >= 3 payload as far as they can be followed."""
    out, p = [], 0
    while p + 4 <= len(payload):
        m = int.from_bytes(payload[p:p + 4], "little")
        if p + 4 + m > len(payload):
            break
        out.append((p, payload[p + 4:p + 4 + m]))
        p += 4 + m
    return out


def inflate_all(exe, items, cap=1 << 21):
    """items: list of (info, payload). Returns per item the list of [ok, d] for every chunk."""
    ops, where = [], []
    for k, (info, pay) in enumerate(items):
        if info.comp == CNONE:
            continue
        chunks = [pay] if info.ver < 3 else [d for _, d in frames(pay)]
        for d in chunks:
            ops.append(("inflate", {"comp": info.comp, "cap": cap, "d": d.hex()}))
            where.append(k)
    res = run_ops(exe, ops) if ops else []
    out = [[] for _ in items]
    for k, r in zip(where, res):
        out[k].append({"ok": bool(r["ok"]), "d": list(bytes.fromhex(r.get("out", "")))} if r["ok"] else {"ok": False, "d": []})
    return out


def wire_case(mode, info, payload, infl, realok, outb=None, data=None, store=False, fill=0):
    n = info.n
    k = info.tla()
    k["n"] = min(n, 1 << 30)
    k.update({"mode": mode, "comp": info.comp, "pay": list(payload), "infl": infl, "real": "ok" if realok else "throw",
              "inp": cells(info, data, n, True) if mode == "enc" else [],
              "got": cells(info, outb, n, False) if realok else [],
              "outb": list(outb) if (store and realok) else [], "fill": fill})
    return k


EXPLAIN = {
    "EncoderLegal": "the encoder wrote a stream the wire format does not allow",
    "EncoderExact": "an exactly coded value in the encoder's stream differs from the input",
    "EncoderQuant": "a quantized value in the encoder's stream is not within half a resolution of the input (or NaN/non-NaN changed)",
    "DecoderAccepts": "the decoder rejected a legal stream",
    "DecoderRejects": "the decoder accepted a stream without a meaning",
    "DecoderExact": "the decoder produced another value than the stream denotes",
    "DecoderQuant": "the decoder produced another quantized value than the stream denotes",
    "StoresDeclared": "the decoder changed bytes outside the declared fields of the declared points",
}


def judge_wire(chk, cases, metas, props, label, only=None):
    """Judges the cases; metas[i] is what a violation reports. props: verdict -> is it this property's business."""
    verd, st = judge("WireTrace", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    hist = {}
    for i, v in enumerate(verd):
        why, res = v[0], v[1]
        hist[res.split(":")[0] + ("~" if v[2] else "")] = hist.get(res.split(":")[0] + ("~" if v[2] else ""), 0) + 1
        if why == "glue":
            raise CheckError("WireTrace: glue mismatch on case %d: %r %r" % (i, v, metas[i]))
        if why != "ok" and (props is None or why in props):
            f = v[5]
            chk.violation("%s: %s [%s] field %s point %s; stream verdict %s %s; %s" % (label, EXPLAIN.get(why, why), why, f, v[6], res, v[2], json.dumps(metas[i].get("brief", ""))),
                          dict(metas[i], verdict=v))
    for k, n in hist.items():
        chk.count("%s_%s" % (label, k), n)
    return verd


def encode_cases(exe, items):
    """items: (info, data). Encodes with a new encoder, decodes header+payload as a reader would.
    Returns list of dict(ok, out, pay, hdrlen, dec) with dec the result of the reader."""
    r1 = run_ops(exe, [("once", {"info": i.s(), "d": d.hex()}) for i, d in items])
    r2 = run_ops(exe, [("full", {"d": r.get("out", ""), "fill": 0x5A}) if r.get("ok") else ("setvec", {"v": "x", "d": ""}) for r in r1])
    out = []
    for (info, data), a, b in zip(items, r1, r2):
        e = {"enc": a, "dec": b, "ok": bool(a.get("ok"))}
        if e["ok"]:
            o = bytes.fromhex(a["out"])
            e["out"] = o
            e["hdrlen"] = b.get("hdrlen")
            e["pay"] = o[b["hdrlen"]:] if b.get("hdrlen") is not None else None
        out.append(e)
    return out


def roundtrip_check(chk, exe, items, props, label, dec_override=None):
    """Encode every (info, data) with the real encoder, decode with the real decoder, and let
    WireTrace judge stream and result."""
    enc = encode_cases(exe, items)
    todo, metas = [], []
    for (info, data), e in zip(items, enc):
        rep = {"brief": info.brief(), "info": info.s(), "data": data.hex() if len(data) < 20000 else data[:20000].hex() + "..."}
        if not e["ok"]:
            chk.violation("%s: encoding failed: %s %s" % (label, e["enc"].get("what", e["enc"].get("ex")), json.dumps(info.brief())), rep)
            continue
        d = e["dec"]
        if e["pay"] is None:
            chk.violation("%s: the reader cannot parse what the encoder wrote: %s %s" % (label, d.get("what", d.get("ex")), json.dumps(info.brief())), rep)
            continue
        if d.get("ex") == "crash":
            chk.violation("%s: decoder crashed on the encoder's output: %s" % (label, d.get("what")), rep)
            continue
        outb = bytes.fromhex(d.get("out", ""))
        if d["ok"] and len(outb) != info.n * info.step:
            chk.violation("%s: header gives another cloud size" % label, rep)
            continue
        todo.append((info, data, e, d, outb, rep))
    infl = inflate_all(exe, [(t[0], t[2]["pay"]) for t in todo])
    cases = []
    for (info, data, e, d, outb, rep), fl in zip(todo, infl):
        cases.append(wire_case("enc", info, e["pay"], fl, bool(d["ok"]), outb, data))
        if not d["ok"]:
            rep["decoder"] = d.get("what")
        metas.append(rep)
    judge_wire(chk, cases, metas, props, label)
    return todo
