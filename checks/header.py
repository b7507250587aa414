"""C03 (and the header part of C11): headers written and read by the code, judged by Header.tla."""
from wire import *

NAMECHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
U32S = [0, 1, 9, 10, 11, 13, 255, 256, 0x0A0A, 0x7B0A, 0x0A, 266, 522, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 2570, 778, 1034]


def rand_res(rng):
    k = rng.randrange(6)
    if rng.random() < 0.05:
        return struct.unpack("<f", struct.pack("<I", rng.choice([1, 2, 0x007FFFFF, rng.randint(1, 0x007FFFFF)])))[0]
    if k == 0:
        return struct.unpack("<f", struct.pack("<I", rng.randint(0x00800000, 0x7F7FFFFF)))[0]
    if k == 1:
        return f32(rng.choice([0.001, 0.01, 0.1, 1e-6, 1e-3, 0.003, 1 / 3, 0.7, 0.0123456789, 1e-38 * 1.2, 3.4e38, 1.17549435e-38, 16777217.0, 0.30000001192]))
    if k == 2:
        return struct.unpack("<f", struct.pack("<I", f32bits(rng.choice([0.001, 0.01, 1.0, 1000.0])) + rng.choice([-1, 1, 2])))[0]
    if k == 3:
        return 2.0 ** rng.randint(-126, 120)
    if k == 4:
        return f32(rng.uniform(0, 1) * 10.0 ** rng.randint(-20, 20) + 1e-30)
    return f32(rng.randint(1, 99999999) / 10.0 ** rng.randint(0, 8))


def rand_name(rng, binary):
    k = rng.randrange(10)
    if binary and k < 4:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 17, 255, 256, 300])))
    if k == 0:
        return b""
    if k == 1:
        return rng.choice([b"null", b"true", b"0", b"12", b"1e5", b"name", b"fields", b"offset", b"type", b"resolution", b"x", b"rgb", b"a.b", b"a/b", b"version", b"NONE"])
    s = "".join(rng.choice(NAMECHARS) for _ in range(rng.choice([1, 2, 5, 9, 30, 200 if k == 2 else 12])))
    if len(s) > 4 and rng.random() < 0.2:
        s = s[:2] + rng.choice(["_", ".", "/", " ", "-", "+", "="]) + s[2:]
    return s.encode()


def rand_desc(rng, binary, nf=None):
    def u32():
        return rng.choice(U32S) if rng.random() < 0.5 else rng.getrandbits(rng.choice([8, 16, 31, 32]))
    nf = rng.choice([0, 1, 1, 2, 3, 5, 10, 11, 40]) if nf is None else nf
    fs = []
    for _ in range(nf):
        fs.append(Field(rand_name(rng, binary), u32(), rng.randint(1, 10), rand_res(rng) if rng.random() < 0.6 else None))
    cfg = b""
    if not binary and rng.random() < 0.4:
        cfg = "".join(rng.choice(NAMECHARS) for _ in range(rng.choice([1, 3, 20]))).encode()
        if rng.random() < 0.3:
            cfg = rng.choice([b"k=v", b"a b", b"1", b"0.5", b"profile/x", b"x_1.2"])
    return Info(fs, u32(), u32(), u32(), rng.randint(2, 5), rng.randint(0, 2), rng.randint(0, 2), False, cfg)


def halves(v):
    return [v & 0xFFFF, v >> 16]


def desc(i):
    return {"ver": i.ver, "w": halves(i.w), "h": halves(i.h), "step": halves(i.step), "enc": i.enc, "comp": i.comp, "cfg": list(i.cfg),
            "fields": [{"name": list(f.name), "off": halves(f.off), "t": f.type, "res": [] if f.res is None else halves(f32bits(f.res))} for f in i.fields]}


def lines_of(text):
    out = []
    for ln in text.decode("latin1").split("\n"):
        if not ln.strip():
            continue
        ind = len(ln) - len(ln.lstrip())
        k, _, v = ln.strip().partition(":")
        v = v.strip()
        num, flt = [], []
        if v.isdigit() and int(v) < 1 << 32:
            num = halves(int(v))
        try:
            x = struct.pack("<f", float(v))
            flt = halves(struct.unpack("<I", x)[0])
        except (ValueError, OverflowError):
            pass
        out.append({"ind": ind, "key": k, "text": v if v.isascii() and v.isprintable() else "?", "val": list(v.encode("latin1")), "num": num, "float": flt})
    return out


def header_cases(chk, exe, rng, count, descs=None):
    """-> cases, metas; descriptions written and read back in all forms"""
    forms = []
    for k in range(count):
        form = ("bin", "text", "yaml")[k % 3]
        forms.append((form, rand_desc(rng, form == "bin")))
    for f, i in (descs or []):
        forms.append((f, i))
    w = run_ops(exe, [("toyaml", {"info": i.s()}) if f == "yaml" else ("enchdr", {"info": i.s(), "yaml": 1 if f == "text" else 0, "pre": rng.choice([0, 7, 2000])}) for f, i in forms])
    ops, idx = [], []
    for k, ((form, i), r) in enumerate(zip(forms, w)):
        if not r.get("ok"):
            chk.violation("writing a header failed (%s): %s; %s" % (form, r.get("what", r.get("ex")), i.s()[:500]), {"info": i.s(), "form": form})
            continue
        o = bytes.fromhex(r["out"])
        if form == "yaml":
            ops.append(("fromyaml", {"d": o.hex()}))
            idx.append((k, "back", 0))
            continue
        tail = rng.choice([b"", b"", rng.randbytes(rng.randint(1, 40)), b"\0\0\0", b"\nversion: 5\n\0", o[:20], b"5" * 9])
        ops.append(("dechdr", {"d": (o + tail).hex()}))
        idx.append((k, "back", len(tail)))
        cuts = range(len(o)) if len(o) < 260 else sorted(set(list(range(40)) + [len(o) - x for x in range(1, 12)] + rng.sample(range(len(o)), 40)))
        for cpos in cuts:
            ops.append(("dechdr", {"d": o[:cpos].hex()}))
            idx.append((k, "cut", cpos))
        for b in range(10):
            m = bytearray(o)
            m[b] ^= 1 << rng.randrange(8)
            ops.append(("dechdr", {"d": bytes(m).hex()}))
            idx.append((k, "bad", bytes(m)))
        for v in (b"00", b"01", b"06", b"07", b"10", b"15", b"50", b"55", b"99", b"25"):
            m = o[:10] + v + o[12:]
            ops.append(("dechdr", {"d": m.hex()}))
            idx.append((k, "bad", m))
    res = run_ops(exe, ops)
    cases, metas, at = [], [], {}
    for (k, what, x), r in zip(idx, res):
        form, i = forms[k]
        o = bytes.fromhex(w[k]["out"])
        if r.get("ex") in ("crash", "other"):
            chk.violation("reading a header crashed: %s (%s, %s)" % (r.get("what"), form, what), {"info": i.s(), "form": form, "what": what, "x": str(x)})
        out = "throw" if not r.get("ok") and r.get("ex") == "std" else ("ok" if r.get("ok") else "crash")
        if what == "back":
            at[k] = len(cases)
            cs = {"form": form, "desc": desc(i), "bytes": list(o) if form == "bin" else [], "lines": [], "read": False, "back": {}, "used": -1, "len": len(o), "cuts": [], "bads": []}
            if form == "text":
                body = o[13:]
                if o[:10] == b"CLOUDINI_V" and o[12:13] == b"\n" and body.endswith(b"\0") and body.count(b"\0") == 1:
                    cs["lines"] = lines_of(body[:-1])
            elif form == "yaml":
                cs["lines"] = lines_of(o)
            if r.get("ok"):
                bi = parse_info(r["info"])
                cs["read"], cs["back"] = True, desc(bi)
                cs["used"] = len(o) + x - r["left"] if form != "yaml" else len(o)
                if form != "yaml" and r["at"] != cs["used"] and r["left"]:
                    cs["used"] = -2
            cases.append(cs)
            metas.append({"form": form, "info": i.s()[:3000], "error": r.get("what")})
        elif k in at:
            cases[at[k]]["cuts" if what == "cut" else "bads"].append(out)
    return cases, metas, len(ops)


TXT = {"RoundTrip": "the description read back is not the one written", "Consumed": "the reader does not consume exactly the header's bytes",
       "Cut": "a cut header was not rejected", "Unsupported": "a wrong magic or an unsupported version was not rejected", "Legal": "the header written is not legal"}


def judge_headers(chk, cases, metas, want):
    verd, st = judge("Header", cases)
    chk.add_stats(st)
    chk.traces(len(cases))
    for v, m in zip(verd, metas):
        if v[0] != "ok" and v[0] in want:
            chk.violation("%s header: %s %s (cut %s, damage %s); %s %s" % (m["form"], TXT[v[0]], v[1], v[2], v[3], m.get("error") or "", m["info"][:400]), m)


def c03(chk):
    exe = build_cldrv()
    rng = chk.rng
    extra = []
    # every low byte of the width (the first byte after the version), and the field counts around byte boundaries
    for w in list(range(256)) + U32S:
        i = rand_desc(rng, True, nf=rng.choice([0, 1, 2]))
        i.w = w
        extra.append(("bin", i))
    for nf in [9, 10, 11, 255, 256, 257] + ([1000, 65535] if THOROUGH else [1000]):
        for form in ("bin", "text", "yaml"):
            i = rand_desc(rng, form == "bin", nf=0)
            i.fields = [Field(b"f%d" % k, k, rng.randint(1, 10), rand_res(rng) if k % 3 == 0 else None) for k in range(nf)]
            extra.append((form, i))
    # every single-precision exponent, several mantissas
    i = rand_desc(rng, False, nf=0)
    for e in range(255):
        for m in (e == 0 and 77, 1, 0x7FFFFF, rng.getrandbits(23)):
            i.fields.append(Field(b"e", 0, 7, struct.unpack("<f", struct.pack("<I", (e << 23) | m))[0]))
    extra.append(("text", i))
    extra.append(("yaml", i))
    # binary headers that resemble text: no NUL for a long way, and the word that marks texts
    for name, w in ((b"version: 5\nwidth: 7 ", 0x01017B0A), (b"version ", 0x0101010A), (b"version 5\nwidth: 1\n", 0x7B7B7B0A), (b":version", 0xFFFFFF0A)):
        i = Info([Field(name + b"x" * 300, 0x01010101, rng.randint(1, 10), 0.7)] + [Field(b"f%d" % k, k, 1, None) for k in range(256)], 0x0102030A, w, 0x01010101, rng.choice([3, 4, 5]), 1, 1, False)
        extra.append(("bin", i))
    # the longest names a binary header can hold
    for n in (0x7FFF, 0x8000, 0xFFFE, 0xFFFF):
        i = rand_desc(rng, True, nf=2)
        i.fields[rng.randrange(2)].name = bytes(rng.randrange(256) for _ in range(n))
        extra.append(("bin", i))
    # what it cannot hold is refused
    big = [rand_desc(rng, True, nf=1) for _ in range(3)]
    big[0].fields[0].name, big[1].fields[0].name = b"a" * 65536, b"a" * 65540
    big[2].fields = [Field(b"", 0, 1, None)] * 65537
    for i, r in zip(big, run_ops(exe, [("enchdr", {"info": i.s(), "yaml": 0, "pre": 0}) for i in big])):
        if r.get("ok") or r.get("ex") != "std":
            chk.violation("bin header: a description that the form cannot hold is written (%d fields, names of %d bytes)" % (len(i.fields), len(i.fields[0].name)), {"fields": len(i.fields)})
    cases, metas, n = header_cases(chk, exe, rng, 15000 if THOROUGH else 1500, extra)
    judge_headers(chk, cases, metas, {"RoundTrip", "Consumed", "Cut", "Unsupported"})
    chk.count("headers", len(cases))
    chk.count("headers_read", n)
    # the header in front of an encoded cloud is the text header of its description
    chk.sample(metas[0])
    chk.sample(metas[1])
