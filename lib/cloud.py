"""Cloud descriptions, random clouds, and conversions between raw bytes and the cells the
specifications talk about (16-bit limbs, quantized integers)."""
import math, random, struct
from fractions import Fraction

I8, U8, I16, U16, I32, U32, F32, F64, I64, U64 = range(1, 11)
SIZE = {I8: 1, U8: 1, I16: 2, U16: 2, I32: 4, U32: 4, F32: 4, F64: 8, I64: 8, U64: 8}
NAMES = {I8: "INT8", U8: "UINT8", I16: "INT16", U16: "UINT16", I32: "INT32", U32: "UINT32", F32: "FLOAT32", F64: "FLOAT64", I64: "INT64", U64: "UINT64"}
INTS = [I8, U8, I16, U16, I32, U32, I64, U64]
COLT = [I16, U16, I32, U32, I64, U64]
SIGNED = {I8, I16, I32, I64}
SKIP = 0xFFFFFFFF
NONE, LOSSY, LOSSLESS = 0, 1, 2
CNONE, LZ4, ZSTD = 0, 1, 2
CHUNK = 32768


def f32bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Field:
    __slots__ = ("name", "off", "type", "res")

    def __init__(self, name, off, typ, res=None):
        self.name, self.off, self.type, self.res = name, off, typ, (None if res is None else f32(res))

    @property
    def size(self):
        return SIZE[self.type]

    def copy(self):
        return Field(self.name, self.off, self.type, self.res)

    def s(self):
        nm = self.name if isinstance(self.name, bytes) else self.name.encode("latin1")
        return "%s:%d:%d:%s" % (nm.hex(), self.off, self.type, "-" if self.res is None else "%08x" % f32bits(self.res))


class Info:
    def __init__(self, fields, step, w=0, h=1, ver=5, enc=LOSSY, comp=CNONE, thr=False, cfg=b""):
        self.fields, self.step, self.w, self.h, self.ver, self.enc, self.comp, self.thr, self.cfg = fields, step, w, h, ver, enc, comp, thr, cfg

    def copy(self, **kw):
        i = Info([f.copy() for f in self.fields], self.step, self.w, self.h, self.ver, self.enc, self.comp, self.thr, self.cfg)
        for k, v in kw.items():
            setattr(i, k, v)
        return i

    @property
    def n(self):
        return self.w * self.h

    def s(self):
        cfg = self.cfg if isinstance(self.cfg, bytes) else self.cfg.encode()
        return "%d,%d,%d,%d,%d,%d,%d,%s|%s" % (self.ver, self.w, self.h, self.step, self.enc, self.comp, 1 if self.thr else 0, cfg.hex(), ";".join(f.s() for f in self.fields))

    def quantized(self, f):
        return self.enc == LOSSY and f.type in (F32, F64) and f.res is not None

    def leading(self):
        n = 0
        if self.enc == LOSSY:
            for f in self.fields:
                if f.type != F32 or f.res is None:
                    break
                n += 1
        return n if n in (3, 4) else 0

    def uses_v5(self):
        return self.ver >= 5 and self.enc == LOSSY and any(f.type in COLT for f in self.fields[self.leading():])

    def tla(self):
        """Description for the specifications."""
        return {"ver": self.ver, "enc": self.enc, "n": self.n, "step": min(self.step, 1 << 30),
                "fields": [{"t": f.type, "res": f.res is not None, "off": min(f.off, 1 << 30), "skip": f.off == SKIP} for f in self.fields]}

    def brief(self):
        return {"ver": self.ver, "enc": self.enc, "comp": self.comp, "thr": self.thr, "w": self.w, "h": self.h, "step": self.step,
                "fields": ["%s@%d%s" % (NAMES.get(f.type, f.type), f.off, "" if f.res is None else "/%g" % f.res) for f in self.fields]}


def parse_info(s):
    a, b = s.split("|", 1)
    p = a.split(",")
    fs = []
    if b:
        for t in b.split(";"):
            q = t.split(":")
            r = None if q[3] == "-" else struct.unpack("<f", struct.pack("<I", int(q[3], 16)))[0]
            f = Field(bytes.fromhex(q[0]), int(q[1]), int(q[2]))
            f.res = r
            fs.append(f)
    return Info(fs, int(p[3]), int(p[1]), int(p[2]), int(p[0]), int(p[4]), int(p[5]), p[6] == "1", bytes.fromhex(p[7]))


# ---------------------------------------------------------------- layouts
def layout(types, rng=None, shuffle=False, gaps=False, tail=0):
    """types: list of (type, res). Packs them, optionally with gaps and in shuffled order of offsets."""
    n = len(types)
    order = list(range(n))
    if shuffle and rng:
        rng.shuffle(order)
    off = 0
    offs = [0] * n
    for k in order:
        if gaps and rng:
            off += rng.choice([0, 0, 1, 2, 3, 4, 8])
        offs[k] = off
        off += SIZE[types[k][0]]
    step = off + tail
    return [Field("f%d" % i, offs[i], t, r) for i, (t, r) in enumerate(types)], max(step, 1)


DYADIC = [1.0, 0.5, 0.25, 0.125, 1.0 / 1024, 2.0 ** -10, 4.0]


def rand_types(rng, nmax=6, want=None):
    """Random field type list with resolutions; covers 0..5 leading floats."""
    out = []
    lead = rng.choice([0, 0, 1, 2, 3, 3, 3, 4, 4, 5])
    for _ in range(lead):
        out.append((F32, rng.choice(RESOLUTIONS)))
    k = rng.randint(0 if out else 1, nmax)
    for _ in range(k):
        t = rng.choice([I8, U8, I16, U16, I32, U32, F32, F64, I64, U64, I16, U16, I32, U32, I64, U64])
        r = None
        if t in (F32, F64) and rng.random() < 0.5:
            r = rng.choice(RESOLUTIONS)
        out.append((t, r))
    if want is not None and not any(t == want for t, _ in out):
        out.insert(rng.randint(0, len(out)), (want, None))
    return out


RESOLUTIONS = [0.001, 0.01, 0.1, 1.0, 0.5, 0.25, 2.0 ** -10, 0.003, 1e-6, 7.0, 0.0001]


# ---------------------------------------------------------------- values
def limits(t):
    b = SIZE[t] * 8
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t in SIGNED else (0, (1 << b) - 1)


def int_column(rng, t, n):
    """n integers of type t, from a menu of shapes that drive every coding."""
    lo, hi = limits(t)
    shape = rng.randrange(14)

    def cl(v):
        return min(hi, max(lo, v))
    if shape == 0:
        v = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi)])
        return [v] * n
    if shape == 1:
        v0, d = rng.randint(0, min(hi, 1000)), rng.choice([1, -1, 2, 7, 0])
        return [cl(v0 + d * i) for i in range(n)]
    if shape == 2:
        return [rng.randint(lo, hi) for _ in range(n)]
    if shape == 3:  # extremes: largest deltas
        return [rng.choice([lo, hi, 0, lo + 1, hi - 1]) for _ in range(n)]
    if shape == 4:  # small palette
        pal = [rng.randint(lo, hi) for _ in range(rng.choice([2, 3, 4, 5, 8, 9, 16, 17, 33, rng.choice([64, 65, 128, 129, 256, 257, 512, 513, 1024, 1025])]))]
        return [rng.choice(pal) for _ in range(n)]
    if shape == 5:  # runs
        out = []
        while len(out) < n:
            out += [rng.randint(lo, hi)] * rng.choice([1, 2, 3, 10, 127, 128, 129, 300])
        return out[:n]
    if shape == 6:  # runs of deltas
        out, v = [], rng.randint(lo, hi)
        m = hi - lo + 1
        while len(out) < n:
            d = rng.choice([0, 1, -1, 5, rng.randint(0, 300)])
            for _ in range(rng.choice([1, 2, 20, 127, 128, 200])):
                v = lo + (v + d - lo) % m
                out.append(v)
        return out[:n]
    if shape == 7:  # random walk with varint-boundary steps
        out, v = [], 0
        m = hi - lo + 1
        for _ in range(n):
            v = lo + (v - lo + rng.choice([0, 1, -1, 62, 63, 64, -63, -64, -65, 8190, 8191, 8192, -8191, -8192, -8193, 1 << 20])) % m
            out.append(v)
        return out
    if shape == 8:  # alternating extremes
        a, b = rng.choice([(lo, hi), (hi, lo), (lo, 0), (0, lo), (0, hi)])
        return [a if i % 2 == 0 else b for i in range(n)]
    if shape == 9:  # all different, few bits
        p = list(range(n))
        rng.shuffle(p)
        return [cl(x) for x in p]
    if shape == 10:  # powers of two and neighbours
        return [cl(rng.choice([1, -1]) * ((1 << rng.randrange(0, SIZE[t] * 8)) + rng.choice([-1, 0, 1]))) for _ in range(n)]
    if shape == 11:  # mostly constant, rare spikes
        v = rng.randint(lo, hi)
        return [v if rng.random() < 0.97 else rng.randint(lo, hi) for _ in range(n)]
    if shape == 12:  # small noise
        return [cl(100 + rng.randint(-60, 60)) for _ in range(n)]
    return [cl((i * i) % 251) for i in range(n)]


F32_SPECIAL = [0x00000000, 0x80000000, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 0x7F800001, 0x7FFFFFFF, 0xFF812345, 1, 0x80000001, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x3F800000]
F64_SPECIAL = [0, 1 << 63, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000001, 0x7FF0000000000001, 0x7FFFFFFFFFFFFFFF, 1, (1 << 63) | 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0x3FF0000000000000]


def raw_float_column(rng, t, n):
    """Bit patterns (ints) for a float column that must be preserved exactly."""
    b = SIZE[t] * 8
    sp = F32_SPECIAL if t == F32 else F64_SPECIAL
    pk = (lambda x: struct.unpack("<I", struct.pack("<f", x))[0]) if t == F32 else (lambda x: struct.unpack("<Q", struct.pack("<d", x))[0])
    shape = rng.randrange(11)
    if shape == 0:
        return [rng.choice(sp)] * n
    if shape == 1:
        return [rng.getrandbits(b) for _ in range(n)]
    if shape == 2:
        return [rng.choice(sp) for _ in range(n)]
    if shape == 3:
        x = rng.uniform(-100, 100)
        return [pk(x + 0.01 * i) for i in range(n)]
    if shape == 4:  # xor windows of every shape
        out, v = [], rng.getrandbits(b)
        for _ in range(n):
            if rng.random() < 0.25:
                pass
            else:
                lz, tz = rng.randrange(b), rng.randrange(b)
                if lz + tz >= b:
                    tz = b - 1 - lz
                w = b - lz - tz
                x = (1 << (w - 1)) | rng.getrandbits(w) | 1
                v ^= (x & ((1 << w) - 1)) << tz
            out.append(v)
        return out
    if shape == 5:  # window reuse: shrinking then growing windows
        out, v = [], rng.getrandbits(b)
        lz, tz = rng.randrange(0, b // 2), rng.randrange(0, b // 2)
        if rng.random() < 0.5:
            tz = rng.randrange(0, b - lz)
        for _ in range(n):
            l2 = min(b - 1, max(0, lz + rng.choice([0, 1, 2, -1, 0, 5])))
            t2 = min(b - 1 - l2, max(0, tz + rng.choice([0, 1, -1, 0, 3])))
            w = b - l2 - t2
            v ^= ((1 << (w - 1)) | 1) << t2
            out.append(v)
        return out
    if shape == 6:
        return [pk(1.7e9 + 0.0001 * i + rng.random() * 1e-3) for i in range(n)]
    if shape == 7:
        a, c = rng.choice(sp), rng.choice(sp)
        return [a if rng.random() < 0.5 else c for _ in range(n)]
    if shape == 8:  # whole numbers and simple fractions: long runs of zeros at the end
        m, d = rng.choice([2, 5, 20, 300, 1 << 20]), rng.choice([1.0, 1.0, 2.0, 8.0])
        return [pk(rng.randint(-m, m) / d) for _ in range(n)]
    if shape == 9:  # small numbers counted up and down
        x = rng.choice([0, 1, 7, 100, 65535])
        return [pk(float(x := x + rng.choice([0, 1, 1, -1, 2]))) for _ in range(n)]
    return [pk(rng.gauss(0, 1)) for _ in range(n)]


def quant_column(rng, f, n, exact=None):
    """Float bit patterns for a quantized column, respecting |v/res| < 2^31 (2^53)."""
    t, res = f.type, Fraction(f.res)
    pk = (lambda x: struct.unpack("<I", struct.pack("<f", x))[0]) if t == F32 else (lambda x: struct.unpack("<Q", struct.pack("<d", x))[0])
    qmax = (1 << 31) - 300 if t == F32 else (1 << 53) - 300
    nan = [0x7FC00000, 0xFFC00001, 0x7F800001] if t == F32 else [0x7FF8000000000000, 0xFFF8000000000123, 0x7FF0000000000001]
    r = float(res)
    shape = rng.randrange(9)
    out = []
    v = rng.uniform(-50, 50)
    for i in range(n):
        if shape == 0:
            v += rng.uniform(-0.3, 0.3)
            x = v
        elif shape == 1:
            x = rng.uniform(-100, 100)
        elif shape == 2:
            x = r * (rng.randint(-5000, 5000) + rng.choice([0.5, -0.5, 0.499, -0.499, 0.25, 0.0]))
        elif shape == 3:
            x = r * rng.choice([63, 64, 65, -64, -65, 8191, 8192, -8192, 1 << 20, -(1 << 20), 1 << 27]) + r * 0.3
        elif shape == 4:
            x = r * qmax * rng.uniform(-0.999, 0.999)
        elif shape == 5:
            x = rng.choice([0.0, -0.0, r / 3, -r / 3, r * 0.5, -r * 0.5, r])
        elif shape == 6:
            x = v
        elif shape == 7:
            x = (i % 2 * 2 - 1) * r * min(qmax, 1 << rng.randrange(0, 30 if t == F32 else 52))
        else:
            x = r * (i % 1000)
        q = Fraction(x) / res if math.isfinite(x) else 0
        if abs(q) >= qmax:
            x = r * 100.0
        if t == F32 and abs(x) > 3e38:
            x = 0.0
        out.append(pk(x))
    mode = rng.randrange(6)
    if mode == 1 and n:
        for i in range(n):
            if rng.random() < 0.1:
                out[i] = rng.choice(nan)
    elif mode == 2 and n:
        for i in range(n):
            if rng.random() < 0.5:
                out[i] = rng.choice(nan)
    elif mode == 3 and n:
        for i in sorted(set([0, n // 2, n - 1])):
            out[i] = rng.choice(nan)
    elif mode == 4 and n > 3:
        a = rng.randrange(n)
        for i in range(a, min(n, a + rng.randint(1, 6))):
            out[i] = rng.choice(nan)
    return out


def gen_points(rng, info, n, cols=None):
    """Returns (data bytes, columns of raw unsigned ints)."""
    raw = []
    for k, f in enumerate(info.fields):
        b = f.size * 8
        if cols and k in cols:
            c = cols[k]
        elif f.type in (F32, F64):
            c = quant_column(rng, f, n) if info.quantized(f) else raw_float_column(rng, f.type, n)
        else:
            c = int_column(rng, f.type, n)
        raw.append([v & ((1 << b) - 1) for v in c])
    return pack_points(info, raw, n, rng), raw


def pack_points(info, raw, n, rng=None):
    step = info.step
    buf = bytearray(rng.randbytes(step * n)) if rng else bytearray(step * n)
    for f, c in zip(info.fields, raw):
        if f.off == SKIP:
            continue
        sz, off = f.size, f.off
        for i in range(n):
            p = i * step + off
            buf[p:p + sz] = c[i].to_bytes(sz, "little")
    return bytes(buf)


def column(info, f, data, n):
    sz, off, step = f.size, f.off, info.step
    return [int.from_bytes(data[i * step + off:i * step + off + sz], "little") for i in range(n)]


# ---------------------------------------------------------------- cells
def limbs(v, size=8):
    v &= (1 << (8 * size)) - 1
    return [(v >> (16 * k)) & 0xFFFF for k in range((size + 1) // 2)]


def limbs4(v):
    v &= (1 << 64) - 1
    return [v & 0xFFFF, (v >> 16) & 0xFFFF, (v >> 32) & 0xFFFF, v >> 48]


def is_nan(t, bits):
    return (bits & 0x7FFFFFFF) > 0x7F800000 if t == F32 else (bits & 0x7FFFFFFFFFFFFFFF) > 0x7FF0000000000000


def to_float(t, bits):
    return struct.unpack("<f", struct.pack("<I", bits))[0] if t == F32 else struct.unpack("<d", struct.pack("<Q", bits))[0]


def q_of(f, bits):
    """The quantized integer a decoded float denotes: [] for NaN, 4 limbs if the value is exactly
    what the type's arithmetic gives for q*resolution, [-1] when it is no such value."""
    if is_nan(f.type, bits):
        return []
    x = to_float(f.type, bits)
    if not math.isfinite(x):
        return [-1]
    q = round(Fraction(x) / Fraction(f.res))
    for c in (q, q - 1, q + 1):
        if f.type == F32:
            y = f32mul(c, f.res)
            if y is not None and y == x:
                return limbs4(c)
        else:
            if float(c) * f.res == x:
                return limbs4(c)
    if f.type == F32 and abs(q) > (1 << 24):  # several q give the same float: report the class
        return [-2] + limbs4(q)
    if f.type == F64 and abs(q) > (1 << 53):
        return [-2] + limbs4(q)
    return [-1]


def f32mul(q, res):
    """float32(float32(q) * res): the product of two 24-bit significands is exact in double."""
    try:
        return f32(f32i(q) * res)
    except OverflowError:
        return None


def f32i(q):
    """Correctly rounded float32 of an integer."""
    if abs(q) < (1 << 53):
        return f32(float(q))
    return f32(float(q))  # double rounding only matters beyond 2^53


def err_ppm(f, vbits, xbits):
    """Error of the decoded float in millionths of the resolution, minus the rounding allowance of
    the float type. -1: NaN status differs."""
    vn, xn = is_nan(f.type, vbits), is_nan(f.type, xbits)
    if vn or xn:
        return 0 if vn and xn else -1
    x = to_float(f.type, xbits)
    v = to_float(f.type, vbits)
    if not math.isfinite(x):
        return -1
    e = abs(Fraction(x) - Fraction(v))
    eps = Fraction(1, 1 << 23) if f.type == F32 else Fraction(1, 1 << 52)
    slack = 2 * eps * max(abs(Fraction(v)), abs(Fraction(x))) + (Fraction(2) ** -149 if f.type == F32 else 0)
    e = max(Fraction(0), e - slack)
    p = -((-e * 1000000) // Fraction(f.res))
    return int(min(p, 2000000000))
