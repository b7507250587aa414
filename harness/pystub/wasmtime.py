"""Stand-in for the wasmtime package: an instance whose functions are the natively compiled C interface,
with a linear memory of its own. Everything that happens to the memory is recorded in EVENTS."""
import ctypes, mmap, os

EVENTS = []
CFG = {"named": True, "trap": False, "fail": 0, "msg": b""}
PAGE = 65536
_lib = ctypes.CDLL(os.environ["FRONT_LIB"])
_lib.front_call.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint32, ctypes.c_float, ctypes.POINTER(ctypes.c_uint32), ctypes.POINTER(ctypes.c_uint64), ctypes.POINTER(ctypes.c_void_p)]
_lib.front_free.argtypes = [ctypes.c_void_p]
FUNCS = ["cldn_GetHeaderAsYAML", "cldn_GetHeaderAsYAMLFromDDS", "cldn_ComputeCompressedSize", "cldn_GetDecompressedSize", "cldn_DecodeCompressedMessage", "cldn_DecodeCompressedData",
         "cldn_ConvertCompressedMsgToPointCloud2Msg", "cldn_EncodePointcloudMessage"]


class WasmtimeError(Exception):
    pass


class Trap(WasmtimeError):
    pass


class Config:
    def __init__(self):
        self.__dict__["opts"] = {}

    def __setattr__(self, k, v):
        self.opts[k] = v


class Engine:
    def __init__(self, config=None):
        self.config = config


class WasiConfig:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class Store:
    def __init__(self, engine=None, data=None):
        self.engine = engine

    def set_wasi(self, c):
        pass


class _Type:
    def __init__(self, p, r):
        self.params, self.results = p, r


class _Import:
    def __init__(self, module, name, t):
        self.module, self.name, self.type = module, name, t


class Module:
    def __init__(self, engine, wasm):
        if not bytes(wasm).startswith(b"\0asm"):
            raise WasmtimeError("not a WebAssembly module")

    @classmethod
    def from_file(cls, engine, path):
        with open(path, "rb") as f:
            return cls(engine, f.read())

    @property
    def imports(self):
        return [_Import("wasi_snapshot_preview1", "fd_write", _Type(["i32"] * 4, ["i32"])), _Import("env", "__cxa_throw", _Type(["i32"] * 3, [])),
                _Import("env", "invoke_d", _Type(["i32"], ["f64"])), _Import("env", "emscripten_asm_const_int", _Type(["i32"] * 3, ["i32"]))]

    @property
    def exports(self):
        return []


class Func:
    def __init__(self, store, type_, fn, access_caller=False):
        self.type_, self.fn = type_, fn

    def __call__(self, store, *args):
        return self.fn(*args)


class Memory:
    def __init__(self, pages=1024, maximum=2048):
        self.n, self.maximum = pages * PAGE, maximum * PAGE
        self.map = mmap.mmap(-1, self.maximum)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))

    def data_len(self, store):
        return self.n

    def size(self, store):
        return self.n // PAGE

    def data_ptr(self, store):
        return ctypes.cast(self.base, ctypes.POINTER(ctypes.c_ubyte))

    def get_buffer_ptr(self, store, size=None, offset=0):
        return (ctypes.c_ubyte * (self.n - offset if size is None else size)).from_address(self.base + offset)

    def grow(self, store, delta):
        old = self.n // PAGE
        if self.n + delta * PAGE > self.maximum:
            raise WasmtimeError("failed to grow memory")
        self.n += delta * PAGE
        return old

    def read(self, store, start=0, stop=None):
        start, stop, _ = slice(start, stop).indices(self.n)
        if stop <= start:
            return bytearray()
        EVENTS.append({"k": "read", "p": start, "n": stop - start})
        return bytearray(self.map[start:stop])

    def write(self, store, value, start=None):
        start = 0 if start is None else start
        v = bytes(value)
        if start < 0 or start + len(v) > self.n:
            raise IndexError("index out of range")
        EVENTS.append({"k": "write", "p": start, "n": len(v)})
        self.map[start:start + len(v)] = v
        return len(v)


def _i32(x):
    return x - (1 << 32) if x >= 1 << 31 else x


class Heap:
    """malloc and free inside the memory: freed blocks are overwritten and reused soon"""

    def __init__(self, mem):
        self.mem, self.top, self.live, self.idle = mem, 1 << 20, {}, {}

    def malloc(self, store, n):
        if CFG["fail"]:
            CFG["fail"] -= 1
            if not CFG["fail"]:
                EVENTS.append({"k": "malloc", "p": 0, "n": n})
                return 0
        size = max(16, (n + 15) & ~15)
        if self.idle.get(size):
            p = self.idle[size].pop()
        else:
            p = self.top
            if p + size + 64 > self.mem.maximum:
                EVENTS.append({"k": "malloc", "p": 0, "n": n})
                return 0
            self.top = p + size + 64
            while self.top > self.mem.n:
                self.mem.grow(store, min(256, (self.mem.maximum - self.mem.n) // PAGE))
        self.live[p] = n
        self.mem.map[p:p + min(n, 1 << 16)] = b"\xA5" * min(n, 1 << 16)
        EVENTS.append({"k": "malloc", "p": p, "n": n})
        return p

    def free(self, store, p):
        p &= 0xFFFFFFFF
        EVENTS.append({"k": "free", "p": p})
        n = self.live.pop(p, None)
        if n is not None:
            self.mem.map[p:p + min(n, 1 << 16)] = b"\xDD" * min(n, 1 << 16)
            self.idle.setdefault(max(16, (n + 15) & ~15), []).append(p)


class Instance:
    def __init__(self, store=None, module=None, imports=None):
        self.mem = Memory()
        self.heap = Heap(self.mem)

    def exports(self, store):
        e = {}
        if CFG["named"]:
            e["memory"] = self.mem
        e["_initialize"] = Func(store, None, lambda *a: None)
        e["__indirect_function_table"] = object()
        e["malloc"] = lambda store, n: self.heap.malloc(store, n)
        e["free"] = lambda store, p: self.heap.free(store, p)
        e["__wasm_call_ctors"] = lambda store: None
        for f in FUNCS:
            e[f] = self.function(f)
        if not CFG["named"]:
            e["q"] = self.mem
        return e

    def function(self, f):
        def call(store, ptr, n, *rest):
            ptr, n = ptr & 0xFFFFFFFF, n & 0xFFFFFFFF
            res = 0.001
            out = 0
            if f in ("cldn_ComputeCompressedSize",):
                res = rest[0]
            elif f == "cldn_EncodePointcloudMessage":
                res, out = rest
            elif f != "cldn_GetDecompressedSize":
                out, = rest
            ev = {"k": "call", "fn": f, "p": ptr, "n": n, "out": out, "need": 0, "ret": 0, "same": 0}
            EVENTS.append(ev)
            if ptr + n > self.mem.n:
                raise Trap("out of bounds memory access")
            data = self.mem.map[ptr:ptr + n]
            ev["same"] = int(data == CFG["msg"])
            ret, need, o = ctypes.c_uint32(), ctypes.c_uint64(), ctypes.c_void_p()
            rc = _lib.front_call(f.encode(), data, n, res, ctypes.byref(ret), ctypes.byref(need), ctypes.byref(o))
            try:
                ev["need"], ev["ret"] = need.value, ret.value
                if rc == 2:
                    raise Trap("too large")
                if rc == 3:
                    raise Trap("exception")
                if out + need.value > self.mem.n:
                    raise Trap("out of bounds memory access")
                if need.value and ret.value:
                    self.mem.map[out:out + need.value] = ctypes.string_at(o.value, need.value)
            finally:
                if o.value:
                    _lib.front_free(o)
            if CFG["trap"] and ret.value == 0:
                raise Trap("unreachable")
            return _i32(ret.value)
        return call


class Linker:
    def __init__(self, engine):
        pass

    def define_wasi(self):
        pass

    def define(self, store, module, name, item):
        # what the module's runtime would get back from the stub
        t = item.type_
        r = item(store, *([0] * len(t.params)))
        if t.results and not isinstance(r, float if "f" in t.results[0] else int) or not t.results and r is not None:
            raise WasmtimeError("import %s returned %r" % (name, r))

    def define_func(self, module, name, t, f, access_caller=False):
        pass

    def instantiate(self, store, module):
        return Instance(store, module)
