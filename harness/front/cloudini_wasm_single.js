// Stand-in for the Emscripten build: a module with a linear memory that grows (detaching the old buffer),
// an allocator, and functions that are the natively compiled C interface. Records what happens.
import { createRequire } from "node:module";
const native = createRequire(import.meta.url)(process.env.FRONT_LIB);
export const EVENTS = [];
export const CFG = { fail: 0, hold: null };
const PAGE = 65536;
const NAMES = ["cldn_GetHeaderAsYAML", "cldn_GetHeaderAsYAMLFromDDS", "cldn_ComputeCompressedSize", "cldn_GetDecompressedSize", "cldn_DecodeCompressedMessage",
  "cldn_DecodeCompressedData", "cldn_ConvertCompressedMsgToPointCloud2Msg", "cldn_EncodePointcloudMessage"];
export const STATE = { instances: 0 };
export default async function CloudiniModule() {
  STATE.instances++;
  if (CFG.hold) await CFG.hold;
  const memory = new WebAssembly.Memory({ initial: 1024, maximum: 2048 });
  const mod = {};
  const views = () => { mod.HEAPU8 = new Uint8Array(memory.buffer); mod.HEAP8 = new Int8Array(memory.buffer); };
  views();
  let top = 1 << 20;
  const live = new Map(), idle = new Map();
  const grow = (end) => {
    const pages = Math.ceil((end - memory.buffer.byteLength) / PAGE);
    if (pages > 0) { memory.grow(Math.min(Math.max(pages, 64), 2048 - memory.buffer.byteLength / PAGE)); views(); }
  };
  const sizeOf = (n) => Math.max(16, (n + 15) & ~15);
  mod._malloc = (n) => {
    n = n >>> 0;
    if (CFG.fail && --CFG.fail === 0) { EVENTS.push({ k: "malloc", p: 0, n }); return 0; }
    const s = sizeOf(n);
    let p;
    if (idle.get(s)?.length) p = idle.get(s).pop();
    else {
      if (top + s + 64 > 2048 * PAGE) { EVENTS.push({ k: "malloc", p: 0, n }); return 0; }
      p = top;
      top += s + 64;
      grow(top);
    }
    live.set(p, n);
    mod.HEAPU8.fill(0xa5, p, p + Math.min(n, 1 << 16));
    EVENTS.push({ k: "malloc", p, n });
    return p;
  };
  mod._free = (p) => {
    p = p >>> 0;
    EVENTS.push({ k: "free", p });
    if (live.has(p)) {
      const n = live.get(p);
      live.delete(p);
      mod.HEAPU8.fill(0xdd, p, p + Math.min(n, 1 << 16));
      const s = sizeOf(n);
      idle.set(s, [...(idle.get(s) ?? []), p]);
    }
  };
  const invoke = (f, p, n, rest) => {
    p = p >>> 0; n = n >>> 0;
    let res = 0.001, out = 0;
    if (f === "cldn_ComputeCompressedSize") res = rest[0];
    else if (f === "cldn_EncodePointcloudMessage") [res, out] = rest;
    else if (f !== "cldn_GetDecompressedSize") [out] = rest;
    const ev = { k: "call", fn: f, p, n, out, need: 0, ret: 0 };
    EVENTS.push(ev);
    if (p + n > memory.buffer.byteLength) throw new WebAssembly.RuntimeError("memory access out of bounds");
    const r = native.call(f, new Uint8Array(memory.buffer, p, n).slice(), res);
    ev.need = r.need; ev.ret = r.ret;
    if (r.rc !== 0) throw new WebAssembly.RuntimeError("rc " + r.rc);
    if (CFG.growing) { grow(memory.buffer.byteLength + PAGE <= 2048 * PAGE ? memory.buffer.byteLength + 1 : 0); }  // the function allocates
    if (r.need && r.ret) {
      if (out + r.need > memory.buffer.byteLength) throw new WebAssembly.RuntimeError("memory access out of bounds");
      mod.HEAPU8.set(r.out, out);
    }
    return r.ret;
  };
  for (const f of NAMES) mod["_" + f] = (p, n, ...rest) => invoke(f, p, n, rest);
  mod.ccall = (name, ret, types, args) => {
    const held = [];
    const a = args.map((x, k) => { if (types[k] !== "array") return x; const p = mod._malloc(x.length); mod.HEAPU8.set(x, p); held.push(p); return p; });
    try { return mod["_" + name](...a); } finally { held.forEach((p) => mod._free(p)); }
  };
  mod.cwrap = (name, ret, types) => (...args) => mod.ccall(name, ret, types, args);
  return mod;
}
