// Runs the web page on a stand-in of the browser: stdin one JSON plan per line, stdout one JSON result per line.
// The bags, the WebAssembly module and the moments at which asynchronous work completes come from the plan.
import readline from "node:readline";
import { Element, Document } from "./dom.mjs";
const page = process.argv[2];
const markup = process.argv[3];
process.on("unhandledRejection", () => {});
console.log = console.warn = console.error = console.info = console.debug = () => {};
const settle = async () => { for (let k = 0; k < 3; k++) { await new Promise((r) => setTimeout(r, 0)); await new Promise((r) => setImmediate(r)); } };

let W;  // the world of the plan under way
globalThis.__cloudiniWorld = {
  gate: () => new Promise((r) => W.pending.push(r)),
  open: (blob) => { if (!blob || blob.bag === undefined) throw new Error("not a file of this world"); return W.bags[blob.bag]; },
  fault: (k) => W.faults[W.attempt - 1] === k,
};

function buildBag(b, at) {
  const total = b.msgs.reduce((s, m) => s + m.size, 0);
  const chunk = new Uint8Array(total + 64);
  let p = 32;
  b.msgs.forEach((m, i) => {
    m.data = chunk.subarray(p, p + m.size);
    m.data.fill((i * 37 + at * 101 + 11) & 255);
    for (let k = 0; k < m.size; k += 251) m.data[k] = (k + i * 7 + at) & 255;
    [at + 1, i & 255, i >> 8, 0xC1].forEach((x, k) => { if (k < m.size) m.data[k] = x; });
    p += m.size;
  });
  return b;
}

function makeModule() {
  const live = new Map();
  const mod = {};
  let heap = new Uint8Array(W.plan.heap).fill(0x5C), top = 1024, mallocs = 0;
  const bad = (what) => { if (!W.bad.includes(what)) W.bad.push(what); };
  const intact = () => {
    let p = 0;
    const ok = Buffer.alloc(65536, 0x5C);
    const check = (a, b) => { for (; a < b; a += 65536) { const n = Math.min(65536, b - a); if (Buffer.compare(ok.subarray(0, n), Buffer.from(heap.buffer, a, n))) return bad("memory outside of the allocated block was written"); } };
    for (const [a, n] of [...live].sort((x, y) => x[0] - y[0])) { check(p, a); p = a + n; }
    check(p, heap.length);
  };
  const compute = (bytes, res, at) => {
    const [g, lo, hi, magic] = bytes;
    const msg = magic === 0xC1 && g >= 1 && g <= W.bags.length ? W.bags[g - 1].msgs[lo + 256 * hi] : undefined;
    if (!msg || Buffer.compare(Buffer.from(bytes.buffer, bytes.byteOffset, bytes.length), Buffer.from(msg.data.buffer, msg.data.byteOffset, msg.data.length))) bad("the library was not given the bytes of a message");
    if (Math.abs(res - 0.001) > 1e-9) bad("the resolution was not one millimetre");
    if (msg?.fault === "throw") throw new Error("memory access out of bounds");
    if (msg?.fault === "zero") return 0;
    return msg ? msg.comp : 1;
  };
  const calls = {
    cldn_ComputeCompressedSize: (ptr, size, res) => {
      intact();
      if (!live.has(ptr) || live.get(ptr) < size) { bad("the library was given memory that is not allocated"); return 0; }
      return compute(heap.subarray(ptr, ptr + size), res);
    },
  };
  const growTo = (n) => { heap = new Uint8Array(heap.buffer.transfer(n)); heap.fill(0x5C, W.plan.heap); if (mod.HEAPU8) mod.HEAPU8 = heap; };
  if (W.plan.mode === "mem") {
    mod.HEAPU8 = heap;
    mod._malloc = (n) => {
      intact();
      mallocs++;
      if (W.plan.grown && mallocs === W.plan.first) growTo(W.plan.grown);
      if (W.plan.oom.includes(n)) return 0;
      n = Math.max(n, 1);
      // the lowest gap that is large enough
      let p = 1024;
      for (const [a, k] of [...live].sort((x, y) => x[0] - y[0])) { if (a - p >= n) break; p = (a + k + 31) & ~15; }
      if (p + n + 16 > heap.length) return 0;
      live.set(p, n);
      return p;
    };
    mod._free = (p) => { if (p === 0) return; if (!live.has(p)) return bad("memory was released that was not allocated"); heap.fill(0x5C, p, p + live.get(p)); live.delete(p); };
    mod._cldn_ComputeCompressedSize = calls.cldn_ComputeCompressedSize;
  }
  mod.ccall = (name, ret, types, args) => {
    if (name !== "cldn_ComputeCompressedSize") throw new Error("no such function");
    if (types[0] === "array") { if (args[1] !== args[0].length) bad("the library was given a wrong size"); return compute(Uint8Array.from(args[0]), args[2]); }
    return calls[name](...args);
  };
  mod.cwrap = (name, ret, types) => (...args) => mod.ccall(name, ret, types, args);
  W.modules.push({ done: () => { intact(); if (live.size) bad("memory of the module was not released"); } });
  return mod;
}

async function run(plan, n) {
  W = { plan, bags: plan.bags.map(buildBag), faults: plan.faults, attempt: 0, pending: [], bad: [], modules: [], dialogs: [] };
  const doc = (globalThis.document = new Document(markup, {
    dialog: (el) => W.dialogs.push(el),
    script: async (s) => {
      await globalThis.__cloudiniWorld.gate();
      if (globalThis.__cloudiniWorld.fault("script")) { s.fire("error", { type: "error" }); return; }
      globalThis.CloudiniModule = async () => {
        await globalThis.__cloudiniWorld.gate();
        if (globalThis.__cloudiniWorld.fault("module")) throw new Error("<b>no module</b>");
        return makeModule();
      };
      s.fire("load", { type: "load" });
    },
  }));
  globalThis.window = globalThis;
  delete globalThis.CloudiniModule;
  await import(`${page}?${n}`);
  const zone = doc.getElementById("dropZone");
  const busy = () => zone.classList.contains("disabled");
  const files = plan.bags.map((b, k) => ({ name: b.name, size: 100 + k, type: "", lastModified: 0, bag: k }));
  const mine = (f) => f !== undefined && !busy() && f.name.endsWith(".mcap") && W.attempt++;
  const obs = [];
  const look = (o) => obs.push({ busy: busy() ? 1 : 0, status: doc.getElementById("status").innerHTML, results: doc.getElementById("results").innerHTML, ...o });
  look({});
  for (const [what, arg, more] of plan.acts) {
    const o = {};
    if (what === "drop") {
      const fs = [arg, ...(more ?? [])].filter((k) => k > 0).map((k) => files[k - 1]);
      mine(fs[0]);
      let kept = 0;
      zone.fire("drop", { type: "drop", preventDefault: () => { kept = 1; }, stopPropagation() {}, dataTransfer: { files: fs, items: [], types: ["Files"] } });
      o.kept = kept;
    } else if (what === "over") {
      let kept = 0;
      zone.fire("dragover", { type: "dragover", preventDefault: () => { kept = 1; }, stopPropagation() {}, dataTransfer: {} });
      o.kept = kept;
    } else if (what === "leave") zone.fire("dragleave", { type: "dragleave", preventDefault() {}, stopPropagation() {} });
    else if (what === "click") { const was = W.dialogs.length; zone.click(); o.dlg = W.dialogs.length - was; }
    else if (what === "choose") {
      const el = W.dialogs.shift();
      const f = files[arg - 1];
      if (el && el.files[0] !== f) { el.files = [f]; el.value = f.name; mine(f); el.fire("change", { type: "change", target: el, currentTarget: el, preventDefault() {}, stopPropagation() {} }); }
    } else if (what === "cancel") W.dialogs.shift();
    else if (what === "tick") { if (W.pending.length) W.pending.splice(arg % W.pending.length, 1)[0](); }
    else if (what === "finish") {
      for (let k = 0; k < 200000; k++) {
        while (W.pending.length) W.pending.shift()();
        await new Promise((r) => setImmediate(r));
        if (!W.pending.length) { await settle(); if (!W.pending.length) break; }
      }
    }
    await settle();
    look(o);
  }
  for (const m of W.modules) m.done();
  return { obs, bad: W.bad };
}

let n = 0;
for await (const line of readline.createInterface({ input: process.stdin })) {
  let result;
  try { result = await run(JSON.parse(line), n++); } catch (e) { result = { crash: String(e?.stack ?? e).slice(0, 600) }; }
  process.stdout.write(JSON.stringify(result) + "\n");
}
process.exit(0);
