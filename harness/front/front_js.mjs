// Runs histories of the Foxglove converter: stdin one JSON history per line, stdout one JSON result per line.
import fs from "node:fs";
import crypto from "node:crypto";
import readline from "node:readline";
const dir = process.argv[2];
const sha = (b) => crypto.createHash("sha256").update(b).digest("hex").slice(0, 16);
process.on("unhandledRejection", () => {});
console.log = console.warn = console.error = console.info = console.debug = () => {};
const describe = (m) => ({
  w: m.width, h: m.height, step: m.point_step, row: m.row_step, big: m.is_bigendian === false ? 0 : 1, dense: m.is_dense ? 1 : 0, head: JSON.stringify([m.header.frame_id, m.header.stamp]),
  fields: m.fields.map((f) => [f.name, f.offset, f.datatype, f.count]), n: m.data.byteLength, dig: sha(m.data), keys: Object.keys(m).sort().join(",") });
for await (const line of readline.createInterface({ input: process.stdin })) {
  const plan = JSON.parse(line);
  // a new instance of the extension for every history
  const here = fs.mkdtempSync(`${dir}/x`);
  let result;
  try {
    for (const f of ["front.js", "cloudini_wasm_single.js"]) fs.copyFileSync(`${dir}/${f}`, `${here}/${f}`);
    fs.writeFileSync(`${here}/package.json`, '{"type":"module"}');
    const { EVENTS, CFG, STATE } = await import(`${here}/cloudini_wasm_single.js`);
    let release = null;
    CFG.growing = plan.growing;
    if (plan.hold) CFG.hold = new Promise((r) => { release = r; });
    const conv = await import(`${here}/front.js`);
    let registered = [];
    conv.activate({ registerMessageConverter: (c) => registered.push(c) });
    let convert = conv.convertPointCloudWasm;
    if (plan.through && registered.length === 1) convert = (m) => registered[0].converter(m, { topic: "/t", receiveTime: { sec: 0, nsec: 0 }, message: m });
    const kept = [];
    const settle = () => new Promise((r) => setImmediate(r));
    if (!plan.hold) await settle();
    for (const st of plan.steps) {
      if (release && !st.wait) { release(); release = null; await conv.loadCloudiniWasm(); await settle(); }
      const raw = fs.readFileSync(st.file);
      // the payload is a view of a larger buffer, as when it comes out of a message
      const host = new Uint8Array(raw.byteLength + st.off + st.after).fill(0x77);
      host.set(raw, st.off);
      const data = new Uint8Array(host.buffer, st.off, raw.byteLength);
      const msg = { ...st.msg, fields: st.msg.fields.map(([name, offset, datatype, count]) => ({ name, offset, datatype, count })), is_bigendian: st.msg.is_bigendian, compressed_data: data, format: "cloudini" };
      const before = JSON.stringify({ ...msg, compressed_data: sha(data) });
      CFG.fail = st.fail ?? 0;
      EVENTS.push({ k: "begin" });
      const r = { k: "end", ok: 0 };
      try {
        const out = convert(msg);
        r.ok = 1;
        r.got = describe(out);
        kept.push([out, JSON.stringify(r.got)]);
      } catch (e) { r.ex = String(e?.message ?? e).slice(0, 200); }
      CFG.fail = 0;
      r.input = before === JSON.stringify({ ...msg, compressed_data: sha(data) }) ? 1 : 0;
      EVENTS.push(r);
    }
    result = { ev: EVENTS, later: kept.every(([m, s]) => JSON.stringify(describe(m)) === s) && EVENTS.every((e) => e.k !== "end" || e.input === 1) ? 1 : 0, instances: STATE.instances,
      reg: registered.map((c) => [c.type, c.fromSchemaName, c.toSchemaName]) };
  } catch (e) { result = { crash: String(e?.stack ?? e).slice(0, 500) }; }
  fs.rmSync(here, { recursive: true, force: true });
  process.stdout.write(JSON.stringify(result) + "\n");
}
