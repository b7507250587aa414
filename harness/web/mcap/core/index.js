// Stand-in for @mcap/core: bags come from the harness.
const W = globalThis.__cloudiniWorld;
export class McapIndexedReader {
  static async Initialize({ readable }) {
    const r = new McapIndexedReader();
    await W.gate();
    if (W.fault("init")) throw new Error("bad <i>magic</i>");
    const bag = W.open(readable.blob);
    r.bag = bag;
    r.channelsById = new Map(bag.chans.map((c) => [c.id, { type: "Channel", id: c.id, schemaId: c.schemaId, topic: c.topic, messageEncoding: "cdr", metadata: new Map() }]));
    r.schemasById = new Map(bag.schemas.map(([id, name, encoding]) => [id, { type: "Schema", id, name, encoding, data: new Uint8Array(0) }]));
    r.statistics = { type: "Statistics", messageCount: BigInt(bag.msgs.length), schemaCount: bag.schemas.length, channelCount: bag.chans.length, attachmentCount: 0, metadataCount: 0, chunkCount: 1,
      messageStartTime: 0n, messageEndTime: BigInt(bag.msgs.length), channelMessageCounts: new Map(bag.chans.map((c) => [c.id, BigInt(bag.msgs.filter((m) => m.ch === c.id).length)])) };
    r.header = { type: "Header", profile: "ros2", library: "" };
    r.chunkIndexes = [];
    return r;
  }
  async *readMessages({ topics, startTime, endTime, reverse } = {}) {
    const list = this.bag.msgs.map((m, i) => [m, i]);
    if (reverse) list.reverse();
    let n = 0;
    for (const [m, i] of list) {
      const t = BigInt(i);
      const ch = this.channelsById.get(m.ch);
      if (topics && !topics.includes(ch.topic)) continue;
      if (startTime !== undefined && t < startTime) continue;
      if (endTime !== undefined && t > endTime) continue;
      await W.gate();
      if (W.fault("read") && n++ >= 1) throw new Error("crc <i>mismatch</i>");
      yield { type: "Message", channelId: m.ch, sequence: i, logTime: t, publishTime: t, data: m.data };
    }
    if (W.fault("read")) throw new Error("truncated");
  }
}
