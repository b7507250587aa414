// Stand-in for @mcap/browser.
export class BlobReadable {
  constructor(blob) { this.blob = blob; }
  async size() { return BigInt(this.blob.size); }
  async read() { throw new Error("not in this world"); }
}
