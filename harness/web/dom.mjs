// As much of a browser's document as a page of this kind needs.
const esc = (s) => String(s).replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" })[c]);
export class Element {
  constructor(doc, tag, id) {
    Object.assign(this, { doc, tagName: tag.toUpperCase(), id: id ?? "", style: {}, dataset: {}, files: [], value: "", className: "", children: [], parentNode: null, disabled: false, html: "", on: new Map(), attrs: new Map(), clicking: false });
    const classes = new Set();
    this.classList = { add: (...c) => c.forEach((x) => classes.add(x)), remove: (...c) => c.forEach((x) => classes.delete(x)), contains: (c) => classes.has(c), toggle: (c, f) => { const want = f ?? !classes.has(c); want ? classes.add(c) : classes.delete(c); return want; } };
  }
  addEventListener(k, f, opt) { if (!this.on.has(k)) this.on.set(k, []); const l = this.on.get(k); if (!l.some((x) => x.f === f)) l.push({ f, once: !!opt?.once }); }
  removeEventListener(k, f) { this.on.set(k, (this.on.get(k) ?? []).filter((x) => x.f !== f)); }
  fire(k, e) {
    e.target ??= this;
    e.currentTarget ??= this;
    for (const x of [...(this.on.get(k) ?? [])]) { if (x.once) this.removeEventListener(k, x.f); x.f.call(this, e); }
    if (typeof this["on" + k] === "function") this["on" + k](e);
  }
  click() {
    if (this.clicking || this.disabled) return;
    this.clicking = true;
    try {
      let stopped = false;
      const e = { type: "click", target: this, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { stopped = true; } };
      for (let n = this; n && !stopped; n = n.parentNode) { e.currentTarget = n; n.fire("click", e); }
      if (this.tagName === "INPUT" && !e.defaultPrevented) this.doc.host.dialog(this);
    } finally { this.clicking = false; }
  }
  get innerHTML() { return this.html + this.children.map((c) => c.outerHTML).join(""); }
  set innerHTML(s) {
    this.children = [];
    this.html = String(s);
    this.doc.adopt(this);
  }
  get outerHTML() { const t = this.tagName.toLowerCase(); return `<${t}${this.id ? ` id="${esc(this.id)}"` : ""}>${this.innerHTML}</${t}>`; }
  get textContent() { return this.innerHTML.replace(/<[^>]*>/g, ""); }
  set textContent(s) { this.innerHTML = esc(s); }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = s; }
  setAttribute(k, v) { this.attrs.set(k, String(v)); if (k in this) this[k] = v; }
  getAttribute(k) { return this.attrs.get(k) ?? null; }
  removeAttribute(k) { this.attrs.delete(k); }
  append(...cs) { for (const c of cs) this.appendChild(typeof c === "string" ? Object.assign(new Text(c)) : c); }
  appendChild(c) { c.parentNode = this; this.children.push(c); if (c.tagName === "SCRIPT") this.doc.host.script(c); return c; }
  replaceChildren(...cs) { this.innerHTML = ""; this.append(...cs); }
  removeChild(c) { this.children = this.children.filter((x) => x !== c); c.parentNode = null; return c; }
  remove() { this.parentNode?.removeChild(this); }
  querySelector(q) { return q.startsWith("#") ? this.doc.getElementById(q.slice(1)) : null; }
  querySelectorAll(q) { const e = this.querySelector(q); return e ? [e] : []; }
  hasAttribute(k) { return this.attrs.has(k); }
  toggleAttribute(k, f) { const want = f ?? !this.attrs.has(k); want ? this.setAttribute(k, "") : this.removeAttribute(k); return want; }
  dispatchEvent(e) { this.fire(e.type, e); return !e.defaultPrevented; }
  insertAdjacentHTML(where, s) {
    const raw = { raw: String(s), get outerHTML() { return this.raw; } };
    if (where === "afterbegin" && !this.html) this.children.unshift(raw);
    else if (where === "afterbegin") this.html = raw.raw + this.html;
    else this.children.push(raw);
    this.doc.gain(this, raw.raw);
  }
  insertAdjacentElement(where, e) { where === "afterbegin" ? this.prepend(e) : this.appendChild(e); return e; }
  prepend(...cs) { for (const c of cs.reverse()) this.insertBefore(typeof c === "string" ? new Text(c) : c, this.children[0]); }
  insertBefore(c, ref) {
    const k = ref ? this.children.indexOf(ref) : -1;
    this.appendChild(c);
    if (k >= 0) { this.children.pop(); this.children.splice(k, 0, c); }
    return c;
  }
  replaceWith(e) { const p = this.parentNode; if (!p) return; const k = p.children.indexOf(this); if (k >= 0) p.children[k] = e; e.parentNode = p; this.parentNode = null; this.doc.swap(this, e); }
  replaceChild(e, old) { old.replaceWith(e); return old; }
  contains(e) { for (let n = e; n; n = n.parentNode) if (n === this) return true; return false; }
  closest(q) { for (let n = this; n; n = n.parentNode) if (q === "#" + n.id || q.toUpperCase() === n.tagName) return n; return null; }
  matches(q) { return q === "#" + this.id || q.toUpperCase() === this.tagName; }
  cloneNode() { const e = new Element(this.doc, this.tagName, this.id); e.html = this.html; for (const [k, v] of this.attrs) e.setAttribute(k, v); return e; }
  get firstChild() { return this.children[0] ?? null; }
  get firstElementChild() { return this.children[0] ?? null; }
  get childElementCount() { return this.children.length; }
  get nodeName() { return this.tagName; }
  get parentElement() { return this.parentNode; }
}
class Text { constructor(s) { this.s = s; this.tagName = ""; } get outerHTML() { return esc(this.s); } }
export class Document {
  constructor(markup, host) {
    this.host = host;
    this.ids = new Map();
    this.head = new Element(this, "head");
    this.body = new Element(this, "body");
    this.documentElement = new Element(this, "html");
    this.readyState = "complete";
    // the elements of the page, flat; the file input lies within the drop zone
    for (const m of markup.matchAll(/<(\w+)[^>]*\bid="([^"]+)"[^>]*>/g)) this.ids.set(m[2], new Element(this, m[1], m[2]));
    const zone = this.ids.get("dropZone"), input = this.ids.get("fileInput");
    if (zone && input) { input.parentNode = zone; zone.held = ["fileInput"]; }
  }
  // the elements with an id inside of freshly set markup
  adopt(el) {
    for (const id of el.held ?? []) { const old = this.ids.get(id); if (old) { old.parentNode = null; this.ids.delete(id); } }
    el.held = [];
    for (const m of el.html.matchAll(/<(\w+)[^>]*\bid="([^"]+)"[^>]*>/g)) {
      if (this.ids.has(m[2])) continue;
      const e = new Element(this, m[1], m[2]);
      e.parentNode = el;
      this.ids.set(m[2], e);
      el.held.push(m[2]);
    }
  }
  gain(el, markup) {
    for (const m of markup.matchAll(/<(\w+)[^>]*\bid="([^"]+)"[^>]*>/g)) {
      if (this.ids.has(m[2])) continue;
      const e = new Element(this, m[1], m[2]);
      e.parentNode = el;
      this.ids.set(m[2], e);
      (el.held ??= []).push(m[2]);
    }
  }
  swap(old, e) { if (old.id && this.ids.get(old.id) === old) this.ids.delete(old.id); if (e.id) this.ids.set(e.id, e); }
  getElementById(id) {
    if (this.ids.has(id)) return this.ids.get(id);
    for (const e of this.ids.values()) for (const c of e.children) if (c.id === id) return c;
    return null;
  }
  querySelector(q) { return q.startsWith("#") ? this.getElementById(q.slice(1)) : null; }
  createElement(t) { return new Element(this, t); }
  querySelectorAll(q) { const e = this.querySelector(q); return e ? [e] : []; }
  createDocumentFragment() { return new Element(this, "fragment"); }
  createTextNode(s) { return new Text(s); }
  addEventListener(k, f) { if (k === "DOMContentLoaded") f({}); }
}
