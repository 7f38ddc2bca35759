// A document small enough to be created thousands of times: the parts of the DOM a page of forms uses.
const VOID = new Set(["meta", "link", "input", "br", "img", "hr"]);

class Events {
  constructor() { this._handlers = {}; }
  addEventListener(type, handler, options) {
    const list = this._handlers[type] = this._handlers[type] || [];
    if (!list.some((h) => h.handler === handler)) list.push({ handler, once: !!(options && options.once) });
  }
  removeEventListener(type, handler) {
    this._handlers[type] = (this._handlers[type] || []).filter((h) => h.handler !== handler);
  }
  dispatchEvent(event) {
    event.target = event.target || this;
    const path = [];
    for (let e = this; e; e = e.parentNode) path.push(e);
    for (const e of path) {
      event.currentTarget = e;
      const own = e["on" + event.type];
      if (typeof own === "function") e.owner().call(own, e, event);
      for (const h of [...((e._handlers || {})[event.type] || [])]) {
        if (h.once) e._handlers[event.type] = e._handlers[event.type].filter((x) => x !== h);
        e.owner().call(h.handler.handleEvent || h.handler, e, event);
      }
      if (event.stopped || !event.bubbles) break;
    }
    return !event.defaultPrevented;
  }
}

export class Event {
  constructor(type, fields = {}) {
    Object.assign(this, { type, bubbles: true, defaultPrevented: false }, fields);
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
}

class Text {
  constructor(doc, data) { this.ownerDocument = doc; this.data = data; this.parentNode = null; this.nodeType = 3; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
}

const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
const decode = (s) => s.replace(/&nbsp;/g, "\u00a0").replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&amp;/g, "&");

class Style {
  constructor() {
    return new Proxy({}, {
      get: (t, k) => k === "setProperty" ? (n, v) => { t[camel(n)] = String(v); } : k === "getPropertyValue" ? (n) => t[camel(n)] || "" : k === "removeProperty" ? (n) => { delete t[camel(n)]; } : (t[k] ?? ""),
      set: (t, k, v) => {
        if (k === "cssText") for (const part of String(v).split(";")) { const [a, b] = part.split(":"); if (b) t[camel(a.trim())] = b.trim(); }
        else t[k] = String(v);
        return true;
      },
    });
  }
}

class Canvas2D {
  constructor(canvas) { this.canvas = canvas; this.calls = []; this.fillStyle = "#000000"; this.strokeStyle = "#000000"; this.imageSmoothingEnabled = true; this.lineWidth = 1; this.globalAlpha = 1; this.font = ""; }
  fillRect(x, y, w, h) { this.calls.push({ op: "rect", x, y, w, h, style: this.fillStyle }); }
  clearRect(x, y, w, h) { if (x <= 0 && y <= 0 && w >= this.canvas.width && h >= this.canvas.height) this.calls = []; else this.calls.push({ op: "clear", x, y, w, h }); }
  putImageData(image, x, y) { this.calls.push({ op: "image", image: { width: image.width, height: image.height, data: Array.from(image.data) }, x, y }); }
  drawImage(source, ...a) {
    const from = source.getContext("2d");
    this.calls.push({ op: "draw", calls: from.calls.slice(), width: source.width, height: source.height, a, smooth: this.imageSmoothingEnabled });
  }
  createImageData(w, h) { return new ImageData(w, h); }
  beginPath() { this.path = []; }
  moveTo(x, y) { (this.path = this.path || []).push(["M", x, y]); }
  lineTo(x, y) { (this.path = this.path || []).push(["L", x, y]); }
  arc(...a) { (this.path = this.path || []).push(["A", ...a]); }
  rect(...a) { (this.path = this.path || []).push(["R", ...a]); }
  closePath() { (this.path = this.path || []).push(["Z"]); }
  fill() { this.calls.push({ op: "fill", path: (this.path || []).slice(), style: this.fillStyle }); }
  stroke() { this.calls.push({ op: "stroke", path: (this.path || []).slice(), style: this.strokeStyle }); }
  save() {} restore() {} translate() {} scale() {} rotate() {} setTransform() {} setLineDash() {} resetTransform() {}
  fillText(...a) { this.calls.push({ op: "text", a }); } strokeText() {} measureText(t) { return { width: 6 * t.length }; }
}

export class ImageData {
  constructor(a, b, c) {
    if (typeof a === "object") { this.data = a; this.width = b; this.height = c ?? a.length / 4 / b; }
    else { this.width = a; this.height = b; this.data = new Uint8ClampedArray(4 * a * b); }
  }
}

export class OffscreenCanvas {
  constructor(w, h) { this.width = w; this.height = h; this._ctx = null; }
  getContext() { return this._ctx = this._ctx || new Canvas2D(this); }
}

export class Element extends Events {
  constructor(doc, tag) {
    super();
    this.ownerDocument = doc; this.tagName = tag.toUpperCase(); this.localName = tag; this.nodeType = 1;
    this.childNodes = []; this.parentNode = null; this.attributes = {}; this.style = new Style();
    this.dataset = {}; this._value = null; this._checked = false; this._selected = null;
    this.clientWidth = 800; this.clientHeight = 600;
    if (tag === "canvas") { this.width = 300; this.height = 150; }
  }
  owner() { return this.ownerDocument; }
  get id() { return this.attributes.id || ""; }
  set id(v) { this.attributes.id = String(v); }
  get className() { return this.attributes.class || ""; }
  set className(v) { this.attributes.class = String(v); }
  get classList() {
    const me = this, list = () => me.className.split(/\s+/).filter(Boolean);
    return {
      contains: (c) => list().includes(c),
      add: (...cs) => { me.className = [...new Set([...list(), ...cs])].join(" "); },
      remove: (...cs) => { me.className = list().filter((x) => !cs.includes(x)).join(" "); },
      toggle: (c, force) => {
        const on = force === undefined ? !list().includes(c) : !!force;
        me.className = list().filter((x) => x !== c).concat(on ? [c] : []).join(" ");
        return on;
      },
      get length() { return list().length; },
    };
  }
  get hidden() { return "hidden" in this.attributes; }
  set hidden(v) { if (v) this.attributes.hidden = ""; else delete this.attributes.hidden; }
  get disabled() { return "disabled" in this.attributes; }
  set disabled(v) { if (v) this.attributes.disabled = ""; else delete this.attributes.disabled; }
  setAttribute(k, v) { this.attributes[k] = String(v); if (k.startsWith("data-")) this.dataset[camel(k.slice(5))] = String(v); if (k === "value") this._value = null; if (k === "checked") this._checked = true; if (k === "style") this.style.cssText = v; }
  getAttribute(k) { return k in this.attributes ? this.attributes[k] : null; }
  hasAttribute(k) { return k in this.attributes; }
  removeAttribute(k) { delete this.attributes[k]; }
  toggleAttribute(k, force) { const on = force === undefined ? !(k in this.attributes) : force; if (on) this.attributes[k] = ""; else delete this.attributes[k]; return on; }
  get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get parentElement() { return this.parentNode; }
  get isConnected() { for (let e = this; e; e = e.parentNode) if (e === this.ownerDocument.documentElement) return true; return false; }
  contains(o) { for (let e = o; e; e = e.parentNode) if (e === this) return true; return false; }
  _adopt(c) { if (typeof c === "string") c = new Text(this.ownerDocument, c); if (c.parentNode) c.parentNode.removeChild(c); c.parentNode = this; return c; }
  appendChild(c) { this.childNodes.push(this._adopt(c)); return c; }
  append(...cs) { for (const c of cs) this.childNodes.push(this._adopt(c)); }
  prepend(...cs) { this.childNodes.unshift(...cs.map((c) => this._adopt(c))); }
  insertBefore(c, ref) { c = this._adopt(c); const i = ref ? this.childNodes.indexOf(ref) : -1; if (i < 0) this.childNodes.push(c); else this.childNodes.splice(i, 0, c); return c; }
  removeChild(c) { this.childNodes = this.childNodes.filter((x) => x !== c); c.parentNode = null; return c; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  replaceChildren(...cs) { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; this.append(...cs); }
  replaceWith(...cs) { const p = this.parentNode, i = p.childNodes.indexOf(this); this.remove(); const r = cs.map((c) => p._adopt(c)); p.childNodes.splice(i, 0, ...r); }
  insertAdjacentHTML(where, html) { const kids = parse(this.ownerDocument, html); if (where === "afterbegin") this.prepend(...kids); else this.append(...kids); }
  insertAdjacentElement(where, e) { if (where === "afterbegin") this.prepend(e); else if (where === "beforeend") this.append(e); else this.parentNode.insertBefore(e, where === "beforebegin" ? this : this.parentNode.childNodes[this.parentNode.childNodes.indexOf(this) + 1]); return e; }
  cloneNode() { const e = new Element(this.ownerDocument, this.localName); Object.assign(e.attributes, this.attributes); return e; }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) { this.replaceChildren(...(v === "" || v === null ? [] : [String(v)])); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.textContent; }
  set innerHTML(v) { this.replaceChildren(...parse(this.ownerDocument, String(v))); }
  get options() { return this.querySelectorAll("option"); }
  get selected() { return this._selected === null ? this.hasAttribute("selected") : this._selected; }
  set selected(v) {
    this._selected = !!v;
    const s = this.closest("select");
    if (v && s) for (const o of s.options) if (o !== this) o._selected = false;
  }
  get selectedIndex() { const o = this.options; let k = -1; o.forEach((x, i) => { if (x.selected) k = i; }); return k < 0 && o.length ? 0 : k; }
  set selectedIndex(i) { this.options.forEach((o, k) => { o._selected = k === i; }); }
  get value() {
    if (this.localName === "select") { const o = this.options[this.selectedIndex]; return o && !this._none ? o.value : ""; }
    if (this.localName === "option") return this.attributes.value ?? this.textContent;
    if (this._value !== null) return this._value;
    return this.localName === "textarea" ? this.textContent : this.attributes.value ?? "";
  }
  set value(v) {
    if (this.localName === "select") { let hit = false; for (const o of this.options) { o._selected = !hit && o.value === String(v); hit = hit || o._selected; } this._none = !hit; }
    else if (this.localName === "option") this.attributes.value = String(v);
    else this._value = v === null ? "" : String(v);
  }
  get valueAsNumber() { return parseFloat(this.value); }
  get checked() { return this._checked; }
  set checked(v) { this._checked = !!v; }
  get type() { return this.attributes.type ?? (this.localName === "input" ? "text" : ""); }
  set type(v) { this.attributes.type = String(v); }
  click() { if (!this.disabled) this.dispatchEvent(new Event("click")); }
  focus() {} blur() {} scrollIntoView() {} setPointerCapture() {} releasePointerCapture() {}
  matches(sel) { return matches(this, sel); }
  closest(sel) { for (let e = this; e && e.nodeType === 1; e = e.parentNode) if (matches(e, sel)) return e; return null; }
  querySelectorAll(sel) {
    const out = [];
    const test = compile(sel);
    const walk = (e) => { for (const c of e.childNodes) if (c.nodeType === 1) { if (test(c)) out.push(c); walk(c); } };
    walk(this);
    return out;
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(t) { return this.querySelectorAll("." + t); }
  getBoundingClientRect() { return { left: 0, top: 0, right: this.clientWidth, bottom: this.clientHeight, width: this.clientWidth, height: this.clientHeight, x: 0, y: 0 }; }
  getContext() { return this._ctx = this._ctx || new Canvas2D(this); }
  getRootNode() { return this.ownerDocument; }
}

// selectors are compiled once
const compiled = new Map();
function simple(s) {
  const parts = s.match(/^[a-zA-Z][\w-]*|\*|#[\w-]+|\.[\w-]+|\[[^\]]+\]|:[\w-]+(\([^)]*\))?/g) || [];
  const tests = parts.map((p) => {
    if (p === "*") return () => true;
    if (p[0] === "#") { const id = p.slice(1); return (e) => e.attributes.id === id; }
    if (p[0] === ".") { const c = p.slice(1); return (e) => e.attributes.class !== undefined && e.classList.contains(c); }
    if (p[0] === "[") {
      const m = p.match(/^\[([\w-]+)(?:([~^$*|]?=)"?'?([^"'\]]*)"?'?)?\]$/);
      return (e) => {
        const v = m[1].startsWith("data-") ? e.dataset[camel(m[1].slice(5))] : e.getAttribute(m[1]);
        return m[2] ? v === m[3] : v !== null && v !== undefined;
      };
    }
    if (p === ":checked") return (e) => e.checked || e.selected;
    if (p[0] === ":") throw new Error("selector " + s);
    const tag = p.toLowerCase();
    return (e) => e.localName === tag;
  });
  return tests.length === 1 ? tests[0] : (e) => tests.every((t) => t(e));
}

function compile(sel) {
  if (compiled.has(sel)) return compiled.get(sel);
  const ones = sel.split(",").map((one) => {
    const toks = one.trim().replace(/\s*>\s*/g, " > ").split(/\s+/).map((t) => (t === ">" ? t : simple(t)));
    const go = (el, i) => {
      if (!toks[i](el)) return false;
      if (i === 0) return true;
      if (toks[i - 1] === ">") return !!el.parentNode && el.parentNode.nodeType === 1 && go(el.parentNode, i - 2);
      for (let p = el.parentNode; p && p.nodeType === 1; p = p.parentNode) if (go(p, i - 1)) return true;
      return false;
    };
    return (e) => go(e, toks.length - 1);
  });
  const f = ones.length === 1 ? ones[0] : (e) => ones.some((g) => g(e));
  compiled.set(sel, f);
  return f;
}
const matches = (e, sel) => compile(sel)(e);

function byId(e, id) {
  for (const c of e.childNodes) {
    if (c.nodeType !== 1) continue;
    if (c.attributes.id === id) return c;
    const hit = byId(c, id);
    if (hit) return hit;
  }
  return null;
}

export function parse(doc, html) {
  const root = new Element(doc, "fragment"), stack = [root];
  const re = /<!--[\s\S]*?-->|<!DOCTYPE[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]*))?)*)\s*(\/?)>|([^<]+|<)/gi;
  let m;
  while ((m = re.exec(html))) {
    const top = stack[stack.length - 1];
    if (m[5] !== undefined) { top.append(decode(m[5])); continue; }
    if (!m[2]) continue;
    const tag = m[2].toLowerCase();
    if (m[1]) { const i = stack.map((e) => e.localName).lastIndexOf(tag); if (i > 0) stack.length = i; continue; }
    const e = new Element(doc, tag);
    for (const a of (m[3] || "").matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?/g)) e.setAttribute(a[1], decode(a[2] ?? a[3] ?? a[4] ?? ""));
    top.append(e);
    if (!VOID.has(tag) && !m[4]) stack.push(e);
    if (tag === "script" || tag === "style") {
      const end = html.toLowerCase().indexOf("</" + tag, re.lastIndex);
      e.append(html.slice(re.lastIndex, end)); re.lastIndex = end; 
    }
  }
  const kids = root.childNodes;
  for (const k of kids) k.parentNode = null;
  root.childNodes = [];
  return kids;
}

export class Document extends Events {
  constructor(html) {
    super();
    this.nodeType = 9; this.errors = [];
    this.documentElement = parse(this, html).find((e) => e.nodeType === 1 && e.localName === "html");
    this.documentElement.parentNode = this;
    this.body = this.documentElement.querySelector("body"); this.head = this.documentElement.querySelector("head");
    this.childNodes = [this.documentElement];
    this.parentNode = null; this.hidden = false; this.visibilityState = "visible"; this.activeElement = this.body; this.readyState = "complete";
  }
  owner() { return this; }
  // what a handler throws is an error of the page, not of the one who dispatched the event
  call(handler, self, event) {
    try {
      const r = handler.call(self, event);
      if (r && typeof r.then === "function") r.then(null, (e) => this.errors.push(e));
    } catch (e) { this.errors.push(e); }
  }
  createElement(tag) { return new Element(this, tag.toLowerCase()); }
  createElementNS(_, tag) { return new Element(this, tag.toLowerCase()); }
  createTextNode(t) { return new Text(this, String(t)); }
  createDocumentFragment() { return new Element(this, "fragment"); }
  getElementById(id) { return byId(this, id); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  querySelectorAll(s) { return (matches(this.documentElement, s) ? [this.documentElement] : []).concat(this.documentElement.querySelectorAll(s)); }
  get children() { return [this.documentElement]; }
}
