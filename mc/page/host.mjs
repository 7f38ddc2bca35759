// Opens the studio page (the files a browser would get) on a document of its own, with every
// request, reply, timer and frame in the caller's hands.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { pathToFileURL } from "node:url";
import { Document, Event, ImageData, OffscreenCanvas } from "./dom.mjs";

export { Event };
const STATIC = path.join(process.env.PVT_REPO || "/repo", "pvtrace/studio/static");
const real = await import(pathToFileURL(path.join(process.env.PAGE_VENDOR, "three.module.mjs")).href);

// ---- what stands in for the parts which need a graphics card --------------------------------
class WebGLRenderer {
  constructor() { this.domElement = WebGLRenderer.document.createElement("canvas"); this.shadowMap = {}; }
  setPixelRatio() {} setSize() {} setClearColor() {} dispose() {} setAnimationLoop() {}
  render(scene, camera) {
    this.scene = scene; this.camera = camera; WebGLRenderer.last = this;
    scene.updateMatrixWorld(); camera.updateMatrixWorld();
  }
}
class OrbitControls extends real.EventDispatcher {
  constructor(camera, element) { super(); this.object = camera; this.domElement = element; this.enabled = true; this.target = new real.Vector3(); camera.lookAt(0, 0, 0); }
  update() {} dispose() {}
}
// The gizmo as its own source has it: it moves only while it has an object, and tells of the end
// of a drag whether or not it still has one.
class TransformControls extends real.Object3D {
  constructor(camera, element) { super(); this.domElement = element; this.object = undefined; this.enabled = true; this._dragging = false; this.mode = "translate"; TransformControls.last = this; }
  get dragging() { return this._dragging; }
  set dragging(v) { if (v === this._dragging) return; this._dragging = v; this.dispatchEvent({ type: "dragging-changed", value: v }); this.dispatchEvent({ type: "change" }); }
  setMode(mode) { this.mode = mode; } setSpace() {} setSize() {} dispose() {} getHelper() { return this; }
  attach(object) { this.object = object; this.visible = true; return this; }
  detach() { this.object = undefined; this.visible = false; return this; }
  pointerDown() { if (this.object === undefined || this._dragging) return false; this.start = this.object.position.clone(); this.dragging = true; this.dispatchEvent({ type: "mouseDown", mode: this.mode }); return true; }
  pointerMove(offset) {
    if (this.object === undefined || !this._dragging) return false;
    this.object.position.copy(this.start).add(new real.Vector3(...offset));
    this.dispatchEvent({ type: "change" }); this.dispatchEvent({ type: "objectChange" });
    return true;
  }
  pointerUp() { if (!this._dragging) return; this.dispatchEvent({ type: "mouseUp", mode: this.mode }); this.dragging = false; }
}

export const THREE = new Proxy({ ...real, WebGLRenderer }, { get: (t, k) => t[k] });

// ---- the program of the page ------------------------------------------------------------------
function bundle() {
  let text = null;
  try {
    const esbuild = createRequire("/opt/veriftools/node/package.json")("esbuild");
    const out = esbuild.buildSync({
      entryPoints: [path.join(STATIC, "app.js")], bundle: true, write: false, format: "cjs", target: "es2022", logLevel: "silent",
      external: ["three", "/static/*"],
    });
    text = out.outputFiles[0].text;
  } catch (e) {
    if (e.errors && e.errors.some((x) => /syntax|Expected|Unexpected|Unterminated/i.test(x.text))) throw e;
  }
  if (text === null) {
    text = fs.readFileSync(path.join(STATIC, "app.js"), "utf8")
      .replace(/^\s*import\s+\*\s+as\s+(\w+)\s+from\s+(["'][^"']+["']);?/gm, "const $1 = require($2);")
      .replace(/^\s*import\s+(\{[^}]*\})\s+from\s+(["'][^"']+["']);?/gm, "const $1 = require($2);");
  }
  return text;
}
// modules of the page which app.js may import from /static (none is its own today)
function local(name, names, values) {
  const file = path.join(STATIC, name.replace(/^\/static\//, ""));
  const module = { exports: {} };
  const esbuild = createRequire("/opt/veriftools/node/package.json")("esbuild");
  const text = esbuild.buildSync({ entryPoints: [file], bundle: true, write: false, format: "cjs", target: "es2022", external: ["three", "/static/*"] }).outputFiles[0].text;
  new Function("require", "module", "exports", ...names, text)((n) => require_(n, names, values), module, module.exports);
  return module.exports;
}
function require_(name, names, values) {
  if (name === "three") return THREE;
  if (name.includes("OrbitControls")) return { OrbitControls };
  if (name.includes("TransformControls")) return { TransformControls };
  return local(name, names, values);
}
const NAMES = ["window", "document", "fetch", "WebSocket", "localStorage", "location", "performance", "requestAnimationFrame", "cancelAnimationFrame",
  "setTimeout", "clearTimeout", "setInterval", "clearInterval", "ResizeObserver", "ImageData", "OffscreenCanvas", "navigator", "alert", "confirm", "prompt", "console", "Event", "AbortController", "queueMicrotask"];
const program = new Function("require", "module", "exports", ...NAMES, bundle());
const html = fs.readFileSync(path.join(STATIC, "index.html"), "utf8");

export const settle = () => new Promise((resolve) => setImmediate(resolve));
let current = null;
process.on("unhandledRejection", (e) => { if (current) current.errors.push(e); });

// ---- the editor -------------------------------------------------------------------------------
class CodeMirror {
  constructor(page, area) { this.page = page; this.text = area.value; this.handlers = {}; this.options = { readOnly: false }; this.generation = 0; this.clean = 0; }
  on(type, handler) { (this.handlers[type] = this.handlers[type] || []).push(handler); }
  off(type, handler) { this.handlers[type] = (this.handlers[type] || []).filter((h) => h !== handler); }
  _change(text, origin) {
    this.text = text; this.generation++;
    for (const h of this.handlers.change || []) this.page.document.call((e) => h(this, e), null, { origin });
    for (const h of this.handlers.changes || []) this.page.document.call((e) => h(this, [e]), null, { origin });
  }
  getValue() { return this.text; }
  setValue(text) { this._change(String(text), "setValue"); }
  getDoc() { return this; } lineCount() { return this.text.split("\n").length; } getLine(i) { return this.text.split("\n")[i]; }
  getScrollInfo() { return { left: 0, top: 0 }; }
  scrollTo() {} refresh() {} scrollIntoView(where) { this.shown = where; } focus() {} operation(f) { return f(); }
  addLineClass(line) { (this.marked = this.marked || []).push(line); return line; } removeLineClass() {}
  getCursor() { return { line: 0, ch: 0 }; } setCursor() {} setSelection() {} getSelection() { return ""; } hasFocus() { return false; }
  setOption(k, v) { this.options[k] = v; } getOption(k) { return this.options[k]; }
  isReadOnly() { return !!this.options.readOnly; }
  changeGeneration() { return this.generation; } isClean(g) { return this.generation === (g ?? this.clean); } markClean() { this.clean = this.generation; }
  clearHistory() {} getHistory() { return {}; } setHistory() {} getWrapperElement() { return this.page.document.body; } save() {} getScrollerElement() { return this.page.document.body; }
  // what the user does
  type(f) { if (this.options.readOnly || f(this.text) === this.text) return false; this._change(f(this.text), "+input"); return true; }
}

class Socket {
  constructor(page, url) { this.page = page; this.url = url; this.readyState = 0; this.sent = []; this._on = {}; page.sockets.push(this); }
  addEventListener(t, h) { (this._on[t] = this._on[t] || []).push(h); }
  removeEventListener(t, h) { this._on[t] = (this._on[t] || []).filter((x) => x !== h); }
  _tell(type, event) {
    const hs = [...(this._on[type] || [])];
    if (typeof this["on" + type] === "function") hs.unshift(this["on" + type]);
    for (const h of hs) this.page.document.call(h, this, event);
  }
  send(text) {
    if (this.readyState === 0) throw new Error("InvalidStateError: still connecting");
    if (this.readyState === 1) this.page.said(JSON.parse(text));
  }
  close() { if (this.readyState < 2) { this.readyState = 3; this._tell("close", {}); } }
  // what the network does
  open() { this.readyState = 1; this._tell("open", {}); }
  lose() { this.readyState = 3; this._tell("close", { code: 1006 }); }
  message(data) { this._tell("message", { data: JSON.stringify(data) }); }
}
for (const [k, v] of Object.entries({ CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 })) { Socket[k] = v; Socket.prototype[k] = v; }

export class Page {
  constructor({ storage = {}, said = () => {} } = {}) {
    current = this;
    this.errors = []; this.requests = []; this.timers = []; this.sockets = []; this.now = 1000; this.said = said; this.frames = []; this.n = 0;
    const page = this, doc = this.document = new Document(html);
    doc.errors = this.errors;
    WebGLRenderer.document = doc;
    const timer = (f, ms, every) => { page.timers.push({ id: ++page.n, f, at: page.now + (+ms || 0), every }); return page.n; };
    const clear = (id) => { page.timers = page.timers.filter((t) => t.id !== id); };
    const store = { ...storage };
    this.storage = store;
    const localStorage = { getItem: (k) => (k in store ? store[k] : null), setItem: (k, v) => { store[k] = String(v); }, removeItem: (k) => { delete store[k]; }, clear: () => { for (const k of Object.keys(store)) delete store[k]; } };
    const performance = { now: () => page.now };
    const window = {
      document: doc, devicePixelRatio: 1, innerWidth: 1200, innerHeight: 800, localStorage, performance, addEventListener() {}, removeEventListener() {},
      CodeMirror: { fromTextArea: (area) => (page.cm = new CodeMirror(page, area)) },
      location: { host: "studio", protocol: "http:", href: "http://studio/", origin: "http://studio", hostname: "studio", port: "" },
      matchMedia: () => ({ matches: false, addEventListener() {} }), getComputedStyle: () => ({}),
    };
    doc.defaultView = window;
    const fetch = (url, options = {}) => new Promise((resolve, reject) => {
      page.requests.push({ id: ++page.n, url: String(url), method: (options.method || "GET").toUpperCase(), body: options.body === undefined ? null : options.body, resolve, reject, answer: null });
    });
    class ResizeObserver { constructor(f) { this.f = f; } observe() { doc.call(this.f, null, []); } unobserve() {} disconnect() {} }
    const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {}, table() {} };
    const frame = (f) => { page.frames.push(f); return page.frames.length; };
    const values = {
      window, document: doc, fetch, WebSocket: class extends Socket { constructor(url) { super(page, url); } }, localStorage, location: window.location, performance,
      requestAnimationFrame: frame, cancelAnimationFrame() {}, setTimeout: (f, ms) => timer(f, ms), clearTimeout: clear, setInterval: (f, ms) => timer(f, ms, +ms || 1), clearInterval: clear,
      ResizeObserver, ImageData, OffscreenCanvas, navigator: { clipboard: { writeText() {} }, userAgent: "" }, alert() {}, confirm: () => true, prompt: () => null, console: quiet, Event,
      AbortController, queueMicrotask,
    };
    for (const k of NAMES) window[k] = window[k] ?? values[k];
    const list = NAMES.map((k) => values[k]), module = { exports: {} };
    program((n) => require_(n, NAMES, list), module, module.exports, ...list);
    this.gizmo = TransformControls.last;
    this.socket.open();
  }
  get socket() { return this.sockets[this.sockets.length - 1]; }
  $(id) { return this.document.getElementById(id); }
  get text() { return this.cm.getValue(); }
  get scene() { this.frame(); return WebGLRenderer.last.scene; }
  get camera() { return WebGLRenderer.last.camera; }
  get canvas() { return WebGLRenderer.last.domElement; }
  frame() { const fs_ = this.frames; this.frames = []; for (const f of fs_) this.document.call(f, null, this.now); }
  fire(timer) {
    this.timers = this.timers.filter((t) => t !== timer);
    this.now = Math.max(this.now, timer.at);
    if (timer.every) this.timers.push({ ...timer, at: this.now + timer.every });
    this.document.call(timer.f, null, undefined);
  }
  reply(request) {
    this.requests = this.requests.filter((r) => r !== request);
    const { status, body } = request.answer, text = typeof body === "string" ? body : JSON.stringify(body);
    request.resolve({ ok: status < 400, status, statusText: "", headers: { get: () => "application/json" }, json: async () => JSON.parse(text), text: async () => text });
  }
  fail(request) { this.requests = this.requests.filter((r) => r !== request); request.reject(new TypeError("Failed to fetch")); }
  set(element, value, type = "change") {
    if (element.type === "checkbox") element.checked = value; else element.value = value;
    element.dispatchEvent(new Event(type === "change" && element.type === "range" ? "input" : type));
  }
  // fields of the inspector as the user sees them: label -> inputs
  fields() {
    const out = {};
    for (const row of this.$("inspector-fields").querySelectorAll(".field")) {
      const label = row.querySelector("label");
      if (label) out[label.textContent] = row.querySelectorAll("input, select");
    }
    return out;
  }
  action(label) { return this.$("inspector-actions").querySelectorAll("button").find((b) => b.textContent === label || b.textContent.startsWith(label)); }
  segment(name) { this.document.querySelectorAll("#segments button").find((b) => b.dataset.segment === name).click(); }
  pick(name) { this.set(this.$("item-select"), name); }
  meshes(kind) { const out = []; this.scene.traverse((o) => { if (o.userData && o.userData.kind === kind) out.push(o); }); return out; }
}

// ---- asking the parent process ------------------------------------------------------------------
let buffer = "";
const chunk = Buffer.alloc(1 << 20);
export function hear() {
  for (;;) {
    const k = buffer.indexOf("\n");
    if (k >= 0) { const line = buffer.slice(0, k); buffer = buffer.slice(k + 1); return JSON.parse(line); }
    let n;
    try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
    if (n === 0) return null;
    buffer += chunk.toString("utf8", 0, n);
  }
}
export function tell(message) {
  const data = Buffer.from(JSON.stringify(message) + "\n");
  let k = 0;
  while (k < data.length) { try { k += fs.writeSync(1, data, k); } catch (e) { if (e.code !== "EAGAIN") throw e; } }
}
const asked = new Map();
export function ask(question) {
  const key = JSON.stringify(question);
  if (!asked.has(key)) { tell({ ask: question }); asked.set(key, hear()); }
  return asked.get(key);
}
