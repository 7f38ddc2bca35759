// What the studio page displays of runs: the messages come from the real server, in every order with what the user does.
import { Page, Event, settle, ask, hear, tell, THREE } from "./host.mjs";

const near = (a, b, eps = 1e-6) => Math.abs(a - b) <= eps * Math.max(1, Math.abs(b));
const DEFAULT = { showWorld: false, showGrid: true, showDocument: true, hidden: [], layer: "escaping", isolate: "", opacity: 0.55 };

export class Execution {
  constructor(job) {
    this.job = job; this.doc = job.docs[0]; this.trace = []; this.problems = []; this.queue = []; this.seed = 0; this.say = []; this.set = { ...DEFAULT, hidden: [] };
    this.run = null; this.live = null; this.selected = null; this.shownDoc = null;
    this.page = new Page({ said: (m) => this.said(m) });
  }
  bad(text) { if (!this.problems.includes(text)) this.problems.push(text); }
  // the server, as its own check (C21) has it: a run ends when it is told to stop, and before the next one starts
  said(m) {
    this.say.push(m);
    const cut = () => { const s = this.queue.findIndex((x) => x.type === "started"); const keep = s >= 0 ? [] : []; if (this.live) { this.queue = this.live.announced ? keep.concat([{ type: "done", elapsed: 1 }]) : []; this.live = null; } };
    if (m.cmd === "stop") cut();
    if (m.cmd === "run") {
      const old = this.live; cut();
      const messages = ask({ run: this.doc, rays: this.job.rays || 60, bundle: this.job.bundle || 20, seed: ++this.seed, every: this.job.every || 7, paths: this.job.paths || 5 });
      this.live = { announced: false };
      this.queue.push(...messages);
    }
  }
  async answer() { // let every request through
    for (let k = 0; k < 20 && this.page.requests.length; k++) {
      const r = this.page.requests[0];
      const a = ask({ doc: this.doc, applied: true, method: r.method, url: r.url, body: r.body });
      this.doc = a.doc;
      r.answer = { status: a.status, body: a.body };
      this.page.reply(r);
      await settle();
      if (a.body && a.body.scene) { this.scene = a.body.scene; this.shownDoc = this.doc; }
    }
  }
  async open() { await settle(); await this.answer(); }
  deliver() {
    const m = this.queue.shift();
    if (m.type === "started") { this.run = { meta: m.histograms, total: m.total, last: null, paths: [], ended: false, doc: this.startDoc, fresh: true }; if (this.live) this.live.announced = true; }
    else if (m.type === "bundle" && this.run) { this.run.last = m; this.run.paths.push(...m.paths); this.run.painted = this.scene; }
    else if (m.type === "done" && this.run) { this.run.ended = true; if (!this.queue.length) this.live = null; }
    this.page.socket.message(m);
    return m;
  }
  actions(names) {
    const p = this.page, out = [], f = p.fields();
    const add = (k, run) => { if (names.includes(k)) out.push([k, run]); };
    const segment = this.segment = p.document.querySelectorAll("#segments button").find((b) => b.classList.contains("active")).dataset.segment;
    add("run", () => p.$("run").click());
    add("stop", () => p.$("stop").click());
    if (this.queue.length) add("message", () => this.deliver());
    for (const s of ["nodes", "recorders", "view"]) if (segment !== s) add("to " + s, () => p.segment(s));
    const items = p.$("item-select").options.map((o) => o.value), at = items.indexOf(p.$("item-select").value);
    if (segment === "recorders" && items.length > 1) add("next", () => p.pick(items[(at + 1) % items.length]));
    this.job.docs.forEach((d, i) => { if (d !== this.doc) add("document " + i, () => { p.cm.type(() => d); p.$("apply").click(); }); });
    for (const l of p.$("layer-event").options.map((o) => o.value)) if (l !== this.set.layer) add("layer " + l, () => { this.set.layer = l; p.set(p.$("layer-event"), l); });
    for (const t of ["slab", "block", "sl", ""]) if (t !== this.set.isolate) add("isolate " + t, () => { this.set.isolate = t; p.set(p.$("isolate"), t, "input"); });
    if (segment === "recorders" && f["on face"]) add("on face", () => {
      const on = !f["on face"][0].checked, name = p.$("item-select").value;
      this.set.hidden = this.set.hidden.filter((n) => n !== name).concat(on ? [] : [name]);
      p.set(f["on face"][0], on);
    });
    if (segment === "view") {
      add("contrast", () => p.set(f.contrast[0], f.contrast[0].value === "1" ? "3" : "1", "input"));
      add("opacity", () => { this.set.opacity = 0.9; p.set(f.opacity[0], "0.9", "input"); });
      add("world", () => { this.set.showWorld = !this.set.showWorld; p.set(f.world[0], this.set.showWorld); });
      add("grid", () => { this.set.showGrid = !this.set.showGrid; p.set(f.grid[0], this.set.showGrid); });
    }
    add("pane", () => { this.set.showDocument = !this.set.showDocument; p.$("doc-toggle").click(); });
    add("lose", () => { this.queue = []; this.live = null; p.socket.lose(); for (const t of p.timers.slice()) p.fire(t); if (p.socket.readyState === 0) p.socket.open(); else this.bad("a lost connection is not made again"); });
    add("reload", () => { this.queue = []; this.live = null; this.run = null; this.set.layer = "escaping"; this.set.isolate = ""; this.page = new Page({ storage: this.page.storage, said: (m) => this.said(m) }); });
    return out;
  }
  async step(name, act) {
    this.trace.push(name);
    act();
    await settle();
    await this.answer();
    const p = this.page;
    for (const e of p.errors) this.bad(`the page fails: ${e && e.stack ? String(e.stack).split("\n").slice(0, 2).join(" ").replace(/\(.*?\)/g, "").replace(/<anonymous>.*/, "") : e}`);
    p.errors.length = 0;
    this.check();
  }
  check() {
    this.checkRun(); this.checkPaths(); this.checkInspector(); this.checkFaces(); this.checkLayers();
  }
  checkRun() {
    const p = this.page, w = parseFloat(p.$("progress-fill").style.width);
    if (!this.run) return;
    const l = this.run.last;
    if (this.run.ended) return;
    const want = l ? 100 * l.traced / l.total : 0;
    if (!(Math.abs(w - want) <= 0.06)) this.bad(`progress ${w}%, ${l ? l.traced : 0} of ${this.run.total} photons are traced`);
  }
  checkPaths() {
    const lines = [];
    this.page.scene.traverse((o) => { if (o.type === "Line" && o.geometry.attributes.color && o.visible) lines.push(o); });
    const want = (this.run ? this.run.paths : []).filter((x) => x.points.length > 1).slice(0, 400);
    if (lines.length !== want.length) { this.bad(`${lines.length} paths are drawn, the run has ${want.length}`); return; }
    const key = (pts) => pts.map((v) => Math.fround(v) + 0).join();
    const have = lines.map((o) => key(Array.from(o.geometry.attributes.position.array))).sort(), need = want.map((x) => key(x.points.flat())).sort();
    for (let i = 0; i < need.length; i++) if (have[i] !== need[i]) { this.bad("a path is drawn which no photon of the run took"); break; }
    // the colour of a point is that of the light there
    const light = new Map();
    for (const x of want) light.set(key(x.points.flat()), x.wavelengths);
    for (const o of lines) {
      const w = light.get(key(Array.from(o.geometry.attributes.position.array))), c = o.geometry.attributes.color.array;
      if (w && c.length === 3 * w.length) w.forEach((nm, i) => {
        const rgb = Array.from(c.slice(3 * i, 3 * i + 3)), top = nm > 430 && nm < 480 ? 2 : nm > 510 && nm < 570 ? 1 : nm > 620 && nm < 700 ? 0 : -1;
        if (top >= 0 && rgb.some((v, k) => k !== top && !(v < rgb[top]))) this.bad(`light of ${nm} nm is drawn as ${rgb}`);
      });
    }
    for (const o of lines) {
      o.updateMatrixWorld();
      if (!o.matrixWorld.elements.every((v, i) => near(v, i % 5 === 0 ? 1 : 0))) this.bad("a path is drawn displaced");
    }
  }
  checkInspector() {
    const p = this.page;
    const segment = p.document.querySelectorAll("#segments button").find((b) => b.classList.contains("active")).dataset.segment;
    if (segment !== "recorders") return;
    const name = p.$("item-select").value;
    if (!name) return;
    const hints = p.$("inspector-fields").querySelectorAll(".hint").map((x) => x.textContent);
    const data = this.run && this.run.last ? this.run.last.recorders[name] : null, meta = this.run ? this.run.meta[name] : null;
    const stats = hints.find((t) => /rays/.test(t) && /crossings/.test(t));
    const canvases = p.$("inspector-fields").querySelectorAll("canvas");
    if (!data) {
      if (stats) this.bad(`the inspector tells of ${name}: ${stats}, no photon of the run was told of`);
      return;
    }
    if (!stats) { this.bad(`the inspector tells nothing of ${name}, the run tells ${data.rays} rays`); return; }
    const n = stats.replace(/(\d),(?=\d)/g, "$1").match(/-?\d+(\.\d+)?/g).map(Number);
    if (n[0] !== data.rays || n[1] !== data.crossings || !(Math.abs(n[2] - data.mean_wavelength) < 0.051) || !(Math.abs(n[3] - data.mean_angle * 180 / Math.PI) < 0.051))
      this.bad(`the inspector tells of ${name}: ${n}; the run has ${data.rays}, ${data.crossings}, ${data.mean_wavelength}, ${data.mean_angle * 180 / Math.PI}`);
    if (canvases.length !== meta.histograms.length) { this.bad(`${canvases.length} plots of ${name}, it has ${meta.histograms.length} histograms`); return; }
    meta.histograms.forEach((h, i) => {
      const v = data.histograms[i].values;
      if (h.kind === "heatmap") this.checkHeat(`the plot of ${name}`, canvases[i], v, data.histograms[i].shape);
      else if (h.prop !== "angle") this.checkBars(`the plot of ${h.prop} of ${name}`, canvases[i], v);
      else this.checkPolar(`the plot of angles of ${name}`, canvases[i], h.edges, v);
      this.checkPointer(name, h, canvases[i], data.histograms[i]);
    });
  }
  checkBars(what, canvas, values) {
    const rects = canvas.getContext("2d").calls.filter((c) => c.op === "rect");
    if (rects.length !== values.length) { this.bad(`${what} has ${rects.length} bars for ${values.length} bins`); return; }
    const top = Math.max(...values), high = Math.max(...rects.map((r) => r.h));
    rects.forEach((r, i) => {
      if (i && !(r.x > rects[i - 1].x)) this.bad(`${what}: the bars are not in order`);
      if (!near(r.y + r.h, rects[0].y + rects[0].h, 1e-6)) this.bad(`${what}: the bars do not stand on one line`);
      if (r.x < -1 || r.x + r.w > canvas.width + 1 || r.y < -1) this.bad(`${what}: a bar is out of sight`);
      if (top > 0 && !near(r.h / high, values[i] / top, 1e-6)) this.bad(`${what}: bar ${i} of ${values} is ${r.h} of ${high} high`);
      if (top === 0 && r.h !== 0) this.bad(`${what}: a bar for nothing`);
    });
  }
  checkPolar(what, canvas, edges, values) {
    const fill = canvas.getContext("2d").calls.filter((c) => c.op === "fill").pop();
    if (!fill) { this.bad(`${what} is empty`); return; }
    const pts = fill.path.filter((q) => q[0] === "L").map((q) => [q[1], q[2]]), c = fill.path.find((q) => q[0] === "M");
    const total = values.reduce((a, b) => a + b, 0);
    if (!total || pts.length !== 2 * values.length) { if (total) this.bad(`${what} has ${pts.length} corners for ${values.length} bins`); return; }
    const rel = pts.map(([x, y]) => [x - c[1], c[2] - y]);
    // mirror images; the direction is the bin's; twice the count is twice the radius
    values.forEach((v, i) => {
      const mid = (edges[i] + edges[i + 1]) / 2;
      const on = rel.filter(([x, y]) => v > 0 && Math.abs(Math.atan2(Math.abs(x), y) - mid) < 1e-6);
      if (v > 0 && on.length !== 2) this.bad(`${what}: ${on.length} corners at ${mid}`);
      if (v > 0 && on.length === 2 && !near(on[0][0], -on[1][0], 1e-6)) this.bad(`${what} is not symmetric`);
      if (v > 0 && on.length === 2) { const q = Math.hypot(...on[0]) / (v / Math.max(Math.sin(mid), 0.05)); this.polar = this.polar || {}; (this.polar[what] = this.polar[what] || []).push(q); }
    });
    const q = (this.polar || {})[what] || [];
    if (q.some((x) => !near(x, q[0], 1e-6))) this.bad(`${what}: the radii are not the counts per solid angle`);
    if (this.polar) delete this.polar[what];
  }
  picture(what, canvas, values, shape) {
    const d = canvas.getContext("2d").calls.filter((c) => c.op === "draw").pop();
    if (!d) return null;
    const image = d.calls.filter((c) => c.op === "image").pop().image, [na, nb] = shape, box = d.a.length > 4 ? d.a.slice(4) : d.a;
    if (image.width !== na || image.height !== nb) { this.bad(`${what} is ${image.width} by ${image.height}, the heat map ${na} by ${nb}`); return null; }
    if (!near(box[0], 0) || !near(box[1], 0) || !near(box[2], canvas.width) || !near(box[3], canvas.height)) this.bad(`${what} does not fill its canvas`);
    return image;
  }
  checkHeat(what, canvas, values, shape) {
    const image = this.picture(what, canvas, values, shape);
    if (!image) { this.bad(`${what} is not painted`); return null; }
    const [na, nb] = shape;
    for (let a = 0; a < na; a++) for (let b = 0; b < nb; b++) {
      const k = 4 * ((nb - 1 - b) * na + a), [r, g, bl, al] = image.data.slice(k, k + 4);
      this.colours.push([values[a * nb + b], 0.2126 * r + 0.7152 * g + 0.0722 * bl, what]);
      if (al !== 255) this.bad(`${what} has holes`);
    }
    return image;
  }
  // one scale for all surfaces: more photons, more light
  checkScale() {
    const c = this.colours.sort((x, y) => x[0] - y[0] || x[1] - y[1]);
    if (!c.length) return;
    const most = c[c.length - 1][0];
    for (let i = 1; i < c.length; i++) {
      if (c[i][0] === c[i - 1][0] && Math.abs(c[i][1] - c[i - 1][1]) > 1e-9) { this.bad(`${c[i][0]} photons have different colours in ${c[i][2]} and ${c[i - 1][2]}`); return; }
      if (c[i][1] < c[i - 1][1] - 1e-9) { this.bad(`${c[i][0]} photons are darker than ${c[i - 1][0]}`); return; }
    }
    // the scale ends at the most photons which any bin of the run has
    const all = Object.values(this.run && this.run.last ? this.run.last.recorders : {}).flatMap((d) => d.histograms.filter((h) => h.shape).flatMap((h) => h.values));
    if (all.length && most >= 1 && most === Math.max(...all)) {
      const light = c[c.length - 1][1];
      if (brightest === null) brightest = light;
      if (Math.abs(light - brightest) > 1e-6) this.bad("the bin with the most photons is not always of the same colour");
    }
    if (most > 0 && c[0][0] === 0 && !(c[c.length - 1][1] > c[0][1] + 50)) this.bad("many photons look like none");
  }
  checkPointer(name, h, canvas, data) {
    const p = this.page;
    if (h.prop === "angle" && h.kind !== "heatmap") return;
    const rect = canvas.getBoundingClientRect();
    const at = (fx, fy) => { canvas.dispatchEvent(new Event("mousemove", { clientX: rect.left + fx * rect.width, clientY: rect.top + fy * rect.height })); return p.$("bin-info").hidden ? "" : p.$("bin-info").textContent; };
    const nums = (t) => (t.slice(t.indexOf(name) + name.length).match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number);
    if (h.kind === "heatmap") {
      const [na, nb] = data.shape;
      for (let a = 0; a < na; a++) for (let b = 0; b < nb; b++) for (const d of [0.02, 0.5, 0.98]) {
        const n = nums(at((a + d) / na, 1 - (b + d) / nb)), want = [h.edges_a[a], h.edges_a[a + 1], h.edges_b[b], h.edges_b[b + 1]];
        if (!want.every((v, i) => Math.abs(n[i] - v) <= 0.0051) || n[4] !== data.values[a * nb + b]) this.bad(`the pointer is over bin ${a}, ${b} of ${name}: ${want}, ${data.values[a * nb + b]} rays; the page tells ${n}`);
      }
    } else {
      const m = data.values.length;
      for (let i = 0; i < m; i++) for (const d of [0.02, 0.5, 0.98]) {
        const n = nums(at((i + d) / m, 0.5));
        if (Math.abs(n[0] - h.edges[i]) > 0.051 || Math.abs(n[1] - h.edges[i + 1]) > 0.051 || n[2] !== data.values[i]) this.bad(`the pointer is over bin ${i} of ${h.prop} of ${name}: ${h.edges[i]} to ${h.edges[i + 1]}, ${data.values[i]} rays; the page tells ${n}`);
      }
    }
    canvas.dispatchEvent(new Event("mouseleave", {}));
    if (!p.$("bin-info").hidden) this.bad("the read-out stays when the pointer leaves");
  }
  checkFaces() {
    const faces = this.page.meshes("recorder");
    const axes = { x: 0, y: 1, z: 2 };
    this.faces = faces;
    for (const m of faces) {
      const r = m.userData, name = r.name, rec = (this.scene.recorders || []).find((x) => x.name === name);
      if (!rec) { this.bad(`a face is shown for ${name}, which does not exist`); continue; }
      const node = this.scene.nodes.find((x) => x.name === rec.node);
      const axis = rec.facet.findIndex((v) => Math.abs(v) > 0.5), sign = Math.sign(rec.facet[axis]);
      m.updateMatrixWorld();
      if (!m.matrixWorld.elements.every((v, i) => near(v, node.matrix[i], 1e-5))) this.bad(`the face of ${name} is not where ${rec.node} is`);
      const pos = m.geometry.attributes.position.array, uv = m.geometry.attributes.uv.array;
      for (let i = axis; i < pos.length; i += 3) if (!(sign * pos[i] >= node.params[axis] / 2 - 1e-6 && sign * pos[i] < node.params[axis] / 2 + 0.1)) this.bad(`the face of ${name} lies at ${pos[i]} along its axis, the facet at ${sign * node.params[axis] / 2}`);
      const canvas = m.material.map && m.material.map.image;
      const heat = rec.histograms.find((h) => h.kind === "heatmap" && [h.prop_a, h.prop_b].every((q) => q in axes && axes[q] !== axis) && h.prop_a !== h.prop_b);
      const run = this.run, data = run && run.last ? run.last.recorders[name] : null, meta = data ? run.meta[name] : null;
      const k = meta && heat ? meta.histograms.findIndex((h) => h.kind === "heatmap" && h.prop_a === heat.prop_a && h.prop_b === heat.prop_b && h.edges_a.length === heat.range_a[2] + 1 && h.edges_b.length === heat.range_b[2] + 1
        && near(h.edges_a[0], heat.range_a[0]) && near(h.edges_a[heat.range_a[2]], heat.range_a[1]) && near(h.edges_b[0], heat.range_b[0]) && near(h.edges_b[heat.range_b[2]], heat.range_b[1])) : -1;
      const painted = canvas ? canvas.getContext("2d").calls.some((c) => c.op === "draw") : false;
      if (k < 0) { if (painted && !(run && !run.last)) this.bad(`a heat map is painted on the face of ${name}, the run has none for it`); continue; }
      // it has to be painted when news arrive; a face made since then may wait for the next
      if (!painted) { if (run.painted === this.scene) this.bad(`the heat map of ${name} is not painted on its face`); continue; }
      const h = meta.histograms[k], d = data.histograms[k];
      const image = this.checkHeat(`the face of ${name}`, canvas, d.values, d.shape);
      if (!image) continue;
      if (m.material.map.version === 0) this.bad(`the picture of ${name} never reaches the screen`);
      // the place of a bin on the face is its place on the node
      const flip = m.material.map.flipY;
      const [na, nb] = d.shape;
      for (let a = 0; a < na; a++) for (let b = 0; b < nb; b++) {
        const u = (a + 0.5) / na, top = (nb - 1 - b + 0.5) / nb, q = place(pos, uv, u, flip ? 1 - top : top);
        if (!q) { this.bad(`the face of ${name} has no picture coordinates`); a = na; break; }
        const x = q[axes[h.prop_a]], y = q[axes[h.prop_b]], e = 1e-5;
        if (x < h.edges_a[a] - e || x > h.edges_a[a + 1] + e || y < h.edges_b[b] - e || y > h.edges_b[b + 1] + e) { this.bad(`bin ${a}, ${b} of the heat map of ${name} (${h.prop_a} from ${h.edges_a[a]} to ${h.edges_a[a + 1]}, ${h.prop_b} from ${h.edges_b[b]} to ${h.edges_b[b + 1]}) is painted at ${h.prop_a} ${x}, ${h.prop_b} ${y}`); a = na; break; }
      }
    }
    const want = (this.scene.recorders || []).filter((r) => r.facet && (this.scene.nodes.find((n) => n.name === r.node) || {}).type === "box").map((r) => r.name).sort().join();
    if (faces.map((m) => m.userData.name).sort().join() !== want) this.bad(`faces are shown for ${faces.map((m) => m.userData.name).sort()}, the scene has ${want}`);
    this.checkScale();
    this.colours = [];
  }
  checkLayers() {
    const p = this.page, s = this.set, nodes = this.scene.nodes.filter((n) => !n.root);
    const alone = nodes.some((n) => n.name === s.isolate.trim()) ? s.isolate.trim() : null;
    for (const m of p.meshes("recorder")) {
      const r = m.userData, want = !s.hidden.includes(r.name) && (!alone || r.node === alone) && (s.layer === "all" || r.event === s.layer);
      if (m.visible !== want) this.bad(`the face of ${r.name} (${r.event} ${r.node}) is ${m.visible ? "shown" : "not shown"}: layer ${s.layer}, isolated ${alone}, hidden ${s.hidden}`);
    }
    const solid = p.meshes("node").filter((m) => !m.userData.root);
    for (const m of solid) {
      const ghost = alone && m.userData.name !== alone;
      if (ghost ? !(m.material.opacity < 0.5 * s.opacity) : !near(m.material.opacity, s.opacity)) this.bad(`${m.userData.name} has opacity ${m.material.opacity}: isolated ${alone}, opacity ${s.opacity}`);
    }
    const root = p.meshes("node").find((m) => m.userData.root);
    if (root && root.visible !== s.showWorld) this.bad(`the world is ${root.visible ? "shown" : "hidden"}`);
    let grid = null;
    p.scene.traverse((o) => { if (o.type === "GridHelper") grid = o; });
    if (grid && grid.visible !== s.showGrid) this.bad(`the grid is ${grid.visible ? "shown" : "hidden"}`);
    if (p.document.querySelector("main").classList.contains("no-document") === s.showDocument) this.bad(`the document is ${s.showDocument ? "hidden" : "shown"}`);
  }
}
Execution.prototype.colours = [];
let brightest = null;

// the point of a face which shows the place (u, v) of its picture
function place(pos, uv, u, v) {
  const P = (i) => [pos[3 * i], pos[3 * i + 1], pos[3 * i + 2]], n = uv.length / 2;
  for (let i = 0; i < n; i++) for (let j = 0; j < n; j++) for (let k = 0; k < n; k++) {
    const a = uv[2 * j] - uv[2 * i], b = uv[2 * k] - uv[2 * i], c = uv[2 * j + 1] - uv[2 * i + 1], d = uv[2 * k + 1] - uv[2 * i + 1], det = a * d - b * c;
    if (Math.abs(det) < 1e-6) continue;
    const s = (d * (u - uv[2 * i]) - b * (v - uv[2 * i + 1])) / det, t = (-c * (u - uv[2 * i]) + a * (v - uv[2 * i + 1])) / det;
    return P(i).map((x, q) => x + s * (P(j)[q] - x) + t * (P(k)[q] - x));
  }
  return null;
}

async function sequences(job, report) {
  const stats = { executions: 0, steps: 0 };
  // depth first over the actions possible in each state, each path executed from the start
  let prefix = [];
  while (prefix) {
    const e = new Execution(job), taken = [];
    e.colours = [];
    await e.open();
    for (const [kind, value] of job.setup || []) {
      if (kind === "run") { e.page.$("run").click(); for (let i = 0; i < value && e.queue.length; i++) e.deliver(); await settle(); }
      if (kind === "segment") e.page.segment(value);
    }
    e.check();
    for (let k = 0; k < job.depth; k++) {
      const acts = e.actions(k < job.first.length ? [job.first[k]] : job.actions);
      if (!acts.length) break;
      const i = k < prefix.length ? prefix[k][0] : 0;
      taken.push([i, acts.length]);
      await e.step(...acts[i]);
      stats.steps++;
      while (job.drain && e.queue.length && !e.problems.length) { await e.step("message", () => e.deliver()); stats.steps++; }
      if (e.problems.length) break;
    }
    // whatever the server still has to say arrives
    while (e.queue.length && !e.problems.length) { await e.step("message", () => e.deliver()); stats.steps++; }
    stats.executions++;
    for (const p of e.problems) report(p, e);
    while (taken.length && taken[taken.length - 1][0] + 1 >= taken[taken.length - 1][1]) taken.pop();
    prefix = taken.length ? (taken[taken.length - 1] = [taken[taken.length - 1][0] + 1, 0], taken) : null;
  }
  return stats;
}

// ---- picking: what a click at a place of the view selects ---------------------------------------
// from the geometry of what is visible, worked out here
function nearest(e, x, y) {
  const p = e.page, cam = p.camera, w = p.canvas.getBoundingClientRect();
  cam.updateMatrixWorld();
  const at = (z) => new THREE.Vector3(2 * x / w.width - 1, 1 - 2 * y / w.height, z).unproject(cam);
  const o = at(-1), d = at(1).sub(o).normalize(), hits = [];
  for (const m of [...p.meshes("node"), ...p.meshes("light"), ...p.meshes("recorder")]) {
    if (!m.visible || m.userData.root) continue;
    m.updateMatrixWorld();
    const inv = m.matrixWorld.clone().invert(), a = o.clone().applyMatrix4(inv), b = d.clone().transformDirection(inv);
    const A = a.toArray(), B = b.toArray();
    let lo = -Infinity, hi = Infinity, near_ = false;
    if (m.userData.kind === "light") {
      const q = a.dot(b), c = a.dot(a) - 0.12 ** 2, disc = q * q - c, edge = q * q - (a.dot(a) - 0.13 ** 2);
      if (disc < 0) { if (edge > 0) return null; continue; }
      if (q * q - (a.dot(a) - 0.11 ** 2) < 0) return null; // a ball of triangles
      lo = -q - Math.sqrt(disc); hi = lo;
    } else {
      let size, mid = [0, 0, 0];
      if (m.userData.kind === "node") size = m.userData.params;
      else { m.geometry.computeBoundingBox(); const bb = m.geometry.boundingBox; mid = bb.getCenter(new THREE.Vector3()).toArray(); size = bb.getSize(new THREE.Vector3()).toArray(); }
      for (const slack of [0.02, 0]) {
        lo = -Infinity; hi = Infinity;
        for (let k = 0; k < 3; k++) {
          const u = (mid[k] - (size[k] ? size[k] / 2 + slack : 0) - A[k]) / B[k], v = (mid[k] + (size[k] ? size[k] / 2 + slack : 0) - A[k]) / B[k];
          lo = Math.max(lo, Math.min(u, v)); hi = Math.min(hi, Math.max(u, v));
        }
        if (slack && lo <= hi) near_ = true;
      }
      if (lo > hi) { if (near_) return null; continue; }   // too close to an edge to tell
    }
    hits.push([lo, m.userData]);
  }
  hits.sort((a, b) => a[0] - b[0]);
  return hits;
}
async function picking(job, report) {
  const stats = { executions: 0, steps: 0 };
  for (const setup of job.setups) {
    const e = new Execution(job), p = e.page;
    e.colours = [];
    await e.open();
    for (const name of setup) { const a = e.actions([name])[0]; if (a) await e.step(...a); }
    // where everything selects from: each item in turn
    const place_ = () => ({ segment: p.document.querySelectorAll("#segments button").find((b) => b.classList.contains("active")).dataset.segment, name: p.$("item-select").value });
    const froms = [...e.scene.nodes.map((n) => ["nodes", n.name]), ...e.scene.recorders.map((r) => ["recorders", r.name])];
    for (let x = 20; x < 800; x += job.grid) for (let y = 15; y < 600; y += job.grid) {
      const hits = nearest(e, x, y);
      if (!hits) continue;
      for (const [segment, name] of froms) {
        if (place_().segment !== segment) p.segment(segment);
        if (place_().name !== name) p.pick(name);
        const click = (from) => {
          p.canvas.dispatchEvent(new Event("pointerdown", { clientX: from, clientY: y }));
          p.canvas.dispatchEvent(new Event("pointerup", { clientX: x, clientY: y }));
          stats.steps++;
          return place_();
        };
        let now = click(x - 30);
        if (now.segment !== segment || now.name !== name) { e.bad(`turning the view selects ${now.name}`); continue; }
        if (!hits.length) continue;
        const h = hits[0][1];
        now = click(x);
        const drill = (segment === "nodes" && name === h.node) || (segment === "recorders" && name === h.name);
        const want = h.kind !== "recorder" ? ["nodes", h.name] : drill ? ["recorders", h.name] : ["nodes", h.node];
        if (now.segment !== want[0] || now.name !== want[1]) e.bad(`a click on ${h.name} selects ${now.segment} ${now.name} instead of ${want.join(" ")} (from ${segment} ${name}; after ${setup})`);
        if (p.errors.length) { e.bad(`the page fails: ${p.errors[0]}`); p.errors.length = 0; }
      }
      stats.executions++;
    }
    for (const q of e.problems) report(q, e);
  }
  return stats;
}

async function entries(job, report) {
  const stats = { executions: 0, steps: 0 };
  for (const rays of job.texts) for (const every of job.texts) {
    const e = new Execution(job);
    e.colours = [];
    await e.open();
    e.page.$("rays").value = rays; e.page.$("record-every").value = every;
    e.page.$("run").click();
    await settle();
    const m = e.say.filter((x) => x.cmd === "run");
    if (m.length !== 1) e.bad(`${m.length} runs after one click`);
    else for (const [what, text, got] of [["rays", rays, m[0].rays], ["paths", every, m[0].record_every]]) {
      const n = Number(text.trim());
      if (text.trim() && Number.isInteger(n) && n > 0 ? got !== n : !(Number.isInteger(got) && got > 0)) e.bad(`${what} "${text}": the run is asked for with ${got}`);
    }
    for (const x of e.page.errors) e.bad(`the page fails: ${x}`);
    stats.executions++; stats.steps++;
    for (const p of e.problems) report(p, e);
  }
  return stats;
}

for (;;) {
  const job = hear();
  if (job === null) break;
  const found = {}, report = (p, e) => { if (!found[p] && Object.keys(found).length < 8) found[p] = { trace: e.trace }; };
  try {
    const stats = job.texts ? await entries(job, report) : job.setups ? await picking(job, report) : await sequences(job, report);
    tell({ done: { found, stats } });
  } catch (e) { tell({ done: { found, stats: { executions: 0, steps: 0 }, crash: String(e && e.stack) } }); }
}
process.exit(0);
