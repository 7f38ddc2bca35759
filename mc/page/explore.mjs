// Explores the studio page: every order of what the user, the server, the clock and the network do,
// up to a depth. Each line read from the parent is a job: {doc, first, depth, actions, options}.
import { Page, Event, settle, ask, hear, tell } from "./host.mjs";

const BROKEN = "]: not yaml\n";
const near = (a, b, eps = 1e-6) => a.length === b.length && a.every((v, i) => Math.abs(v - b[i]) <= eps * Math.max(1, Math.abs(b[i])));

class Chooser {
  constructor(prefix) { this.prefix = prefix; this.taken = []; }
  pick(options) {
    const k = this.taken.length, i = k < this.prefix.length ? this.prefix[k][0] : 0;
    if (i >= options.length) throw new Error("the page is not deterministic");
    this.taken.push([i, options.length]);
    return options[i];
  }
  next() {
    const t = this.taken.slice();
    while (t.length && t[t.length - 1][0] + 1 >= t[t.length - 1][1]) t.pop();
    if (!t.length) return null;
    t[t.length - 1] = [t[t.length - 1][0] + 1, 0];
    return t;
  }
}

class Execution {
  constructor(doc, options) {
    this.options = options; this.trace = []; this.problems = [];
    this.server = { doc, applied: false, version: 0, file: doc };
    this.accepted = {}; this.typed = []; this.count = 0; this.runs = []; this.wanted = 0; this.saves = []; this.broken = false; this.lost = 0;
    this.changes = 0; this.reactiveAlways = true; this.realtimeUsed = false; this.dragging = false; this.pushed = null;
    this.page = new Page({ storage: options.storage || {}, said: (m) => this.said(m) });
  }
  bad(text) { this.problems.push(text); }
  said(m) {
    if (m.cmd === "run") this.runs.push({ version: this.server.version, m });
    this.trace.push("ws:" + m.cmd);
  }
  // ---- the server takes up one request (the real one answers) ---------------------------------
  process(r) {
    const before = this.server.doc;
    const a = ask({ doc: this.server.doc, applied: this.server.applied, method: r.method, url: r.url, body: r.body });
    r.answer = { status: a.status, body: a.body };
    this.server.doc = a.doc; this.server.applied = a.applied;
    if (a.status === 200 && r.method !== "GET" && r.url !== "/api/save" && r.url !== "/api/upload") { if (a.doc !== before) { this.server.version++; this.changes++; } }
    if (r.url === "/api/save" && a.status === 200) this.server.file = a.doc;
    if (r.url === "/api/patch" && a.status === 200) {
      const op = JSON.parse(r.body);
      if (op.op === "update-recorder" && !this.options.reactive) { this.wanted++; this.mustRun = this.server.version; }
      const key = op.op === "set" ? op.path.join("/") : op.op === "move" ? `nodes/${op.node}/location` : null;
      if (key) this.accepted[key] = op.op === "set" ? { value: op.value } : { world: op.world_position };
      if (op.op === "delete-node") for (const k of Object.keys(this.accepted)) if (k.startsWith(`nodes/${op.node}/`)) delete this.accepted[k];
    }
    r.sentWith = { text: this.page.text };
  }
  env() {
    const out = [], p = this.page;
    p.requests.forEach((r) => {
      // when the only request is taken up, between its being made and its reply, makes no difference to anyone
      if (p.requests.length === 1) out.push([`answer ${r.method} ${r.url}`, () => { if (!r.answer) this.process(r); this.answer(r); }]);
      else if (!r.answer) out.push([`serve ${r.method} ${r.url}`, () => this.process(r)]);
      else out.push([`answer ${r.method} ${r.url}`, () => this.answer(r)]);
    });
    const due = p.timers.filter((t) => t.at < 1e9).sort((a, b) => a.at - b.at)[0];
    if (due) out.push(["timer", () => { p.fire(due); if (p.socket.readyState === 0) p.socket.open(); }]);
    return out;
  }
  answer(r) {
    const p = this.page, before = p.requests.length;
    r.refused = r.answer.status !== 200;
    // an entry which was refused may stay in its field, beside the message
    this.entry = r.refused || (this.entry && r.method === "GET");
    this.last = r;
    p.reply(r);
  }
  // after the page has seen a reply
  checkReply(r) {
    const p = this.page, doc = p.$("doc-status");
    if (r.refused && r.url !== "/api/document_get" && r.method !== "GET") {
      const error = typeof r.answer.body === "object" && r.answer.body ? r.answer.body.error : null;
      if (error && !(doc.textContent.includes(error) && !r.silent)) { if (!this.dragRequests || !this.dragRequests.has(r)) this.bad(`the server refuses (${error.slice(0, 60)}), the page says ${JSON.stringify(doc.textContent)}`); }
    }
    if (r.url === "/api/save" && !r.refused) {
      const s = this.saves.find((x) => !x.done);
      if (s) {
        s.done = true;
        for (const m of s.typed) if (!this.server.file.includes(m)) this.bad(`saved, but the file lacks ${m.trim()}, typed before`);
        if (doc.textContent !== "saved") this.bad(`a document is saved, the page says ${doc.textContent}`);
      } else this.bad("the document is saved without being asked for");
    }
  }
  // ---- what the user can do now ------------------------------------------------------------------
  actions(names) {
    const p = this.page, f = p.fields(), out = [];
    const name = p.$("item-select").value, segment = (p.document.querySelectorAll("#segments button").find((b) => b.classList.contains("active")) || { dataset: {} }).dataset.segment;
    const n = this.count;
    const add = (k, run) => { if (names.includes(k)) out.push([k, run]); };
    if (!p.cm.isReadOnly() && this.loaded) {
      add("type", () => { const m = `# typed ${n}\n`; if (p.cm.type((t) => t.replace(/\n*$/, "\n") + m)) this.typed.push(m); });
      add("retype", () => {
        // a change of a value amid the document
        const v = (1.6 + 0.01 * n).toFixed(2), m = `# index ${n}\n`;
        if (p.cm.type((t) => t.replace(/refractive-index: 1\.[1-9]\d*/, `refractive-index: ${v}`).replace(/\n*$/, "\n") + m)) { this.typed.push(m); delete this.accepted["nodes/slab/box/material/refractive-index"]; }
      });
      if (!this.broken) add("break", () => { if (p.cm.type((t) => t.replace(/\n*$/, "\n") + BROKEN)) this.broken = true; });
      else add("mend", () => { const m = `# mended ${n}\n`; if (p.cm.type((t) => t.replace(BROKEN, "") + m)) { this.typed.push(m); this.broken = false; } });
    }
    add("apply", () => p.$("apply").click());
    add("save", () => { this.saves.push({ typed: this.typed.slice() }); p.$("save").click(); });
    if (f.location && this.server.applied) add("move", () => {
      const y = 0.01 * (n + 1), i = f.location[1];
      this.edited = !p.requests.length && p.text.startsWith(this.server.doc.replace(/\n*$/, "")) ? [name, y] : null;
      p.set(i, String(y));
    });
    if (f.location && this.server.applied) add("nonsense", () => p.set(f.location[1], ""));
    if (f.size) add("size", () => p.set(f.size[0], "0"));           // the server refuses it
    if (f.size) add("resize", () => p.set(f.size[2], (0.5 + 0.01 * n).toFixed(2)));
    if (f["refr. index"]) add("index", () => p.set(f["refr. index"][0], (1.3 + 0.01 * n).toFixed(2)));
    if (f.attach) add("attach", () => p.set(f.attach[0], f.attach[0].options[1].value));
    const chip = p.document.querySelectorAll(".chips b")[0];
    if (chip) add("detach", () => chip.click());
    if (f.record) add("record", () => p.set(f.record[0], !f.record[0].checked));
    if (f.event) add("event", () => { p.set(f.event[0], f.event[0].value === "entering" ? "escaping" : "entering"); });
    const del = p.action("delete");
    if (del) add("delete", () => del.click());
    if (segment === "components") add("add", () => p.$("item-add").click());
    if (segment === "nodes") add("add", () => { p.$("item-add").click(); const b = p.$("popover").querySelectorAll("button")[0]; b.click(); });
    for (const s of ["nodes", "components", "recorders", "view"]) if (segment !== s) add("to " + s, () => p.segment(s));
    const items = p.$("item-select").options.map((o) => o.value);
    if (items.length > 1 && segment !== "view") add("next", () => p.pick(items[(items.indexOf(name) + 1) % items.length]));
    if (!this.dragging && p.gizmo.object) add("grab", () => { this.dragging = p.gizmo.pointerDown(); this.grabbed = p.gizmo.object.userData.name; this.moved = 0; });
    if (this.dragging) {
      add("pull", () => { this.moved++; this.pulled = p.gizmo.object; p.now += 200; p.gizmo.pointerMove([0, 0, -0.05 * (n + 1)]); this.realtimeUsed = true; });
      add("back", () => { p.now += 20; p.gizmo.pointerMove([0, 0, 0]); this.realtimeUsed = true; });
      add("drop", () => {
        this.dragging = false;
        const o = p.gizmo.object;
        this.dropped = o && o === this.pulled && o.position.distanceTo(p.gizmo.start) > 1e-6 ? { node: this.grabbed, at: o.position.toArray() } : null;
        this.edited = null;
        p.gizmo.pointerUp();
      });
    }
    add("reactive", () => { p.set(p.$("reactive"), !p.$("reactive").checked); this.reactiveAlways = false; });
    add("realtime", () => p.set(p.$("realtime"), !p.$("realtime").checked));
    add("run", () => { this.wanted++; p.$("run").click(); });
    add("stop", () => p.$("stop").click());
    if (p.socket.readyState === 1) add("lose", () => { this.lost++; p.socket.lose(); });
    return out;
  }
  async step(name, run) {
    const answered = name.startsWith("answer") ? this.page.requests.find((r) => (r.answer || this.page.requests.length === 1) && name === `answer ${r.method} ${r.url}`) : null;
    this.trace.push(name);
    run();
    await settle();
    if (answered) { this.checkReply(answered); if (answered.method === "GET" && answered.url === "/api/document") this.loaded = true; }
    for (const m of this.typed) if (!this.page.text.includes(m)) { this.bad(`what was typed is gone from the editor: ${m.trim()}`); this.typed = this.typed.filter((x) => x !== m); }
    if (this.broken && !this.page.text.includes(BROKEN)) { this.bad("what was typed is gone from the editor: the broken line"); this.broken = false; }
    if (this.page.errors.length) { for (const e of this.page.errors) this.bad(`the page fails: ${e && e.stack ? String(e.stack).split("\n").slice(0, 2).join(" ").replace(/\(.*?\)/g, "") : e}`); this.page.errors.length = 0; }
  }
  async drain(chooser) {
    for (let k = 0; k < 60; k++) {
      const env = this.env();
      if (!env.length) return;
      // requests in flight together end in any order; an only one leaves nothing to choose
      await this.step(...(chooser ? chooser.pick(env) : env[0]));
    }
    this.bad("the page does not come to rest");
  }
  // ---- at rest -------------------------------------------------------------------------------------
  check() {
    const p = this.page, s = this.server;
    if (this.dragging) return;
    const unapplied = this.broken || this.typed.some((m) => !s.doc.includes(m));
    if (!unapplied && p.text !== s.doc) this.bad(`the editor shows another document than the server has: ${differ(p.text, s.doc)}`);
    if (!s.applied) return;
    const now = ask({ doc: s.doc, applied: true, method: "PUT", url: "/api/document", body: JSON.stringify({ text: s.doc }) });
    if (now.status !== 200) { this.bad("the server's document is not valid"); return; }
    const want = now.body.scene;
    this.checkScene(want);
    this.checkInspector(want);
    // nothing accepted is undone
    for (const [key, e] of Object.entries(this.accepted)) {
      const parts = key.split("/");
      let v = want.spec;
      for (const k of parts) v = v === undefined || v === null ? undefined : v[k];
      if (e.value !== undefined) { if (JSON.stringify(v) !== JSON.stringify(e.value)) this.bad(`an accepted edit of ${key} is undone: ${JSON.stringify(v)} instead of ${JSON.stringify(e.value)}`); }
      else {
        const node = want.nodes.find((x) => x.name === parts[1]) || want.lights.find((x) => x.name === parts[1]);
        if (node && !near(node.matrix.slice(12, 15), e.world, 2e-6)) this.bad(`an accepted move of ${parts[1]} is undone: at ${node.matrix.slice(12, 15)} instead of ${e.world}`);
      }
    }
    if (this.dropped && this.lastAction === "drop") {
      const node = want.nodes.find((x) => x.name === this.dropped.node) || want.lights.find((x) => x.name === this.dropped.node);
      if (node && !near(node.matrix.slice(12, 15), this.dropped.at, 2e-6)) this.bad(`${this.dropped.node} was dropped at ${this.dropped.at}, the document has it at ${node.matrix.slice(12, 15)}`);
    }
    // runs
    if (this.options.reactive && this.reactiveAlways && !this.lost && this.changes > 0 && !unapplied) {
      const last = this.runs[this.runs.length - 1];
      if (!last) this.bad("reactive: the document changed and nothing was run");
      else if (last.version !== s.version) this.bad("reactive: the last run is of an earlier document");
    }
    if (!this.options.reactive && this.reactiveAlways && !this.realtimeUsed && !this.lost && this.runs.length > this.wanted) this.bad(`${this.runs.length} runs, ${this.wanted} were asked for`);
    if (!this.lost && this.mustRun !== undefined && !(this.runs.length && this.runs[this.runs.length - 1].version >= this.mustRun)) this.bad("a recorder is changed, the last run is of the document before");
    if (!this.lost && !this.options.reactive && this.runs.length < this.wanted - (this.events || 0)) this.bad(`${this.runs.length} runs, ${this.wanted} were asked for`);
    for (const x of this.saves) if (!x.done && !this.broken && !x.failed) { if (p.$("doc-status").className !== "err" && p.$("doc-status").textContent === "saved") this.bad("the page says saved, nothing is"); }
  }
  checkScene(want) {
    const p = this.page;
    const shown = p.meshes("node"), lights = p.meshes("light"), overlays = p.meshes("recorder");
    const names = (l) => l.map((x) => x.name).sort().join(",");
    if (names(shown.map((m) => m.userData)) !== names(want.nodes)) this.bad(`nodes shown: ${names(shown.map((m) => m.userData))}, the scene has ${names(want.nodes)}`);
    if (names(lights.map((m) => m.userData)) !== names(want.lights)) this.bad(`lights shown: ${names(lights.map((m) => m.userData))}, the scene has ${names(want.lights)}`);
    for (const [list, objects] of [[want.nodes, shown], [want.lights, lights]]) for (const n of list) {
      const o = objects.find((m) => m.userData.name === n.name);
      if (!o) continue;
      o.updateMatrixWorld();
      if (!near(o.matrixWorld.elements, n.matrix, 1e-5)) this.bad(`${n.name} is shown at ${o.matrixWorld.elements.slice(12, 15)}, it is at ${n.matrix.slice(12, 15)}`);
      if (n.type === "box") { o.geometry.computeBoundingBox(); const b = o.geometry.boundingBox; if (!near([b.max.x - b.min.x, b.max.y - b.min.y, b.max.z - b.min.z], n.params.slice(0, 3), 1e-5)) this.bad(`${n.name} is shown with another size`); }
    }
    // what the gizmo would move is what is shown
    const held = p.gizmo.object;
    if (held && ![...shown, ...lights].includes(held)) this.bad(`the gizmo holds ${held.userData.name} as it was, not what is shown`);
    const facets = want.recorders.filter((r) => r.facet && (want.nodes.find((n) => n.name === r.node) || {}).type === "box");
    if (names(overlays.map((m) => m.userData)) !== names(facets)) this.bad(`recorder faces shown: ${names(overlays.map((m) => m.userData))}, the scene has ${names(facets)}`);
  }
  checkInspector(want) {
    const p = this.page, active = p.document.querySelectorAll("#segments button").filter((b) => b.classList.contains("active"));
    if (active.length !== 1) { this.bad("not one segment is active"); return; }
    const segment = active[0].dataset.segment;
    if (segment === "view") return;
    const entry = this.entry;
    const items = segment === "recorders" ? want.recorders.map((r) => r.name) : Object.keys(want.spec[segment] || {});
    const listed = p.$("item-select").options.map((o) => o.value);
    if (listed.join() !== items.join()) this.bad(`${segment} listed: ${listed}, the document has ${items}`);
    const name = p.$("item-select").value, f = p.fields();
    if (!items.length) return;
    const num = (label) => f[label] && f[label].map((i) => +i.value);
    if (segment === "nodes") {
      const n = want.spec.nodes[name];
      if (!n) { this.bad(`the inspector shows ${name}, which does not exist`); return; }
      if (entry) return;
      if (name !== "world" && !near(num("location") || [], n.location || [0, 0, 0], 1e-6)) this.bad(`the inspector shows ${name} at ${num("location")}, it is at ${n.location}`);
      if (n.box && !near(num("size") || [], n.box.size, 1e-6)) this.bad(`the inspector shows size ${num("size")} of ${name}, it is ${n.box.size}`);
      if (n.box && f.record && f.record[0].checked !== !!n.record) this.bad(`the inspector shows record ${f.record[0].checked} of ${name}`);
      const index = n.box && n.box.material ? n.box.material["refractive-index"] : undefined;
      if (index !== undefined && !near(num("refr. index") || [], [index])) this.bad(`the inspector shows index ${num("refr. index")} of ${name}, it is ${index}`);
    } else if (segment === "recorders") {
      const r = want.recorders.find((x) => x.name === name);
      if (!r) this.bad(`the inspector shows ${name}, which does not exist`);
      else if (!entry && (!f.event || f.event[0].value !== r.event)) this.bad(`the inspector shows event ${f.event && f.event[0].value} of ${name}, it is ${r.event}`);
    } else if (segment === "components" && !want.spec.components[name]) this.bad(`the inspector shows ${name}, which does not exist`);
  }
}

function differ(a, b) {
  const x = a.split("\n"), y = b.split("\n");
  for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return `line ${i + 1}: ${JSON.stringify(x[i])} instead of ${JSON.stringify(y[i])}`;
  return "";
}

// an edit of one number writes that number, and all others as the document has them
function watch(e) {
  const p = e.page, push = p.requests.push;
  e.seen = e.seen || new Set();
  for (const r of p.requests) {
    if (e.seen.has(r.id)) continue;
    e.seen.add(r.id);
    if (r.url !== "/api/patch" || !e.edited) continue;
    const op = JSON.parse(r.body);
    if (op.op !== "set" || op.path[2] !== "location") continue;
    const [name, y] = e.edited;
    e.edited = null;
    const doc = ask({ doc: e.server.doc, applied: true, method: "PUT", url: "/api/document", body: JSON.stringify({ text: e.server.doc }) });
    const node = doc.body.scene.spec.nodes[name];
    if (!node) continue;
    const was = node.location || [0, 0, 0];
    const full = op.path.length === 3 ? op.value : was.map((v, i) => (i === op.path[3] ? op.value : v));
    if (op.path[1] !== name || full[1] !== y || full[0] !== was[0] || full[2] !== was[2]) e.bad(`one number is edited: ${name} from ${was} to y = ${y}; asked of the server: ${op.path[1]} to ${full}`);
  }
}

async function execute(job, prefix) {
  const c = new Chooser(prefix), e = new Execution(job.doc, job.options || {});
  await settle();
  if (job.options.reactive) e.page.set(e.page.$("reactive"), true);
  if (job.options.realtime) { e.page.set(e.page.$("realtime"), true); }
  if (!job.options.early) await e.drain(null);
  for (const [kind, value] of job.options.setup || []) {
    if (kind === "pick") e.page.pick(value); else if (kind === "segment") e.page.segment(value);
    await settle();
  }
  const steps = { user: 0, env: 0 };
  for (let k = 0; k < job.depth; k++) {
    // before the user acts, anything under way may or may not go on
    for (let j = 0; j < (job.options.slack ?? 4); j++) {
      const env = e.env();
      if (!env.length || (k === 0 && !job.options.early)) break;
      const what = c.pick([null, ...env]);
      if (!what) break;
      await e.step(...what); watch(e); steps.env++;
    }
    const names = k < job.first.length ? [job.first[k]] : job.actions;
    const acts = e.actions(names);
    if (!acts.length) { if (k < job.first.length) break; else continue; }
    const [name, run] = acts.length === 1 ? acts[0] : c.pick(acts);
    e.count++;
    e.lastAction = name;
    await e.step(name, run); watch(e); steps.user++;
  }
  if (e.dragging) { const a = e.actions(["drop"]); if (a.length) { e.lastAction = "drop"; await e.step(...a[0]); watch(e); } }
  for (let k = 0; k < 60; k++) {
    const env = e.env();
    if (!env.length) break;
    await e.step(...(env.length === 1 ? env[0] : c.pick(env))); watch(e); steps.env++;
    if (k === 59) e.bad("the page does not come to rest");
  }
  e.check();
  return { c, e, steps };
}

for (;;) {
  const job = hear();
  if (job === null) break;
  const found = {}, stats = { executions: 0, user: 0, env: 0, requests: 0, capped: false };
  try {
    for (let prefix = []; prefix; ) {
      const { c, e, steps } = await execute(job, prefix);
      stats.executions++; stats.user += steps.user; stats.env += steps.env;
      for (const p of e.problems) if (!found[p] && Object.keys(found).length < 12) found[p] = { trace: e.trace, text: e.page.text.slice(-400), server: e.server.doc.slice(-400) };
      prefix = c.next();
      if (job.cap && stats.executions >= job.cap) { stats.capped = true; break; }
    }
    tell({ done: { found, stats } });
  } catch (e) { tell({ done: { found, stats, crash: String(e && e.stack) } }); }
}
process.exit(0);
