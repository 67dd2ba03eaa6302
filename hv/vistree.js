// The tree visualisation's own code without a screen: reads one JSON command per line, answers with one line.
const vm = require('vm'), fs = require('fs'), path = require('path');
let cur = null;

// What the sources use of the d3 libraries (the bundle has its own).
const d3 = (() => {
  class H {
    constructor(data) { this.data = data; this.depth = 0; this.height = 0; this.parent = null; }
    each(f) { let level = [this]; while (level.length) { const next = []; for (const n of level) { f(n); if (n.children) next.push(...n.children); } level = next; } return this; }
    eachBefore(f) { f(this); for (const c of (this.children || []).slice()) c.eachBefore(f); return this; }
    eachAfter(f) { for (const c of (this.children || []).slice()) c.eachAfter(f); f(this); return this; }
    descendants() { const r = []; this.each((n) => r.push(n)); return r; }
    leaves() { const r = []; this.eachBefore((n) => { if (!n.children) r.push(n); }); return r; }
    sum(v) { return this.eachAfter((n) => { let s = +v(n.data) || 0; for (const c of n.children || []) s += c.value; n.value = s; }); }
    count() { return this.eachAfter((n) => { let s = 0; for (const c of n.children || []) s += c.value; n.value = n.children ? s : 1; }); }
    copy() { return hierarchy(this).eachBefore((n) => { const o = n.data; n.data = o.data; if (o.value !== undefined) n.value = o.value; }); }
  }
  function hierarchy(data, children = (d) => d.children) {
    const make = (d, depth) => {
      const n = new H(d), cs = Array.from(children(d) || []);
      n.depth = depth;
      if (cs.length) { n.children = cs.map((c) => make(c, depth + 1)); for (const c of n.children) { c.parent = n; n.height = Math.max(n.height, c.height + 1); } }
      return n;
    };
    return make(data, 0);
  }
  function bin() {
    let value = (x) => x, number = 10;
    const f = (data) => {
      const xs = data.map(value).map(Number).filter(isFinite), lo = Math.min(...xs), hi = Math.max(...xs), w = (hi - lo) / number || 1, r = [];
      for (let i = 0; i < number; i++) { r.push([]); r[i].x0 = lo + i * w; r[i].x1 = lo + (i + 1) * w; }
      for (const d of data) { const x = Number(value(d)); if (isFinite(x)) r[Math.min(number - 1, Math.floor((x - lo) / w))].push(d); }
      return r;
    };
    f.value = (v) => { value = v; return f; };
    f.thresholds = (n) => { number = n; return f; };
    return f;
  }
  const scaleOrdinal = () => { let rng = [], dom = []; const s = (x) => rng[dom.indexOf(x) % rng.length]; s.range = (r) => { rng = r; return s; }; s.domain = (d) => { dom = d; return s; }; return s; };
  return { hierarchy, bin, scaleOrdinal, keys: Object.keys, leastIndex: () => -1 };
})();

function box(text) {
  const any = new Proxy(function () {}, { get: (t, k) => k === Symbol.toPrimitive ? () => '' : any, apply: () => any });
  const b = { console: { log() {}, warn() {}, error() {} }, setTimeout() {}, alert() {}, document: { documentElement: {}, createElement: () => any }, navigator: { userAgent: '' }, performance: { now: () => 0 }, requestAnimationFrame: () => 0 };
  b.window = b.self = b;
  b.element = any;
  b.Roundtrip = { hatchet_tree_def: text };
  vm.createContext(b);
  return b;
}

// The bundle builds its model and controller before it draws: the controller is the one that is given a model.
function fromBundle(dir, text) {
  const b = box(text), seen = [];
  b.__seen = (o) => seen.push(o);
  vm.runInContext("Object.defineProperty(Object.prototype,'model',{configurable:true,set(v){__seen(this);Object.defineProperty(this,'model',{value:v,writable:true,configurable:true,enumerable:true});}})", b);
  let err = null;
  try { vm.runInContext(fs.readFileSync(path.join(dir, 'static', 'cct_bundle.js'), 'utf8'), b); } catch (e) { err = e; }
  vm.runInContext("delete Object.prototype.model", b);
  const c = seen.find((o) => typeof o.dispatcher === 'function');
  if (!c) throw err || new Error('no controller');
  return { box: b, controller: c };
}

async function fromSource(dir, text) {
  const b = box(text), mods = {};
  const lib = new vm.SyntheticModule(Object.keys(d3).concat(['default']), function () { for (const k of Object.keys(d3)) this.setExport(k, d3[k]); this.setExport('default', d3); }, { context: b });
  const load = (file) => mods[file] = mods[file] || new vm.SourceTextModule(fs.readFileSync(file, 'utf8'), { context: b, identifier: file });
  const link = (spec, from) => spec.startsWith('.') ? load(path.resolve(path.dirname(from.identifier), spec.endsWith('.js') ? spec : spec + '.js')) : lib;
  const main = new vm.SourceTextModule("import Controller from './cct/cct_controller'; import Model from './cct/cct_model'; export const c = new Controller(new Model());", { context: b, identifier: path.join(dir, 'scripts', 'main.js') });
  await main.link(link);
  await main.evaluate();
  return { box: b, controller: main.namespace.c };
}

const kids = (n) => n.children || [];
function at(p) { let n = cur.controller.model.forest.getTrees()[p[0]]; for (const i of p.slice(1)) n = kids(n)[i]; return n; }
const full = (n) => ({ nid: n.data.metrics._hatchet_nid, children: kids(n).map(full) });
function show(n) {
  if (n.data.aggregate) return { group: n.data.elided.map((e) => e.data.metrics._hatchet_nid), stands: n.data.prototype.data.metrics._hatchet_nid, children: kids(n).map(show) };
  return { nid: n.data.metrics._hatchet_nid, children: kids(n).map(show) };
}

async function act(c) {
  if (c.op === 'load') { cur = null; cur = c.kind === 'bundle' ? fromBundle(c.dir, c.text) : await fromSource(c.dir, c.text); return {}; }
  if (c.op === 'bins') { cur.controller.model.updateBins(c.bins); return {}; }
  if (c.op === 'event') {
    const e = { type: c.type };
    for (const k of Object.keys(c.args || {})) e[k] = c.args[k];
    if (c.node) e.node = at(c.node);
    if (c.nodes) e[c.type === 'CLICK' ? 'node' : 'nodes'] = c.nodes.map(at);
    cur.controller.dispatcher()(e);
    return {};
  }
  if (c.op === 'state') { const m = cur.controller.model; return { trees: m.forest.getTrees().map(show), query: cur.box.Roundtrip.jsNodeSelected, metrics: Array.from(m.forest.metricColumns), metric: m.state.primaryMetric || null, tip: m.data.tipText || null }; }
  throw new Error('unknown command');
}
let queue = Promise.resolve();
require('readline').createInterface({ input: process.stdin }).on('line', (l) => {
  queue = queue.then(async () => {
    let r;
    try { r = await act(JSON.parse(l)); } catch (e) { r = { error: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(r).replace(/[\u007f-\uffff]/g, (c) => '\\u' + ('0000' + c.charCodeAt(0).toString(16)).slice(-4)) + '\n');
  });
});
