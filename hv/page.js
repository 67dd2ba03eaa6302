// A notebook page for RoundTrip: reads one JSON command per line, answers with one line.
const vm = require('vm');
let page = null;
function fresh(cells) {
  const listeners = [];
  const els = {};
  for (let i = 0; i < cells; i++) els[i] = { addEventListener: (n, f) => listeners.push([i, f]) };
  const executed = [], rerun = [], errors = [];
  const kernel = { execute: (code, cb) => { executed.push(code); } };
  const nb = { get_cell_elements: () => els, get_selected_index: () => page.selected + 1, kernel: kernel, execute_cells: (c) => { rerun.push(c); } };
  const box = { Jupyter: { notebook: nb }, IPython: { notebook: nb }, console: { log() {}, error(x) { errors.push(String(x)); } }, setTimeout: (f) => f(),
                document: { getElementById: () => ({ parentNode: {} }) },
                require: (deps, f) => f({ selectAll: () => ({ empty: () => true }) }) };
  box.window = box;
  vm.createContext(box);
  page = { box, listeners, executed, rerun, errors, selected: 0 };
}
function act(c) {
  if (c.op === 'page') { fresh(c.cells); return {}; }
  if (c.op === 'select') { page.selected = c.cell; return {}; }
  if (c.op === 'click') { for (const [i, f] of page.listeners) if (i === c.cell) f(); return {}; }
  if (c.op === 'run') { vm.runInContext(c.code, page.box); return take(); }
  if (c.op === 'set') { page.box.__v = c.value; vm.runInContext('window.Roundtrip[' + JSON.stringify(c.name) + '] = __v', page.box); return take(); }
  if (c.op === 'get') { page.box.__n = c.name; const v = vm.runInContext('window.Roundtrip[__n]', page.box); return { value: v === undefined ? null : v, type: typeof v }; }
  throw new Error('unknown command');
}
function take() { const r = { executed: page.executed.slice(), rerun: page.rerun.slice(), errors: page.errors.slice() }; page.executed.length = page.rerun.length = page.errors.length = 0; return r; }
require('readline').createInterface({ input: process.stdin }).on('line', (l) => {
  let r;
  try { r = act(JSON.parse(l)); } catch (e) { r = { error: String(e && e.message || e) }; }
  process.stdout.write(JSON.stringify(r).replace(/[\u007f-\uffff]/g, (c) => '\\u' + ('0000' + c.charCodeAt(0).toString(16)).slice(-4)) + '\n');
});
