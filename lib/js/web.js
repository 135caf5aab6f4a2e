// Answers queries about the web application: one JSON request (a script of
// what a user does), one JSON answer per line.
console.log = console.warn = console.info = console.error = () => {};
const win = require("./dom.js").create();
global.window = win;
global.document = win.document;
const R = require("./react.js"), W = require("./widgets.js");
const {App} = require("WEB/webapp/src/app");
const rl = require("readline").createInterface({input: process.stdin});
const fresh = x => JSON.parse(JSON.stringify(x === undefined ? null : x));
const doc = win.document;

function run(script) {
  R.reset();
  win.listeners = [];
  doc.body.textContent = "";
  for (const k in W.store) delete W.store[k];
  const st = {root: null};
  return script.map(([op, ...a]) => { try { return fresh(ops[op](st, ...a)); } catch (e) { return {error: String((e && e.stack) || e)}; } });
}
const grid = st => { let p = null; const n = st.root.querySelectorAll(".data-grid-container")[0]; n.__props.onSheet(q => { p = q; }); return p; };
const text = n => n.textContent.trim();
const open = st => { st.root = doc.createElement("div"); doc.body.appendChild(st.root); R.render(R.createElement(App), st.root); };
const ops = {
  open,
  reload(st) { R.unmountComponentAtNode(st.root); st.root.remove(); open(st); },
  edit(st, changes) { const p = grid(st); R.batch(() => p.onCellsChanged(changes.map(([row, col, value]) => ({cell: p.data[row][col], row, col, value})), null)); },
  button(st, label) { const b = st.root.querySelectorAll("button").filter(n => text(n) === label); if (!b.length) return {error: "no button " + label}; R.act(b[0], "onClick"); },
  tab(st, i) { R.act(st.root.querySelectorAll(".bp3-tab")[i], "onClick"); },
  clip(st, v) { const i = st.root.querySelectorAll("input.bp3-numeric")[0]; R.batch(() => i.__props.onValue(v)); },
  toggle(st, label) { const l = st.root.querySelectorAll("label.bp3-switch").filter(n => text(n) === label)[0]; R.act(l.querySelector("input"), "onClick"); },
  sheet(st) {
    const p = grid(st), rows = st.root.querySelectorAll("table tbody tr");
    return {values: p.data.map(r => r.map(c => c.value)), shown: rows.map(r => r.querySelectorAll("td").filter(c => c.hasAttribute("data-col")).map(c => [c.textContent, c.getAttribute("data-status")])),
      numbers: rows.map(r => text(r.querySelectorAll("td.index-cell")[0] || {textContent: ""})), header: st.root.querySelectorAll("thead td").map(text)};
  },
  pick(st, row, value, hex) {
    const p = grid(st), E = p.data[row][5].dataEditor, out = [], box = doc.createElement("div");
    R.render(R.createElement(E, {cell: p.data[row][5], row, col: 5, value, onChange: v => out.push(v), onCommit() {}, onRevert() {}, onKeyDown() {}}), box);
    const k = box.querySelectorAll(".sketch-picker")[0];
    const shown = k.getAttribute("data-color");
    R.batch(() => k.__props.onPick({hex}, {stopPropagation() {}}));
    R.unmountComponentAtNode(box);
    return {shown, out};
  },
  plot(st) {
    const svgs = st.root.querySelectorAll("svg");
    return svgs.map(s => ({sphere: s.querySelectorAll("defs path")[0].getAttribute("d"), size: [s.getAttribute("width"), s.getAttribute("height")],
      shown: s.querySelectorAll("g.normal,g.plane").map(n => ({kind: n.classList.contains("plane") ? "plane" : "pole", datum: n.__data__,
        paths: n.querySelectorAll("path").map(p => ({cls: p.classList.list, d: p.getAttribute("d"), fill: p.getAttribute("fill"), stroke: p.getAttribute("stroke"), type: p.__data__.geometry.type, coords: p.__data__.geometry.coordinates}))})),
      texts: s.querySelectorAll("text").map(text)}));
  },
  warnings() { return R.warnings; },
};
rl.on("line", line => {
  const q = JSON.parse(line);
  let a;
  try { a = {ok: run(q[1])}; } catch (e) { a = {error: String((e && e.stack) || e)}; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
