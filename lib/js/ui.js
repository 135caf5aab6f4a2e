// Answers queries about the notebook interface: one JSON request (a script of
// what a user does), one JSON answer per line.
console.log = console.warn = console.info = console.error = () => {};
const win = require("./dom.js").create();
global.window = win;
global.document = win.document;
const R = require("./react.js");
const {createUI} = require("@attitude/notebook-ui");
const rl = require("readline").createInterface({input: process.stdin});
const fresh = x => JSON.parse(JSON.stringify(x === undefined ? null : x));
const doc = win.document;

function run(script) {
  R.reset();
  win.listeners = [];
  doc.body.textContent = "";
  const st = {};
  return script.map(([op, ...a]) => { try { return fresh(ops[op](st, ...a)); } catch (e) { return {error: String((e && e.stack) || e)}; } });
}
const text = n => n.textContent.trim();
const svg = st => st.root.querySelectorAll("svg")[0];
const layer = n => { for (let p = n.parentNode; p; p = p.parentNode) if (p.localName === "g" && p.classList.contains("hovered")) return "hovered"; return "data"; };
const shapes = st => svg(st).querySelectorAll("g.normal,g.plane");
const ops = {
  open(st, data) { st.data = data; st.keep = JSON.stringify(data); st.root = doc.createElement("div"); doc.body.appendChild(st.root); createUI(st.root, data); },
  // mouse over the i-th error region drawn
  hover(st, i) { const p = shapes(st).filter(n => layer(n) === "data").map(n => n.querySelectorAll("path.error")[0]).filter(x => x); if (!p.length) return null; const n = p[i % p.length]; R.batch(() => n.fire("mouseenter")); return n.parentNode.__data__.uid; },
  leave(st) { R.batch(() => st.root.children[0].fire("mouseleave")); },
  item(st, what, i) { const l = st.root.querySelectorAll(".selection-list li"); if (!l.length) return null; R.act(l[i % l.length], what); return text(l[i % l.length]); },
  button(st, label) { const b = st.root.querySelectorAll("button").filter(n => text(n) === label); if (!b.length) return "absent"; if (b[0].hasAttribute("disabled")) return "disabled"; R.act(b[0], "onClick"); return "pressed"; },
  toggle(st, label) { const l = st.root.querySelectorAll("label.bp3-switch").filter(n => text(n) === label)[0]; R.act(l.querySelector("input"), "onClick"); },
  tab(st, i) { R.act(st.root.querySelectorAll(".bp3-tab")[i], "onClick"); },
  fire(st, what, type, x, y) { (what === "net" ? svg(st) : win).fire(type, {pageX: x, pageY: y}); },
  see(st) {
    const s = svg(st), sphere = s.querySelectorAll("defs path")[0];
    return {
      sphere: sphere.getAttribute("d"),
      shapes: shapes(st).map(n => ({kind: n.classList.contains("plane") ? "plane" : "pole", layer: layer(n), cls: n.classList.list, uid: n.__data__.uid,
        paths: n.querySelectorAll("path").map(p => ({cls: p.classList.list, d: p.getAttribute("d"), fill: p.getAttribute("fill"), stroke: p.getAttribute("stroke"), style: p.style.all}))})),
      items: st.root.querySelectorAll(".selection-list li").map(n => ({text: text(n), cls: n.classList.list, style: n.style.all})),
      panel: st.root.querySelectorAll(".plane-desc").map(n => n.textContent),
      copy: st.root.querySelectorAll(".copy").map(n => n.getAttribute("data-text")),
      buttons: st.root.querySelectorAll("button").map(n => [text(n), n.hasAttribute("disabled")]),
      switches: st.root.querySelectorAll("label.bp3-switch").map(n => [text(n), n.querySelector("input").hasAttribute("checked")]),
    };
  },
  unchanged(st) { return JSON.stringify(st.data) === st.keep; },
  warnings() { return R.warnings; },
};
rl.on("line", line => {
  const q = JSON.parse(line);
  let a;
  try { a = {ok: run(q[1])}; } catch (e) { a = {error: String((e && e.stack) || e)}; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
