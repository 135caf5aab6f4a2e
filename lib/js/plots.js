// Answers queries about the plot components: one JSON request (a script), one
// JSON answer per line.
console.log = console.warn = console.info = console.error = () => {};
const win = require("./dom.js").create();
global.window = win;
global.document = win.document;
const d3 = require("d3");
const R = require("./react.js");
const core = require("REPO");
const plots = require("@attitude/plots");
const G = require("WEB/plots/src/graticule-labels");
const rl = require("readline").createInterface({input: process.stdin});
const fresh = x => JSON.parse(JSON.stringify(x === undefined ? null : x));
const doc = win.document;

function run(script) {
  R.reset();
  win.listeners = [];
  doc.body.textContent = "";
  const st = {};
  return script.map(([op, ...a]) => { try { return fresh(ops[op](st, ...a)); } catch (e) { return {error: String((e && e.stack) || e)}; } });
}
const paths = n => n.querySelectorAll("path").map(p => ({cls: p.classList.list, d: p.getAttribute("d"), fill: p.getAttribute("fill"), stroke: p.getAttribute("stroke"), type: p.__data__.geometry.type, coords: p.__data__.geometry.coordinates}));
const texts = n => n.querySelectorAll("text").map(t => { const up = []; for (let p = t; p && p !== n; p = p.parentNode) up.push({cls: p.classList.list, transform: p.getAttribute("transform")}); return {text: t.textContent, up}; });
const ops = {
  show(st, data) {
    if (!st.root) { st.root = doc.createElement("div"); doc.body.appendChild(st.root); }
    st.data = data; st.keep = JSON.stringify(data);
    R.render(R.createElement(plots.RectangularStereonet, {data: st.data}), st.root);
  },
  figure(st) {
    return st.root.querySelectorAll("svg").map(s => ({width: s.getAttribute("width"), height: s.getAttribute("height"), box: s.getAttribute("viewBox"),
      rects: s.querySelectorAll("rect").map(r => ["x", "y", "width", "height", "id"].map(k => r.getAttribute(k))),
      shown: s.querySelectorAll("g.normal,g.plane").map(n => ({kind: n.classList.contains("plane") ? "plane" : "pole", ix: st.data.indexOf(n.__data__), paths: paths(n)})),
      graticule: s.querySelectorAll("path.graticule").map(p => p.getAttribute("d")), texts: texts(s)}));
  },
  unchanged(st) { return JSON.stringify(st.data) === st.keep; },
  // labels of the lines of any net
  net(st, settings, attach) {
    st.net = core.Stereonet({interactive: false});
    for (const [k, ...a] of settings) st.net[k](...a);
    st.svg = win.svg();
    if (attach) d3.select(st.svg).call(st.net);
    const p = st.net.projection();
    return {scale: p.scale(), translate: p.translate(), rotate: p.rotate(), clip: p.clipAngle(), rects: st.svg.querySelectorAll("defs rect").map(r => ["x", "y", "width", "height", "id"].map(k => r.getAttribute(k))),
      uses: st.svg.querySelectorAll("use").map(u => u.getAttribute("xlink:href")), interior: st.svg.querySelectorAll("g.interior").map(g => g.getAttribute("clip-path")), clips: st.svg.querySelectorAll("clipPath").map(g => g.getAttribute("id"))};
  },
  label(st, kind, line, o) {
    const L = new G[kind](st.net);
    const chained = L.alongLine(...line) === L && (o.offset == null || L.textOffset(o.offset) === L) && (o.rotation == null || L.textRotation(o.rotation) === L);
    const el = d3.select(st.svg).append("g");
    const sel = L.render(el);
    if (o.title) L.renderLabel(o.title === true ? undefined : o.title);
    const c = L.container.node();
    return {chained, size: sel.size(), offset: L.textOffset(), rotation: L.textRotation(), title: L.labelText, inside: el.node().contains(c), cls: c.classList.list,
      labels: c.querySelectorAll("g.label").map(g => ({at: g.getAttribute("transform"), text: g.textContent, shift: g.querySelectorAll("text").map(t => t.getAttribute("transform"))})),
      titles: c.querySelectorAll("text").filter(t => t.parentNode === c).map(t => ({text: t.textContent, at: t.getAttribute("transform")}))};
  },
};
rl.on("line", line => {
  const q = JSON.parse(line);
  let a;
  try { a = {ok: run(q[1])}; } catch (e) { a = {error: String((e && e.stack) || e)}; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
