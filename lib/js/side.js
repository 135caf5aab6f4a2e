// Answers queries about the side view: one JSON request (data and a list of
// azimuths and hovered identifiers), one JSON answer per line.
console.log = console.warn = console.info = console.error = () => {};
const win = require("./dom.js").create();
global.window = win;
global.document = win.document;
const R = require("./react.js");
const {SideViewComponent} = require("WEB/notebook-ui/src/components/side-view");
const rl = require("readline").createInterface({input: process.stdin});
const doc = win.document;

function run(data, views) {
  R.reset();
  doc.body.textContent = "";
  const root = doc.createElement("div");
  doc.body.appendChild(root);
  const heard = [];
  const props = v => ({data, azimuth: v[0], hovered: v[1] === null ? null : v[1].map(uid => data.find(d => d.uid === uid)), onHover: d => heard.push(d && d.uid)});
  const hyp = n => ({uid: n.__data__.data.uid, cls: n.classList.list, transform: n.getAttribute("transform"), visibility: n.getAttribute("visibility"),
    poly: n.querySelectorAll("path.hyperbola").map(p => ({data: p.__data__, d: p.getAttribute("d"), fill: p.getAttribute("fill")}))});
  return views.map(v => {
    R.render(R.createElement(SideViewComponent, props(v)), root);
    const svg = root.querySelectorAll("svg");
    const traces = root.querySelectorAll("g.planes path.trace");
    if (v[2] != null && traces.length) R.batch(() => traces[v[2] % traces.length].fire("mouseover"));
    return {
      svgs: svg.map(s => [s.getAttribute("width"), s.getAttribute("height")]),
      single: root.querySelectorAll("g.errors > g.error-hyperbola").map(hyp),
      grouped: root.querySelectorAll("g.errors-grouped > g.error-hyperbola").map(hyp),
      traces: traces.map(n => ({uid: n.__data__.data.uid, d: n.getAttribute("d"), transform: n.getAttribute("transform"), stroke: n.getAttribute("stroke")})),
      elevation: root.querySelectorAll("g.y.axis g.tick").map(n => [n.textContent, n.getAttribute("transform")]),
      distance: root.querySelectorAll("g.x.axis g.tick").map(n => [n.textContent, n.getAttribute("transform")]),
      over: v[2] != null && traces.length ? traces[v[2] % traces.length].__data__.data.uid : null,
      heard: heard.splice(0),
    };
  });
}
rl.on("line", line => {
  const q = JSON.parse(line);
  let a;
  try { a = {ok: JSON.parse(JSON.stringify(run(q[0], q[1])))}; } catch (e) { a = {error: String((e && e.stack) || e)}; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
