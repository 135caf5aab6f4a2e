// Answers queries about the front end's stereonet: one JSON request (a script
// of operations on one net), one JSON answer per line.
console.log = console.warn = console.info = () => {};
const win = require("./dom.js").create();
global.window = win;
global.document = win.document;
const d3 = require("d3");
const core = require("REPO");
const rl = require("readline").createInterface({input: process.stdin});
const fresh = x => JSON.parse(JSON.stringify(x));
const num = x => (typeof x === "number" && !isFinite(x) ? String(x) : x);

function run(script) {
  win.listeners = [];
  const doc = win.document;
  doc.body.textContent = "";
  const st = {net: null, svg: null, sels: {}, data: {}, keep: {}, calls: [], options: []};
  const out = [];
  for (const [op, ...a] of script) {
    let r = null;
    try { r = ops[op](st, ...a); } catch (e) { r = {error: String((e && e.stack) || e)}; }
    out.push(r === undefined ? null : r);
  }
  return out;
}
const plain = (st, r) => (r === st.net ? "self" : r === undefined ? null : "other");
const ops = {
  create(st, o) { st.net = o == null ? core.Stereonet() : core.Stereonet(o); },
  set(st, name, ...args) { return plain(st, st.net[name](...args)); },
  get(st, name) { const r = st.net[name](); return typeof r === "function" ? "function" : num(r) === undefined ? null : fresh(r === undefined ? null : r); },
  attach(st) { st.svg = win.svg(); d3.select(st.svg).call(st.net); },
  draw(st, kind, key, data, o) {
    st.data[key] = data; st.keep[key] = JSON.stringify(data);
    let opts = o && Object.assign({}, o);
    if (opts && opts.colorBy) { const k = opts.colorBy; delete opts.colorBy; opts.color = d => d[k]; }
    if (opts && opts.shared) { delete opts.shared; opts = st.shared = Object.assign(st.shared || {}, opts); }
    const before = opts && Object.assign({}, opts);
    st.sels[key] = opts ? st.net[kind](data, opts) : st.net[kind](data);
    if (opts) st.options.push([key, Object.keys(opts).length === Object.keys(before).length && Object.keys(before).every(k => opts[k] === before[k])]);
    return st.sels[key].size ? st.sels[key].size() : null;
  },
  options(st) { return fresh(st.options); },
  unchanged(st) { return Object.keys(st.data).map(k => [k, JSON.stringify(st.data[k]) === st.keep[k]]); },
  opacity(st, key, how) {
    const f = core.opacityByCertainty(d => d[how.color], how.accessor);
    if (how.domain) f.domain(how.domain);
    if (how.error) f.angularError(d => d[how.error]);
    if (how.scale) f.alphaScale(x => how.scale[0] - how.scale[1] * x);
    st.sels[key].each(f);
  },
  call(st, name, ...args) { st.net.call((n, ...b) => { st.calls.push([name, n === st.net, b]); }, ...args); },
  calls(st) { return fresh(st.calls); },
  listen(st, name) { st.net.on("rotate." + name, function () { st.calls.push([name, st.net.rotate()]); }); },
  labels(st, o) { const k = JSON.stringify(o); st.net.call(o == null ? core.globalLabels() : core.globalLabels(o)); return o == null || JSON.stringify(o) === k; },
  overlay(st, kind, o) { const k = JSON.stringify(o); o == null ? st.net[kind]() : st.net[kind](o); return o == null || JSON.stringify(o) === k; },
  fire(st, what, type, x, y) { const e = (what === "net" ? st.svg : win).fire(type, {pageX: x, pageY: y}); return {prevented: e.defaultPrevented, rotate: st.net.rotate()}; },
  state(st) {
    const p = st.net.projection();
    return {rotate: p.rotate(), scale: p.scale(), translate: p.translate(), clip: p.clipAngle(), center: p.center(), width: st.svg && st.svg.getAttribute("width"), height: st.svg && st.svg.getAttribute("height")};
  },
  // a second net on the same page
  other(st, o, rot) { st.other = core.Stereonet(o || {}); st.other.rotate(rot); st.othersvg = win.svg(); d3.select(st.othersvg).call(st.other); },
  otherrotate(st) { return {rotate: st.other.rotate()}; },
  fireother(st, what, type, x, y) { (what === "net" ? st.othersvg : win).fire(type, {pageX: x, pageY: y}); return {rotate: st.other.rotate()}; },
  // everything drawn for one call: elements in order, their data (by position), paths and what the paths should be now
  drawn(st, key) {
    const path = d3.geoPath().projection(st.net.projection()).pointRadius(2);
    const area = st.net.dataArea().node();
    return st.sels[key].nodes().map(n => ({tag: n.localName, cls: n.classList.list, ix: st.data[key].indexOf(n.__data__), inArea: area.contains(n), parent: n.parentNode.classList.list,
      paths: n.querySelectorAll("path").map(p => ({cls: p.classList.list, d: p.getAttribute("d"), want: path(p.__data__), fill: p.getAttribute("fill"), stroke: p.getAttribute("stroke"), type: p.__data__.geometry.type,
        coords: p.__data__.geometry.coordinates, from: st.data[key].indexOf(p.__data__.data)}))}));
  },
  // nothing else in the data area
  count(st) { return st.net.dataArea().node().querySelectorAll("path").length; },
  project(st, pts) { return pts.map(p => st.net.projection()(p)); },
  allpaths(st) {
    const path = d3.geoPath().projection(st.net.projection()).pointRadius(2);
    return st.svg.querySelectorAll("path").filter(p => p.__data__).map(p => ({same: p.getAttribute("d") === path(typeof p.__data__ === "function" ? p.__data__.call(p) : p.__data__), cls: p.classList.list, parent: p.parentNode.classList.list}));
  },
  texts(st) {
    return st.net.overlay().node().querySelectorAll("text").map(t => {
      const up = [];
      for (let p = t; p && p !== st.svg; p = p.parentNode) up.push({cls: p.classList.list, transform: p.getAttribute("transform"), display: p.style.getPropertyValue("display")});
      return {text: t.textContent, up};
    });
  },
};
rl.on("line", line => {
  const q = JSON.parse(line);
  let a;
  try { a = {ok: run(q[1])}; } catch (e) { a = {error: String((e && e.stack) || e)}; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
