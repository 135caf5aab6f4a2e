// Answers queries about the front-end sources: one JSON request, one JSON answer per line.
import * as d3 from "d3";
import * as math from "REPO/math";
import * as functions from "REPO/functions";
import * as util from "REPO/util";
import * as hyperbola from "REPO/hyperbola";
import * as stereonet from "REPO/stereonet/index";
const rl = require("readline").createInterface({input: process.stdin});
class Node {
  constructor(tag, doc) { this.tagName = this.localName = tag; this.ownerDocument = doc; this.namespaceURI = "http://www.w3.org/2000/svg"; this.attrs = {}; this.kids = []; this.cls = new Set();
    const self = this;
    this.classList = {add(c) { self.cls.add(c); }, remove(c) { self.cls.delete(c); }, contains(c) { return self.cls.has(c); }}; }
  setAttribute(k, v) { this.attrs[k] = v; if (k === "class") this.cls = new Set(String(v).split(/\s+/)); }
  setAttributeNS(n, k, v) { this.setAttribute(k, v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  removeAttribute(k) { delete this.attrs[k]; }
  appendChild(n) { this.kids.push(n); n.parentNode = this; return n; }
  querySelector(s) {
    const [t, c] = s.split(".");
    for (const k of this.kids) {
      if ((!t || k.tagName === t) && (!c || k.cls.has(c))) return k;
      const r = k.querySelector(s);
      if (r) return r;
    }
    return null;
  }
  insertBefore(n) { return this.appendChild(n); }
}
const doc = {documentElement: {namespaceURI: "http://www.w3.org/2000/svg"}, createElementNS: (ns, t) => new Node(t, doc), createElement: t => new Node(t, doc)};
const fresh = x => JSON.parse(JSON.stringify(x));
const lin = ([a, b]) => Object.assign(v => a * v + b, {});
const api = {
  call(path, ...args) {
    let o = {math, functions, util, hyperbola};
    for (const k of path.split(".")) o = o[k];
    const r = o(...args);
    return {r, args};
  },
  c2s(opts, pts) { const f = math.cart2sph(opts); return pts.map(p => f(p)); },
  surface(h, axes, opts, base) {
    const e = math.combinedErrors(h, axes, opts);
    const raw = fresh(e);
    const f = functions.errorSurface(e, base);
    const line = functions.nominalPlane(e, base);
    return {raw, f, line, contains: raw.nominal.map(p => d3.geoContains(f, p))};
  },
  ellipse(props, opts, probes) {
    const g = functions.errorEllipse(opts);
    const one = h => { const f = h(props); return {f, contains: probes.map(p => d3.geoContains(f, p)), parts: f.geometry.coordinates.map(c => ({area: d3.geoArea({type: "Polygon", coordinates: c}), contains: probes.map(p => d3.geoContains({type: "Polygon", coordinates: c}, p))}))}; };
    return Array.isArray(g) ? g.map(one) : [one(g)];
  },
  plane(props, opts) {
    const n = new Node("g", doc);
    functions.plane(opts).call(n, props);
    return n.kids.map(k => ({tag: k.tagName, cls: [...k.cls].sort(), datum: k.__data__}));
  },
  planedata(data, mean, azimuths) {
    const keep = fresh(data);
    const p = mean == null ? new hyperbola.PlaneData(data) : new hyperbola.PlaneData(data, mean);
    const dip = p.dip();
    return {dip, apparent: azimuths.map(a => p.apparentDip(a)), mean: p.mean, centered: p.centered, axes: p.axes, lengths: p.lengths, array: p.array, color: p.color, inGroup: p.inGroup, same: JSON.stringify(keep) === JSON.stringify(data), data: p.data === data, dip2: p.dip()};
  },
  centroid(kind, planes) {
    const ps = planes.map(d => new hyperbola.PlaneData(d));
    return util[kind](ps);
  },
  transform(data, offset, view, xs, ys, group) {
    const p = new hyperbola.PlaneData(data);
    p.offset = offset;
    if (group) p.group = new hyperbola.PlaneData(group);
    return {t: hyperbola.createTransform(view, lin(xs), lin(ys))(p)};
  },
  digitized(data, offset, view, axes) {
    const p = new hyperbola.PlaneData(data);
    p.offset = offset;
    let got = null;
    const f = hyperbola.digitizedLine(view, d => { got = d; return "path"; });
    if (axes) f.axes(axes);
    const n = new Node("path", doc);
    f.call(n, p);
    return {got, d: n.attrs.d};
  },
  hyperbola(data, offset, view, axes, xs, ys, opts) {
    const p = new hyperbola.PlaneData(data);
    if (offset) p.offset = offset;
    const f = hyperbola.hyperbolicErrors(view, axes, lin(xs), lin(ys));
    for (const k in opts) f[k](opts[k]);
    const n = new Node("g", doc);
    n.__data__ = p;
    const dump = k => ({tag: k.tagName, cls: [...k.cls].sort(), attrs: k.attrs, kids: k.kids.map(dump)});
    f.call(n, p);
    const one = dump(n);
    f.call(n, p);
    const h = n.querySelector("path.hyperbola");
    return {one, two: dump(n), poly: h && h.__data__, lengths: p.lengths};
  },
  apparentLine(data, offset, view, xs, ys, width) {
    const p = new hyperbola.PlaneData(data);
    p.offset = offset;
    const f = hyperbola.apparentDip(view, lin(xs), lin(ys));
    if (width != null) f.width(width);
    const n = new Node("line", doc);
    f.call(n, p);
    return n.attrs;
  },
};
rl.on("line", line => {
  const q = JSON.parse(line);
  let a;
  try { a = {ok: api[q[0]](...q.slice(1))}; } catch (e) { a = {error: String((e && e.stack) || e)}; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
