// A small document model: enough of the DOM for d3 selections, geo paths,
// event handlers and the mini renderer in react.js.
const SVG = "http://www.w3.org/2000/svg", HTML = "http://www.w3.org/1999/xhtml";

class Target {
  constructor() { this.listeners = []; }
  addEventListener(type, fn, o) { if (!this.listeners.some(l => l.type === type && l.fn === fn)) this.listeners.push({type, fn}); }
  removeEventListener(type, fn) { this.listeners = this.listeners.filter(l => !(l.type === type && l.fn === fn)); }
  dispatchEvent(e) { return this.fire(e.type, e); }
  fire(type, props = {}) {
    const e = Object.assign({type, target: this, stopped: false, defaultPrevented: false, preventDefault() { e.defaultPrevented = true; }, stopPropagation() { e.stopped = true; },
      stopImmediatePropagation() { e.stopped = true; }, pageX: 0, pageY: 0, clientX: props.pageX || 0, clientY: props.pageY || 0, button: 0, buttons: 1, timeStamp: 0}, props);
    for (let n = this; n && !e.stopped; n = n.parentNode || (n.defaultView && n !== n.defaultView ? n.defaultView : null)) {
      e.currentTarget = n;
      for (const l of n.listeners.slice()) if (l.type === type) (typeof l.fn === "function" ? l.fn.call(n, e) : l.fn.handleEvent(e));
      if (/^mouse(enter|leave)$/.test(type)) break;
    }
    return e;
  }
}

class Node extends Target {
  constructor(doc) { super(); this.ownerDocument = doc; this.childNodes = []; this.parentNode = null; }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get children() { return this.childNodes.filter(n => n.nodeType === 1); }
  get firstElementChild() { return this.children[0] || null; }
  sibling(k) { const p = this.parentNode; return (p && p.childNodes[p.childNodes.indexOf(this) + k]) || null; }
  get nextSibling() { return this.sibling(1); }
  get previousSibling() { return this.sibling(-1); }
  appendChild(n) { return this.insertBefore(n, null); }
  append(...ns) { ns.forEach(n => this.appendChild(n)); }
  insertBefore(n, ref) {
    if (n.parentNode) n.parentNode.removeChild(n);
    const i = ref ? this.childNodes.indexOf(ref) : -1;
    if (i < 0) this.childNodes.push(n); else this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
  removeChild(n) { const i = this.childNodes.indexOf(n); if (i < 0) throw new Error("NotFoundError"); this.childNodes.splice(i, 1); n.parentNode = null; return n; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    const up = n => { const r = []; for (; n; n = n.parentNode) r.unshift(n); return r; };
    const a = up(this), b = up(o);
    let i = 0;
    while (a[i] && a[i] === b[i]) i++;
    if (!a[i]) return 20; // contained by
    if (!b[i]) return 10; // contains
    return a[i].parentNode && a[i].parentNode.childNodes.indexOf(a[i]) < a[i].parentNode.childNodes.indexOf(b[i]) ? 4 : 2;
  }
  get textContent() { return this.nodeType === 3 ? this.data : this.childNodes.map(n => n.textContent).join(""); }
  set textContent(v) { if (this.nodeType === 3) { this.data = String(v); return; } this.childNodes.slice().forEach(n => this.removeChild(n)); if (v !== "" && v != null) this.appendChild(new Text(String(v), this.ownerDocument)); }
  get isConnected() { return this.ownerDocument.documentElement.contains(this); }
}
class Text extends Node { constructor(t, doc) { super(doc); this.nodeType = 3; this.nodeName = "#text"; this.data = t; } get nodeValue() { return this.data; } set nodeValue(v) { this.data = v; } }

const compound = s => {
  const out = {tag: null, id: null, cls: [], attr: [], last: false, first: false};
  const re = /([#.]?)([\w-]+|\*)|\[([\w:-]+)(?:([~^$*]?)=["']?([^\]"']*)["']?)?\]|:([\w-]+)(?:\(([^)]*)\))?/g;
  let m;
  while ((m = re.exec(s))) {
    if (m[3]) out.attr.push([m[3], m[5], m[4]]);
    else if (m[6]) { if (m[6] === "last-child") out.last = true; else if (m[6] === "first-child") out.first = true; else throw new Error("selector " + s); }
    else if (m[1] === ".") out.cls.push(m[2]);
    else if (m[1] === "#") out.id = m[2];
    else if (m[2] !== "*") out.tag = m[2];
  }
  return out;
};
const parsed = {};
const parse = s => parsed[s] || (parsed[s] = s.split(",").map(p => p.trim().replace(/\s*>\s*/g, " > ").split(/\s+/)).map(p => {
  const parts = [];
  let child = false;
  for (const t of p) { if (t === ">") child = true; else { parts.push({c: compound(t), child}); child = false; } }
  return parts;
}));
const fits = (n, c) => n.nodeType === 1 && (!c.tag || n.localName.toLowerCase() === c.tag.toLowerCase()) && (!c.id || n.getAttribute("id") === c.id) && c.cls.every(k => n.classList.contains(k))
  && c.attr.every(([k, v]) => n.hasAttribute(k) && (v == null || n.getAttribute(k) === v)) && (!c.last || n.parentNode.children.slice(-1)[0] === n) && (!c.first || n.parentNode.children[0] === n);
const matchParts = (n, parts, i) => {
  if (!fits(n, parts[i].c)) return false;
  if (!i) return true;
  if (parts[i].child) return !!n.parentNode && matchParts(n.parentNode, parts, i - 1);
  for (let p = n.parentNode; p; p = p.parentNode) if (matchParts(p, parts, i - 1)) return true;
  return false;
};

class Element extends Node {
  constructor(tag, ns, doc) {
    super(doc); this.nodeType = 1; this.localName = tag; this.tagName = this.nodeName = ns === HTML ? tag.toUpperCase() : tag; this.namespaceURI = ns; this.attrs = {};
    const st = {}, self = this;
    this.style = {setProperty(k, v) { st[k] = String(v); }, getPropertyValue(k) { return k in st ? st[k] : ""; }, removeProperty(k) { delete st[k]; }, all: st};
    this.classList = {
      get list() { return (self.attrs.class || "").split(/\s+/).filter(x => x); },
      add(...c) { const l = this.list; c.forEach(k => { if (!l.includes(k)) l.push(k); }); self.attrs.class = l.join(" "); },
      remove(...c) { self.attrs.class = this.list.filter(k => !c.includes(k)).join(" "); },
      contains(c) { return this.list.includes(c); },
      toggle(c, f) { if (f === undefined) f = !this.contains(c); f ? this.add(c) : this.remove(c); return f; },
      get length() { return this.list.length; }, item(i) { return this.list[i]; }};
  }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  setAttributeNS(ns, k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  hasAttribute(k) { return k in this.attrs; }
  hasAttributeNS(ns, k) { return k in this.attrs; }
  removeAttribute(k) { delete this.attrs[k]; }
  removeAttributeNS(ns, k) { delete this.attrs[k]; }
  get id() { return this.attrs.id || ""; } set id(v) { this.attrs.id = v; }
  get className() { return this.attrs.class || ""; } set className(v) { this.attrs.class = v; }
  get attributes() { return Object.keys(this.attrs).map(name => ({name, value: this.attrs[name]})); }
  get innerHTML() { return ""; } set innerHTML(v) { this.textContent = ""; if (v) throw new Error("innerHTML of markup"); }
  get outerHTML() { return "<" + this.localName + ">"; }
  get ownerSVGElement() { for (let p = this.parentNode; p; p = p.parentNode) if (p.localName === "svg") return p; return null; }
  getBoundingClientRect() { return {left: 0, top: 0, x: 0, y: 0, width: 400, height: 400, right: 400, bottom: 400}; }
  getBBox() { return {x: 0, y: 0, width: 10, height: 10}; }
  get clientLeft() { return 0; } get clientTop() { return 0; } get clientWidth() { return 400; } get offsetWidth() { return 400; }
  focus() {} blur() {}
  matches(s) { return parse(s).some(p => matchParts(this, p, p.length - 1)); }
  closest(s) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(s)) return n; return null; }
  querySelectorAll(s) {
    const ps = parse(s), out = [];
    const walk = n => { for (const k of n.childNodes) if (k.nodeType === 1) { if (ps.some(p => matchParts(k, p, p.length - 1))) out.push(k); walk(k); } };
    walk(this);
    return out;
  }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(c) { return this.querySelectorAll("." + c); }
  cloneNode(deep) { const n = new Element(this.localName, this.namespaceURI, this.ownerDocument); n.attrs = Object.assign({}, this.attrs); if (deep) this.childNodes.forEach(k => n.appendChild(k.nodeType === 3 ? new Text(k.data, k.ownerDocument) : k.cloneNode(true))); return n; }
}

exports.create = function () {
  const win = new Target();
  const doc = new Target();
  doc.nodeType = 9;
  doc.createElementNS = (ns, t) => new Element(t, ns, doc);
  doc.createElement = t => new Element(t, HTML, doc);
  doc.createTextNode = t => new Text(String(t), doc);
  doc.documentElement = new Element("html", HTML, doc);
  doc.documentElement.parentNode = doc;
  doc.body = doc.documentElement.appendChild(new Element("body", HTML, doc));
  doc.querySelector = s => doc.documentElement.querySelector(s);
  doc.querySelectorAll = s => doc.documentElement.querySelectorAll(s);
  doc.getElementById = s => doc.documentElement.querySelector("#" + s);
  doc.defaultView = win;
  win.document = doc;
  win.defaultView = win;
  win.getComputedStyle = n => n.style;
  win.setTimeout = setTimeout; win.clearTimeout = clearTimeout;
  win.requestAnimationFrame = f => setTimeout(f, 0);
  win.svg = () => doc.body.appendChild(new Element("svg", SVG, doc));
  return win;
};
