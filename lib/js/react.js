// A small renderer with React's component model: elements, reconciliation by
// type and key, class components with lifecycle, hooks, refs, batched state.
// Synchronous; effects run right after the commit.
const Fragment = Symbol("fragment");
const HTML = "http://www.w3.org/1999/xhtml", SVGNS = "http://www.w3.org/2000/svg";
const svgTags = new Set(["svg", "g", "path", "text", "circle", "line", "rect", "defs", "use", "clipPath", "textPath"]);

function createElement(type, props, ...children) {
  const p = {};
  let key = null, ref = null;
  for (const k in props || {}) {
    if (k === "key") key = props.key == null ? null : String(props.key);
    else if (k === "ref") ref = props.ref;
    else p[k] = props[k];
  }
  if (children.length) p.children = children.length === 1 ? children[0] : children;
  if (type && type.defaultProps) for (const k in type.defaultProps) if (p[k] === undefined) p[k] = type.defaultProps[k];
  if (type === undefined || type === null) throw new Error("element type is " + type);
  return {$$element: true, type, props: p, key, ref, owner: current};
}
const isValidElement = e => !!(e && e.$$element);
const cloneElement = (e, props, ...children) => {
  const n = createElement(e.type, Object.assign({}, e.props, {key: e.key, ref: e.ref}, props), ...children);
  return n;
};

class Component {
  constructor(props, context) { this.props = props; this.context = context; this.refs = {}; this.state = this.state || null; }
  setState(s, cb) { const i = this._inst; if (!i) throw new Error("setState before mounting"); i.queue.push(s); if (cb) i.callbacks.push(cb); dirty(i); }
  forceUpdate(cb) { const i = this._inst; i.force = true; if (cb) i.callbacks.push(cb); dirty(i); }
}
Component.prototype.isReactComponent = {};
class PureComponent extends Component {}
PureComponent.prototype.pure = true;
const shallow = (a, b) => { const x = Object.keys(a || {}), y = Object.keys(b || {}); return x.length === y.length && x.every(k => Object.is(a[k], b[k])); };

let current = null, hookIndex = 0, depth = 0, batching = 0;
let queue = [], layout = [], passive = [];
const dirty = i => { if (!queue.includes(i)) queue.push(i); if (!batching && !depth) flush(); };
function batch(f) { batching++; try { return f(); } finally { batching--; if (!batching) flush(); } }
function flush() {
  if (depth) return;
  let n = 0;
  while (queue.length || layout.length || passive.length) {
    if (++n > 500) throw new Error("Maximum update depth exceeded");
    const todo = queue.sort((a, b) => a.level - b.level);
    queue = [];
    for (const i of todo) if (!i.dead) { depth++; try { rerender(i); } finally { depth--; } }
    const l = layout; layout = [];
    batching++;
    try { for (const f of l) f(); } finally { batching--; }
    if (queue.length) continue;
    const p = passive; passive = [];
    batching++;
    try { for (const f of p) f(); } finally { batching--; }
  }
}

// hooks
const hook = make => { const i = current; if (!i) throw new Error("Invalid hook call"); const k = hookIndex++; if (i.hooks.length <= k) i.hooks.push(make(i)); return i.hooks[k]; };
const same = (a, b) => a && b && a.length === b.length && a.every((x, k) => Object.is(x, b[k]));
function useReducer(reducer, init, lazy) {
  const h = hook(i => { const h = {value: lazy ? lazy(init) : init, reducer}; h.set = a => { const v = h.reducer(h.value, a); if (!Object.is(v, h.value)) { h.value = v; dirty(i); } }; return h; });
  h.reducer = reducer;
  return [h.value, h.set];
}
const useState = init => useReducer((s, a) => (typeof a === "function" ? a(s) : a), undefined, () => (typeof init === "function" ? init() : init));
const useRef = v => hook(() => ({current: v}));
const useMemo = (f, deps) => { const h = hook(() => ({})); if (!same(h.deps, deps)) { h.value = f(); h.deps = deps; } return h.value; };
const useCallback = (f, deps) => useMemo(() => f, deps);
const effect = list => (f, deps) => {
  const h = hook(i => { const h = {effect: true}; return h; });
  if (deps === undefined || !same(h.deps, deps)) {
    h.deps = deps;
    const inst = current;
    (inst.effects = inst.effects || []).push([list, () => { if (inst.dead) return; if (typeof h.clean === "function") h.clean(); h.clean = f(); }]);
  }
};
const useEffect = effect(() => passive), useLayoutEffect = effect(() => layout);
function createContext(v) { const c = {value: v}; c.Provider = ({value, children}) => { c.value = value; return createElement(Fragment, null, children); }; c.Consumer = ({children}) => children(c.value); return c; }
const useContext = c => c.value;
const memo = (f, eq) => { const M = class extends Component { shouldComponentUpdate(n) { return !(eq || shallow)(this.props, n); } render() { return createElement(f, this.props); } }; return M; };
const forwardRef = f => { const F = function (props) { return f(props, current.el.ref || null); }; return F; };

// reconciliation
const norm = c => (c === null || c === undefined || typeof c === "boolean" ? null : typeof c === "number" ? String(c) : c);
function flat(children) {
  const out = [];
  const go = c => { if (Array.isArray(c)) c.forEach(go); else out.push(norm(c)); };
  go(children);
  return out;
}
const kind = e => (typeof e === "string" ? "text" : Array.isArray(e) ? Fragment : e.type);
function mount(e, parent, host) {
  const inst = {el: e, parent, host, level: parent ? parent.level + 1 : 0, hooks: [], queue: [], callbacks: [], children: [], managed: []};
  if (typeof e === "string") { inst.dom = host.dom.ownerDocument.createTextNode(e); return inst; }
  if (Array.isArray(e)) e = inst.el = createElement(Fragment, null, e);
  const {type, props} = e;
  if (typeof type === "string") {
    const doc = host.dom.ownerDocument;
    inst.dom = svgTags.has(type) ? doc.createElementNS(SVGNS, type) : doc.createElementNS(HTML, type);
    setProps(inst, {}, props);
    kids(inst, flat(props.children), inst);
    place(inst);
    if (e.ref) layout.push(() => setRef(e, inst.dom));
  } else if (type === Fragment) {
    kids(inst, flat(props.children), host);
  } else if (type.prototype && type.prototype.isReactComponent) {
    const c = new type(props, {});
    if (!c.props) c.props = props;
    c._inst = inst;
    c.refs = c.refs || {};
    inst.comp = c;
    derive(inst, props);
    output(inst, () => c.render());
    if (e.ref) layout.push(() => setRef(e, c));
    if (c.componentDidMount) layout.push(() => c.componentDidMount());
  } else {
    output(inst, () => type(props));
  }
  return inst;
}
function derive(inst, props) {
  const f = inst.el.type.getDerivedStateFromProps;
  if (f) { const s = f(props, inst.comp.state); if (s) inst.comp.state = Object.assign({}, inst.comp.state, s); }
}
function setRef(e, v) {
  if (typeof e.ref === "function") e.ref(v);
  else if (typeof e.ref === "string") { const o = e.owner && e.owner.comp; if (o) o.refs[e.ref] = v; }
  else if (e.ref) e.ref.current = v;
}
function output(inst, render) {
  const c = current, k = hookIndex;
  current = inst; hookIndex = 0;
  let r;
  try { r = render(); } finally { current = c; hookIndex = k; }
  if (r === undefined) throw new Error("Nothing was returned from render");
  kids(inst, flat([r]), inst.host);
  // after those of the children, as React does
  const todo = inst.effects || [];
  inst.effects = [];
  for (const [list, f] of todo) list().push(f);
}
function kids(inst, els, host) {
  const old = inst.children, used = new Set();
  const byKey = {};
  old.forEach((o, i) => { if (o) { const k = o.el && o.el.key; if (k != null) byKey[k] = o; } });
  const seen = new Set();
  inst.children = els.map((e, i) => {
    if (e === null) return null;
    const key = e.key;
    if (key != null) { if (seen.has(key)) exports.warnings.push("two children with the key " + key); seen.add(key); }
    let o = key != null ? byKey[key] : old[i] && !(old[i].el && old[i].el.key != null) ? old[i] : null;
    if (o && used.has(o)) o = null;
    if (o && kind(o.el) === kind(e)) { used.add(o); update(o, e); return o; }
    return mount(e, inst, host);
  });
  old.forEach(o => { if (o && !used.has(o)) unmount(o); });
}
function update(inst, e) {
  const before = inst.el;
  if (typeof e === "string") { if (e !== before) inst.dom.data = e; inst.el = e; return; }
  if (Array.isArray(e)) e = createElement(Fragment, null, e);
  inst.el = e;
  if (before === e && !inst.queue.length && !inst.force) return;
  if (typeof e.type === "string") {
    setProps(inst, before.props, e.props);
    kids(inst, flat(e.props.children), inst);
    place(inst);
    if (e.ref && e.ref !== before.ref) layout.push(() => setRef(e, inst.dom));
  } else if (e.type === Fragment) kids(inst, flat(e.props.children), inst.host);
  else if (inst.comp) classUpdate(inst, e.props);
  else output(inst, () => e.type(e.props));
}
function classUpdate(inst, props) {
  const c = inst.comp, prevProps = c.props, prevState = c.state;
  let state = prevState;
  const q = inst.queue; inst.queue = [];
  for (const s of q) { const v = typeof s === "function" ? s.call(c, state, props) : s; if (v) state = Object.assign({}, state, v); }
  const force = inst.force; inst.force = false;
  c.state = state;
  derive(inst, props);
  state = c.state;
  let should = true;
  if (!force) {
    c.state = prevState;
    if (c.shouldComponentUpdate) should = c.shouldComponentUpdate(props, state);
    else if (c.pure) should = !shallow(prevProps, props) || !shallow(prevState, state);
  }
  c.state = state;
  c.props = props;
  queue = queue.filter(i => i !== inst);
  const cbs = inst.callbacks; inst.callbacks = [];
  if (should) {
    output(inst, () => c.render());
    if (c.componentDidUpdate) layout.push(() => c.componentDidUpdate(prevProps, prevState));
  }
  cbs.forEach(f => layout.push(() => f.call(c)));
}
function rerender(inst) {
  if (inst.comp) { if (!inst.queue.length && !inst.force) return; classUpdate(inst, inst.el.props); }
  else output(inst, () => inst.el.type(inst.el.props));
  for (let p = inst.parent; p; p = p.parent) if (p.dom) { place(p); break; }
}
function unmount(inst, inside) {
  inst.dead = true;
  if (inst.comp && inst.comp.componentWillUnmount) inst.comp.componentWillUnmount();
  inst.hooks.forEach(h => { if (h && h.effect && typeof h.clean === "function") h.clean(); });
  if (inst.el && inst.el.ref) setRef(inst.el, null);
  inst.children.forEach(c => c && unmount(c, inside || !!inst.dom));
  if (inst.dom && !inside && inst.dom.parentNode) inst.dom.parentNode.removeChild(inst.dom);
}
const domsOf = i => (i.dom ? [i.dom] : i.children.reduce((a, c) => (c ? a.concat(domsOf(c)) : a), []));
function place(inst) {
  const want = inst.children.reduce((a, c) => (c ? a.concat(domsOf(c)) : a), []);
  inst.managed.forEach(n => { if (!want.includes(n) && n.parentNode === inst.dom) inst.dom.removeChild(n); });
  let next = null;
  for (let k = want.length - 1; k >= 0; k--) {
    const n = want[k];
    if (n.parentNode !== inst.dom || (next && n.nextSibling !== next)) inst.dom.insertBefore(n, next);
    next = n;
  }
  inst.managed = want;
}
const attrName = k => ({className: "class", htmlFor: "for"}[k] || k);
function setProps(inst, before, now) {
  const d = inst.dom;
  d.__props = now;
  for (const k of new Set([...Object.keys(before), ...Object.keys(now)])) {
    if (k === "children" || before[k] === now[k]) continue;
    if (/^on[A-Z]/.test(k)) continue;
    const v = now[k];
    if (k === "style") {
      for (const s in before.style || {}) if (!(s in (v || {}))) d.style.removeProperty(s);
      for (const s in v || {}) d.style.setProperty(s, typeof v[s] === "number" ? v[s] + "px" : v[s]);
    } else if (v === null || v === undefined || v === false) d.removeAttribute(attrName(k));
    else d.setAttribute(attrName(k), v === true ? "" : v);
  }
}

// what the page's user does: React handlers bubble through the tree
function act(node, handler, event = {}) {
  return batch(() => {
    let stopped = false;
    const e = Object.assign({target: node, currentTarget: node, type: handler.slice(2).toLowerCase(), preventDefault() {}, stopPropagation() { stopped = true; }, persist() {},
      nativeEvent: {stopImmediatePropagation() {}, stopPropagation() {}}}, event);
    for (let n = node; n && !stopped; n = n.parentNode) { const p = n.__props; if (p && typeof p[handler] === "function" && !(p.disabled && handler === "onClick")) { e.currentTarget = n; p[handler](e); } }
  });
}
const roots = new Map();
function render(el, container, cb) {
  const old = roots.get(container);
  depth++;
  let root = old;
  try {
    if (!root) { root = {dom: container, level: -1, children: [], managed: [], hooks: [], queue: [], callbacks: [], el: null}; roots.set(container, root); }
    kids(root, flat([el]), root);
    place(root);
  } catch (e) { roots.delete(container); queue = []; layout = []; passive = []; throw e; } finally { depth--; }
  if (!batching) flush();
  if (cb) cb();
  const c = root.children[0];
  return c ? c.comp || c.dom || null : null;
}
function unmountComponentAtNode(container) { const r = roots.get(container); if (!r) return false; r.children.forEach(c => c && unmount(c)); roots.delete(container); return true; }
function findDOMNode(x) { if (!x) return null; if (x.nodeType) return x; return domsOf(x._inst)[0] || null; }
const reset = () => { roots.clear(); queue = []; layout = []; passive = []; depth = batching = 0; current = null; exports.warnings.length = 0; };

Object.assign(exports, {Fragment, createElement, isValidElement, cloneElement, Component, PureComponent, useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, createContext, useContext, memo, forwardRef,
  createRef: () => ({current: null}), StrictMode: Fragment, Children: {toArray: c => flat(c).filter(x => x !== null), map: (c, f) => flat(c).map(f), forEach: (c, f) => flat(c).forEach(f), only: c => c, count: c => flat(c).length},
  render, unmountComponentAtNode, findDOMNode, unstable_batchedUpdates: batch, act, batch, reset, warnings: []});
exports.default = exports;
exports.__esModule = true;
