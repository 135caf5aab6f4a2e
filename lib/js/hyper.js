// Stand-in for react-hyperscript and @macrostrat/hyper.
const R = require("./react.js");
function h(tag, props, ...rest) {
  if (Array.isArray(tag)) return R.createElement(R.Fragment, null, ...tag);
  let children = rest;
  const plain = props !== null && typeof props === "object" && !Array.isArray(props) && !R.isValidElement(props);
  if (!plain) { if (props !== undefined && props !== null) children = [props, ...rest]; props = {}; }
  props = Object.assign({}, props);
  if (typeof tag === "string") {
    const m = tag.split(/(?=[.#])/);
    tag = /^[.#]/.test(m[0]) ? "div" : m.shift();
    const cls = m.filter(x => x[0] === ".").map(x => x.slice(1)), id = m.find(x => x[0] === "#");
    if (cls.length) props.className = cls.concat(props.className || []).join(" ");
    if (id) props.id = id.slice(1);
  }
  if (children.length === 1 && Array.isArray(children[0])) children = children[0];
  return R.createElement(tag, props, ...children);
}
h.styled = () => h;
module.exports = h;
module.exports.default = h;
module.exports.hyperStyled = () => h;
module.exports.__esModule = true;
