// Stand-ins for small third-party packages that are not installed here.
const each = how => function (o) {
  if (typeof o === "function") return this.each(function (...a) { const s = require("d3").select(this), v = o.apply(this, a); for (const k in v) s[how](k, v[k]); });
  for (const k in o) this[how](k, o[k]);
  return this;
};
exports.attrs = each("attr");
exports.styles = each("style");
exports.properties = each("property");
let n = 0;
exports.v4 = () => "uuid-" + ++n;
