// Stand-in for immutability-helper.
function update(o, spec) {
  if (typeof spec === "function") return spec(o);
  if ("$set" in spec) return spec.$set;
  if ("$apply" in spec) return spec.$apply(o);
  if ("$push" in spec) return o.concat(spec.$push);
  if ("$unshift" in spec) return spec.$unshift.concat(o);
  if ("$splice" in spec) { const c = o.slice(); spec.$splice.forEach(a => c.splice(...a)); return c; }
  if ("$merge" in spec) return Object.assign({}, o, spec.$merge);
  if ("$unset" in spec) { const c = Object.assign({}, o); spec.$unset.forEach(k => delete c[k]); return c; }
  const c = Array.isArray(o) ? o.slice() : Object.assign({}, o);
  if (o === undefined || o === null) throw new Error("update(): cannot descend into " + o);
  for (const k of Object.keys(spec)) c[k] = update(o[k], spec[k]);
  return c;
}
module.exports = update;
module.exports.default = update;
module.exports.__esModule = true;
