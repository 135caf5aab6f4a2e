const cn = (...a) => a.map(x => (!x ? "" : typeof x === "string" || typeof x === "number" ? String(x) : Array.isArray(x) ? cn(...x) : Object.keys(x).filter(k => x[k]).join(" "))).filter(x => x).join(" ");
module.exports = cn;
module.exports.default = cn;
