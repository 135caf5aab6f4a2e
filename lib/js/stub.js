// Stand-in for packages that are not installed and whose functions the
// workload does not reach.
const f = function () { return f; };
module.exports = new Proxy(f, {get: (t, k) => (k === "__esModule" ? false : k === "default" ? f : t[k] !== undefined ? t[k] : f)});
