// Runs the scripts of notebook outputs; one JSON request and one JSON answer per line.
const vm = require("vm"), rl = require("readline").createInterface({input: process.stdin});
function enc(v) {
  if (typeof v === "number") {
    if (Number.isNaN(v)) return {$num: "nan"};
    if (v === Infinity) return {$num: "inf"};
    if (v === -Infinity) return {$num: "-inf"};
    if (Object.is(v, -0)) return {$num: "-0"};
    return v;
  }
  if (v === undefined) return {$undefined: 1};
  if (Array.isArray(v)) return v.map(enc);
  if (v && typeof v === "object") { const o = {}; for (const k of Object.keys(v)) o["k" + k] = enc(v[k]); return o; }
  return v;
}
rl.on("line", line => {
  const req = JSON.parse(line), calls = [], log = [];
  const els = {};
  for (const id of req.ids) els[id] = {id};
  const document = {
    querySelector(s) { log.push(s); const mm = /^#([A-Za-z_][\w-]*)$/.exec(s); if (!mm) throw new Error("bad selector " + s); return els[mm[1]] || null; },
    getElementById(s) { log.push("#" + s); return els[s] || null; }
  };
  const out = {};
  try {
    const ctx = vm.createContext({document, attitudeUI(el, data) { calls.push({el: el && el.id, n: arguments.length, data: enc(data)}); }});
    ctx.window = ctx;
    for (const s of req.scripts) vm.runInContext(s, ctx, {timeout: 20000});
    out.globals = Object.keys(ctx).filter(k => !["document", "attitudeUI", "window"].includes(k));
  } catch (e) { out.error = String(e); }
  out.calls = calls; out.log = log;
  process.stdout.write(JSON.stringify(out) + "\n");
});
