// build.js <repo> <outfile> [entry]: bundles the front-end sources with a query server.
const path = require("path");
const mods = "/opt/veriftools/node/node_modules/";
const esbuild = require(mods + "esbuild");
const [repo, out, entry] = process.argv.slice(2);
const pkgs = path.join(repo, "frontend/packages");
const pkg = path.join(pkgs, "attitude");
const here = __dirname;
const d3 = path.join(pkg, "lib/d3v4+jetpack.js");
const where = name => {
  let m;
  if (name === "mathjs") return path.join(pkg, "lib/math.js");
  if (name === "underscore") return require.resolve(mods + "underscore");
  if (name === "quaternion") return path.join(here, "quaternion.js");
  if (name === "d3" || /^d3-(array|shape|geo|selection|scale|transition|format|dispatch|path|interpolate|drag|axis|color)$/.test(name) || name === "d3-jetpack") return d3;
  if (/^d3-selection-multi\/.*(attrs|styles|properties)$/.test(name)) return path.join(here, name.replace(/.*\//, "") + ".js");
  if (name === "d3-jetpack/src/selectAppend") return path.join(here, "selectappend.js");
  if (name === "chroma-js") return path.join(here, "chroma.js");
  if (name === "uuid") return path.join(here, "uuid.js");
  if (/^attitude\/src\/(versor|matrix)$/.test(name)) return path.join(here, "versor.js");
  if (/^react(-dom)?$/.test(name)) return path.join(here, "react.js");
  if (name === "@macrostrat/hyper" || name === "react-hyperscript") return path.join(here, "hyper.js");
  if (name === "react-datasheet") return path.join(here, "datasheet.js");
  if (name === "immutability-helper") return path.join(here, "immutability.js");
  if (/^kld-(intersections|path-parser)(\/.*)?$/.test(name)) return path.join(here, "kld.js");
  if (name === "classnames") return path.join(here, "classnames.js");
  if (/^(@blueprintjs\/(core|popover2)|react-color|react-copy-to-clipboard|@macrostrat\/ui-components)$/.test(name)) return path.join(here, "widgets.js");
  if ((m = /^@attitude\/(core|notebook-ui|plots)(\/src)?$/.exec(name))) return path.join(pkgs, m[1] === "core" ? "attitude" : m[1], "src", "index.ts");
  if ((m = /^@attitude\/core\/src\/([\w-]+)$/.exec(name))) return path.join(pkg, "src", m[1] + ".ts");
  if ((m = /^WEB\/(.*)$/.exec(name))) return path.join(pkgs, m[1] + ".ts");
  return path.join(here, "stub.js");
};
const local = (p, f) => {
  for (const e of ["", ".ts", ".tsx", ".js", "/index.ts", "/index.js"]) if (require("fs").existsSync(p + e) && require("fs").statSync(p + e).isFile()) return {path: p + e};
  return {errors: [{text: "no such file: " + p}]};
};
const plugin = {name: "packages", setup(b) {
  b.onResolve({filter: /^REPO$/}, () => ({path: path.join(pkg, "src", "index.ts")}));
  b.onResolve({filter: /^REPO\//}, a => ({path: path.join(pkg, "src", a.path.slice(5) + ".ts")}));
  b.onResolve({filter: /^[^./]/}, a => (a.kind === "entry-point" || /^(readline|fs|path|util)$/.test(a.path) ? undefined : {path: where(a.path)}));
}};
esbuild.build({entryPoints: [path.join(here, entry || "server.js")], bundle: true, platform: "node", format: "cjs", outfile: out,
  loader: {".styl": "empty", ".css": "empty"}, plugins: [plugin], logLevel: "error", sourcemap: false})
  .then(() => process.exit(0), e => { console.error(String(e)); process.exit(1); });
