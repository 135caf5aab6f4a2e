// Stand-in for chroma-js: parses the usual colour notations, refuses the rest.
const names = {white: "#ffffff", black: "#000000", red: "#ff0000", green: "#008000", blue: "#0000ff", gray: "#808080", grey: "#808080", orange: "#ffa500", purple: "#800080",
  dodgerblue: "#1e90ff", rebeccapurple: "#663399", yellow: "#ffff00", teal: "#008080", brown: "#a52a2a", pink: "#ffc0cb", navy: "#000080", steelblue: "#4682b4"};
class Color {
  constructor(r, g, b, a) { this._rgb = [r, g, b]; this._a = a; }
  alpha(a) { return a === undefined ? this._a : new Color(...this._rgb, a); }
  rgb() { return this._rgb.map(Math.round); }
  hex() { return "#" + this.rgb().map(x => x.toString(16).padStart(2, "0")).join(""); }
  name() { const h = this.hex(); return Object.keys(names).find(k => names[k] === h) || h; }
  css() { const c = this.rgb().join(","); return this._a === 1 ? `rgb(${c})` : `rgba(${c},${this._a})`; }
  darken(k = 1) { const f = Math.pow(.85, k); return new Color(...this._rgb.map(x => x * f), this._a); }
  brighten(k = 1) { return this.darken(-k); }
  luminance() { return this._rgb.reduce((a, b) => a + b) / 765; }
}
const chroma = function (c) {
  if (c instanceof Color) return c;
  let s = String(c).trim().toLowerCase(), m;
  s = names[s] || s;
  if ((m = /^#?([0-9a-f])([0-9a-f])([0-9a-f])$/.exec(s))) return new Color(...m.slice(1, 4).map(x => parseInt(x + x, 16)), 1);
  if ((m = /^#?([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})$/.exec(s))) return new Color(...m.slice(1, 4).map(x => parseInt(x, 16)), 1);
  if ((m = /^rgba?\(\s*([\d.]+)\s*,\s*([\d.]+)\s*,\s*([\d.]+)\s*(?:,\s*([\d.]+)\s*)?\)$/.exec(s))) return new Color(+m[1], +m[2], +m[3], m[4] === undefined ? 1 : +m[4]);
  throw new Error("unknown color: " + c);
};
chroma.valid = c => { try { chroma(c); return true; } catch (e) { return false; } };
chroma.Color = Color;
module.exports = chroma;
