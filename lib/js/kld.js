// Stand-in for kld-intersections and kld-path-parser: a path of moves and
// lines, and where it crosses a segment.
class PathHandler {
  constructor() { this.shapes = []; this.at = null; this.from = null; }
  beginParse() {} endParse() {}
  move(x, y) { this.at = this.from = [x, y]; }
  line(x, y) { this.shapes.push([this.at, [x, y]]); this.at = [x, y]; }
  close() { this.shapes.push([this.at, this.from]); this.at = this.from; }
}
class PathParser {
  setHandler(h) { this.handler = h; }
  parseData(d) {
    if (typeof d !== "string") throw new TypeError("path data expected");
    this.handler.beginParse();
    for (const [, c, x, y] of d.matchAll(/([MLZ])(?:([-\d.e+]+),([-\d.e+]+))?/g)) {
      if (c === "M") this.handler.move(+x, +y); else if (c === "L") this.handler.line(+x, +y); else this.handler.close();
    }
    this.handler.endParse();
  }
}
class Point2D { constructor(x, y) { this.x = x; this.y = y; } }
const Shapes = {
  line: (x1, y1, x2, y2) => ({name: "Line", segments: [[[x1, y1], [x2, y2]]]}),
  path: segments => ({name: "Path", segments}),
};
const cross = (a, b) => a[0] * b[1] - a[1] * b[0], sub = (a, b) => [a[0] - b[0], a[1] - b[1]];
const Intersection = {
  intersect(p, q) {
    const points = [];
    for (const [a, b] of p.segments) for (const [c, d] of q.segments) {
      const u = sub(b, a), v = sub(d, c), w = sub(c, a), k = cross(u, v);
      if (k === 0) continue;
      const s = cross(w, v) / k, t = cross(w, u) / k;
      if (s >= 0 && s <= 1 && t >= 0 && t <= 1) points.push(new Point2D(a[0] + s * u[0], a[1] + s * u[1]));
    }
    return {status: points.length ? "Intersection" : "No Intersection", points};
  },
};
PathHandler.PathHandler = PathHandler;
module.exports = Object.assign(PathHandler, {PathParser, PathHandler, Shapes, Intersection, Point2D, default: PathHandler});
