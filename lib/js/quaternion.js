// Stand-in for the third-party `quaternion` package (not installed here):
// rotation about an axis, as a 3x3 matrix acting on column vectors.
function Q(w, v) { this.w = w; this.v = v; }
Q.fromAxisAngle = function (axis, angle) {
  const l = Math.hypot(axis[0], axis[1], axis[2]), s = Math.sin(angle / 2) / l;
  return new Q(Math.cos(angle / 2), [axis[0] * s, axis[1] * s, axis[2] * s]);
};
Q.prototype.toMatrix = function (twoD) {
  const w = this.w, [x, y, z] = this.v;
  const m = [
    [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
    [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
    [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
  ];
  return twoD ? m : [].concat(...m);
};
module.exports = Q;
