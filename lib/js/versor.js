// Stand-in for the third-party `attitude` package (versor rotations; not installed
// here): unit quaternions about axes given as [longitude, latitude] in degrees.
const R = Math.PI / 180;
exports.versor_fromAxisAngle = ([lon, lat], angle) => {
  const a = angle * R / 2, s = Math.sin(a);
  return [Math.cos(a), s * Math.cos(lat * R) * Math.cos(lon * R), s * Math.cos(lat * R) * Math.sin(lon * R), s * Math.sin(lat * R)];
};
exports.versor_multiply = ([a1, b1, c1, d1], [a2, b2, c2, d2]) => [
  a1 * a2 - b1 * b2 - c1 * c2 - d1 * d2, a1 * b2 + b1 * a2 + c1 * d2 - d1 * c2,
  a1 * c2 - b1 * d2 + c1 * a2 + d1 * b2, a1 * d2 + b1 * c2 - c1 * b2 + d1 * a2];
// rows are the images of the coordinate axes
exports.versor_toRotationMatrix = ([w, x, y, z]) => [
  [1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)],
  [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)],
  [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]];
