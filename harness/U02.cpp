//@ src: types/Point.cpp
//@ native: gdal
//@ bound: all points with coordinates in [-5000000, 5000000], all angles in [-20, 20], all distances in [-5000000, 5000000]
//@ assume: points in the plane z = 0 unless the property is about a single vector operation
#include "geo.h"
SX_HARNESS(U02_rotate) {
  Point c = pnt3("c"), p = pnt3("p"); double a = sx_angle("ang", -20, 20); Point q = c.rotateFromPoint(a, p);
  double ca = std::cos(a), sa = std::sin(a), vx = p.getX() - c.getX(), vy = p.getY() - c.getY();
  sx_assert_eq(q.getX(), c.getX() + vx * ca - vy * sa, "rotation about a point: x"); sx_assert_eq(q.getY(), c.getY() + vx * sa + vy * ca, "rotation about a point: y");
  sx_assert_eq(q.getZ(), p.getZ(), "rotating in the plane keeps the elevation"); sx_assert_eq(d2(q, c), d2(p, c), "rotating keeps the distance to the centre");
  Point b = c.rotateFromPoint(-a, q); same(b, p, "rotating back restores the point");
}
SX_HARNESS(U02_offset) {
  Point p = pnt("p"); double a = sx_angle("ang", -20, 20), d = num("dist"); Point q = p.getPointFromAngle(a, d);
  sx_assert_eq(d2(p, q), d * d, "offsetting moves by exactly the distance");
  sx_assert_eq(q.getX() - p.getX(), d * std::cos(a), "offsetting goes along the angle (x)"); sx_assert_eq(q.getY() - p.getY(), d * std::sin(a), "offsetting goes along the angle (y)");
}
SX_HARNESS(U02_angle_of_offset) {
  Point p = pnt("p"); double a = sx_angle("ang", -6, 6), d = num("dist", 0.5, 100); Point q = p.getPointFromAngle(a, d);
  sx_assert_angle_eq((q - p).getAngleFromPoint(), a, "the angle of an offset is the offset angle");
}
SX_HARNESS(U02_angle_range) { Point p = pnt("p"); sx_assume(d2(p, Point(0, 0)) > 1e-3); double a = p.getAngleFromPoint(); sx_assert(a >= 0 && a < 2 * PI + sx_tol(1e-9), "the angle of a point is normalised");
  double n = std::sqrt(p.getX() * p.getX() + p.getY() * p.getY()); sx_assert_eq(n * std::cos(a), p.getX(), "the angle of a point points at it (x)"); sx_assert_eq(n * std::sin(a), p.getY(), "the angle of a point points at it (y)"); }
SX_HARNESS(U02_vertex_scale) {
  Point u = pnt("u"), v = pnt("v"); double k = num("k", 0.1, 10); sx_assume(d2(u, Point(0, 0)) > 1e-2 && d2(v, Point(0, 0)) > 1e-2);
  double a = Point::getAngleFromPoints(Point(0, 0), u, u + v), nu = std::sqrt(u * u), nv = std::sqrt(v * v);
  sx_assert_eq(std::cos(a) * nu * nv, u.getX() * v.getX() + u.getY() * v.getY(), "angle at a vertex: cosine"); sx_assert_eq(std::sin(a) * nu * nv, u.getX() * v.getY() - u.getY() * v.getX(), "angle at a vertex: sine");
  double b = Point::getAngleFromPoints(Point(0, 0), u * k, u * k + v * k); sx_assert_angle_eq(a, b, "the angle at a vertex does not depend on scale");
}
SX_HARNESS(U02_between) {
  Point u = pnt("u", -100, 100), v = pnt("v", -100, 100); sx_assume(d2(u, Point(0, 0)) > 1e-2 && d2(v, Point(0, 0)) > 1e-2); double a = u.getAngleFromPoints(v), nu = std::sqrt(u * u), nv = std::sqrt(v * v);
  sx_assert_eq(std::cos(a) * nu * nv, u.getX() * v.getX() + u.getY() * v.getY(), "angle between vectors: cosine"); sx_assert_eq(std::sin(a) * nu * nv, u.getX() * v.getY() - u.getY() * v.getX(), "angle between vectors: sine");
}
SX_HARNESS(U02_signed_distance) {
  Point p = pnt("p"), a = pnt("a"), b = pnt("b"); sx_assume(d2(a, b) > 1e-2);
  double s = p.signedDistance2Segment(a, b), cr = (b.getX() - a.getX()) * (p.getY() - a.getY()) - (b.getY() - a.getY()) * (p.getX() - a.getX());
  sx_assert_eq(s * s * d2(a, b), cr * cr, "the signed distance is the distance to the line"); 
  sx_assert_eq(p.signedDistance2Segment(b, a), -s, "the signed distance changes sign with the direction");
  // mirror image of p on the other side
  double k = 2 * cr / d2(a, b); Point m(p.getX() + k * (b.getY() - a.getY()), p.getY() - k * (b.getX() - a.getX()));
  sx_assert_eq(m.signedDistance2Segment(a, b), -s, "the signed distance changes sign with the side");
}
SX_HARNESS(U02_signed_side) { Point p = pnt("p"), a = pnt("a"), b = pnt("b"); sx_assume(d2(a, b) > 1e-2); double s = p.signedDistance2Segment(a, b), cr = (b.getX() - a.getX()) * (p.getY() - a.getY()) - (b.getY() - a.getY()) * (p.getX() - a.getX());
  sx_assert(s * cr > -1e-9 - sx_tol(1e-6), "positive on the left of the direction, negative on the right"); }
SX_HARNESS(U02_lines) {
  Point a = pnt("a"), b = pnt("b"), c = pnt("c"), d = pnt("d"); double sc = sx_choose("small", 0, 1) ? 1.0 / 1024 : 1; // also as a picture a thousand times smaller
  double den = (b.getX() - a.getX()) * (d.getY() - c.getY()) - (b.getY() - a.getY()) * (d.getX() - c.getX());
  Point q = Point::intersectionOfLines(a * sc, b * sc, c * sc, d * sc) * (1 / sc);
  if (sx_is_replay()) sx_assume(den == 0 || std::fabs(den) > 1e-2);
  if (den == 0) { sx_reach("parallel"); same(q, a, "parallel lines: the start of the first line is returned"); return; }
  sx_reach("crossing");
  sx_assert_eq((b.getX() - a.getX()) * (q.getY() - a.getY()), (b.getY() - a.getY()) * (q.getX() - a.getX()), "the intersection lies on the first line");
  sx_assert_eq((d.getX() - c.getX()) * (q.getY() - c.getY()), (d.getY() - c.getY()) * (q.getX() - c.getX()), "the intersection lies on the second line");
}
SX_HARNESS(U02_vector) {
  Point a = pnt3("a"), b = pnt3("b"); double k = num("k", 0.5, 10);
  same((a + b) - b, a, "adding and subtracting restores a point"); same((a * k) / k, a, "scaling and unscaling restores a point");
  Point c = a; c *= k; same(c, a * k, "scaling in place equals scaling"); same(a + b, b + a, "addition commutes");
  sx_assert_eq(a * b, a.getX() * b.getX() + a.getY() * b.getY() + a.getZ() * b.getZ(), "dot product"); sx_assert_eq(Point::det(a, b), a.getX() * b.getY() - a.getY() * b.getX(), "determinant");
  same(a + b, Point(a.getX() + b.getX(), a.getY() + b.getY(), a.getZ() + b.getZ()), "sum by coordinate"); same(a - b, Point(a.getX() - b.getX(), a.getY() - b.getY(), a.getZ() - b.getZ()), "difference by coordinate");
  same(a * k, Point(a.getX() * k, a.getY() * k, a.getZ() * k), "scaling by coordinate");
}
SX_HARNESS(U02_order) {
  Point a = pnt("a"), b = pnt("b"), c = pnt("c");
  sx_assert(!(a < a), "order: irreflexive"); sx_assert(!(a < b && b < a), "order: asymmetric"); sx_assert(!(a < b && b < c) || a < c, "order: transitive");
  sx_assert(a < b || b < a || (a.getX() == b.getX() && a.getY() == b.getY()), "order: total on the plane");
  sx_assert(a == a && (a == b) == (b == a) && (a != b) == !(a == b), "equality: reflexive, symmetric, negated by !=");
  sx_assert(!(a == b) || (std::fabs(a.getX() - b.getX()) < 1e-6 && std::fabs(a.getY() - b.getY()) < 1e-6), "equal points have equal coordinates");
  sx_assert_eq(Point(a).distance(b) * Point(a).distance(b), d2(a, b), "the distance of two points is Euclidean");
}
