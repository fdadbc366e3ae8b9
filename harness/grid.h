#pragma once
// Exact arithmetic on polygons whose edges are all horizontal or vertical (with holes, several parts):
// the contract some harnesses put in place of GEOS. Coordinates are symbolic; only their order is decided.
#include "geo.h"
#include "ogr_model.h"
#include <memory>
namespace grid {
struct Slot { double v; int i; };
struct Axis { std::vector<std::shared_ptr<Slot>> s;
  Slot* add(double v) { size_t lo = 0, hi = s.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s[m]->v - v <= sx_tol(1e-6) && v - s[m]->v <= sx_tol(1e-6)) return s[m].get(); if (s[m]->v < v) lo = m + 1; else hi = m; } s.insert(s.begin() + lo, std::make_shared<Slot>(Slot{v, 0})); return s[lo].get(); }
  void number() { for (size_t i = 0; i < s.size(); i++) s[i]->i = (int)i; }
  double at(int i) const { return s[i]->v; } int n() const { return (int)s.size(); } };
struct V { Slot *x, *y; };
typedef std::vector<V> Loop; typedef std::vector<Loop> PolyV; typedef std::vector<PolyV> Multi;
inline Loop loop(const OGRLineString* r, Axis& X, Axis& Y) { Loop l; for (int i = 0; i < r->getNumPoints(); i++) l.push_back({X.add(r->getX(i)), Y.add(r->getY(i))}); return l; }
inline void load(const OGRGeometry* g, Axis& X, Axis& Y, Multi& m) {
  auto t = wkbFlatten(g->getGeometryType());
  if (t == wkbPolygon) { auto* p = static_cast<const OGRPolygon*>(g); if (p->IsEmpty()) return; PolyV v; v.push_back(loop(p->getExteriorRing(), X, Y)); for (int i = 0; i < p->getNumInteriorRings(); i++) v.push_back(loop(p->getInteriorRing(i), X, Y)); m.push_back(v); }
  else if (t == wkbMultiPolygon || t == wkbGeometryCollection) { auto* c = static_cast<const OGRGeometryCollection*>(g); for (int i = 0; i < c->getNumGeometries(); i++) load(c->getGeometryRef(i), X, Y, m); }
  else sx_unmodelled("a polygon is expected");
}
struct Cover { int w, h; std::vector<char> c; char& at(int i, int j) { return c[i * h + j]; } bool get(int i, int j) const { return i >= 0 && j >= 0 && i < w && j < h && c[i * h + j]; } };
inline Cover cover(const Multi& m, const Axis& X, const Axis& Y) {
  Cover r{X.n() - 1 < 0 ? 0 : X.n() - 1, Y.n() - 1 < 0 ? 0 : Y.n() - 1, {}}; r.c.assign((size_t)r.w * r.h, 0);
  for (auto& p : m) { std::vector<char> in((size_t)r.w * r.h, 0);
    for (auto& l : p) for (size_t k = 0; k + 1 < l.size(); k++) { int xa = l[k].x->i, xb = l[k + 1].x->i, ya = l[k].y->i, yb = l[k + 1].y->i; if (xa != xb && ya != yb) sx_unmodelled("edges along the axes are expected"); if (xa != xb) continue; for (int j = std::min(ya, yb); j < std::max(ya, yb); j++) for (int i = xa; i < r.w; i++) in[i * r.h + j] ^= 1; }
    for (size_t k = 0; k < in.size(); k++) r.c[k] |= in[k]; }
  return r;
}
// the polygons of a set of grid cells: parts are joined along edges only
inline OGRGeometry* outline(const Cover& c, const Axis& X, const Axis& Y) {
  int W = c.w, H = c.h; std::vector<int> part((size_t)W * H, -1); int parts = 0;
  for (int i = 0; i < W; i++) for (int j = 0; j < H; j++) if (c.get(i, j) && part[i * H + j] < 0) { std::vector<std::pair<int, int>> st{{i, j}}; part[i * H + j] = parts; while (!st.empty()) { auto [a, b] = st.back(); st.pop_back(); int d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}}; for (auto& e : d) { int p = a + e[0], q = b + e[1]; if (c.get(p, q) && part[p * H + q] < 0) { part[p * H + q] = parts; st.push_back({p, q}); } } } parts++; }
  auto* out = new OGRMultiPolygon();
  for (int k = 0; k < parts; k++) {
    auto in = [&](int i, int j) { return i >= 0 && j >= 0 && i < W && j < H && part[i * H + j] == k; };
    // directed border edges, the inside on the left; direction 0 east 1 north 2 west 3 south
    auto has = [&](int i, int j, int d) { switch (d) { case 0: return in(i, j) && !in(i, j - 1); case 1: return in(i - 1, j) && !in(i, j); case 2: return in(i - 1, j - 1) && !in(i - 1, j); default: return in(i, j - 1) && !in(i - 1, j - 1); } };
    std::vector<char> used((size_t)(W + 1) * (H + 1) * 4, 0); static const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
    auto u = [&](int i, int j, int d) -> char& { return used[(i * (H + 1) + j) * 4 + d]; }; std::vector<std::vector<std::pair<int, int>>> loops; std::vector<long> areas;
    for (int i = 0; i <= W; i++) for (int j = 0; j <= H; j++) for (int d = 0; d < 4; d++) if (has(i, j, d) && !u(i, j, d)) {
      std::vector<std::pair<int, int>> l; int x = i, y = j, e = d, prev = -1; long area = 0;
      do { u(x, y, e) = 1; if (e != prev) l.push_back({x, y}); prev = e; area += (long)x * (y + dy[e]) - (long)(x + dx[e]) * y; x += dx[e]; y += dy[e]; int t[] = {(e + 3) % 4, e, (e + 1) % 4}, nx = -1;
        // at a corner two cells share, the border turns right around a hole, left around the part: keep to the same side
        int l4[] = {t[2], t[1], t[0]}; for (int q : l4) if (has(x, y, q) && !u(x, y, q)) { nx = q; break; } if (nx < 0) break; e = nx; } while (!(x == i && y == j && e == d));
      if (l.size() > 1 && prev == d) l.erase(l.begin()); loops.push_back(l); areas.push_back(area); }
    auto* p = new OGRPolygon(); auto put = [&](const std::vector<std::pair<int, int>>& l) { OGRLinearRing r; for (size_t q = 0; q <= l.size(); q++) { auto& v = l[q % l.size()]; r.addPoint(X.at(v.first), Y.at(v.second), 0.0); } p->addRing(&r); };
    for (size_t q = 0; q < loops.size(); q++) if (areas[q] > 0) put(loops[q]); for (size_t q = 0; q < loops.size(); q++) if (areas[q] < 0) put(loops[q]);
    out->addGeometryDirectly(p);
  }
  if (out->getNumGeometries() == 1) { auto* one = out->getGeometryRef(0)->clone(); delete out; return one; } return out;
}
inline OGRGeometry* combine(const OGRGeometry* a, const OGRGeometry* b, int op) {
  Axis X, Y; Multi ma, mb; load(a, X, Y, ma); load(b, X, Y, mb); X.number(); Y.number(); Cover ca = cover(ma, X, Y), cb = cover(mb, X, Y), r = ca;
  for (size_t i = 0; i < r.c.size(); i++) r.c[i] = op == 0 ? ca.c[i] && cb.c[i] : op == 1 ? ca.c[i] && !cb.c[i] : ca.c[i] || cb.c[i]; return outline(r, X, Y);
}
inline OGRGeometry* difference(const OGRGeometry* a, const OGRGeometry* b) { return combine(a, b, 1); }
inline OGRGeometry* unionop(const OGRGeometry* a, const OGRGeometry* b) { return combine(a, b, 2); }
// every edge of a ring moves outwards (d > 0) by d; corners stay square. The ring may not change shape.
inline void offsetRing(const OGRLinearRing* r, double d, OGRLinearRing& out) {
  std::vector<Point> p; int n = r->getNumPoints() - 1; for (int i = 0; i < n; i++) p.push_back(Point(r->getX(i), r->getY(i))); double a = 0; for (int i = 0; i < n; i++) { auto &s = p[i], &t = p[(i + 1) % n]; a += s.getX() * t.getY() - t.getX() * s.getY(); }
  double side = a > 0 ? 1 : -1; std::vector<Point> q;
  for (int i = 0; i < n; i++) { double x = p[i].getX(), y = p[i].getY(); for (int k : {i, (i + n - 1) % n}) { auto &s = p[k], &t = p[(k + 1) % n]; double ex = t.getX() - s.getX(), ey = t.getY() - s.getY(); if (ex == 0) x += (ey > 0 ? d : -d) * side; else if (ey == 0) y += (ex > 0 ? -d : d) * side; else sx_unmodelled("edges along the axes are expected"); } q.push_back(Point(x, y)); }
  for (int i = 0; i <= n; i++) out.addPoint(q[i % n].getX(), q[i % n].getY(), 0.0);
}
inline OGRPolygon* strip(const OGRLineString* l, double d) { // flat ends
  if (l->getNumPoints() != 2) sx_unmodelled("lines of two points are expected"); double xa = std::fmin(l->getX(0), l->getX(1)), xb = std::fmax(l->getX(0), l->getX(1)), ya = std::fmin(l->getY(0), l->getY(1)), yb = std::fmax(l->getY(0), l->getY(1));
  if (xa == xb) { xa -= d; xb += d; } else if (ya == yb) { ya -= d; yb += d; } else sx_unmodelled("lines along the axes are expected");
  OGRLinearRing r; r.addPoint(xa, ya, 0.0); r.addPoint(xb, ya, 0.0); r.addPoint(xb, yb, 0.0); r.addPoint(xa, yb, 0.0); r.addPoint(xa, ya, 0.0); auto* p = new OGRPolygon(); p->addRing(&r); return p; }
inline OGRGeometry* buffer(const OGRGeometry* g, double d) {
  auto t = wkbFlatten(g->getGeometryType());
  if (t == wkbLineString) { if (g->IsEmpty()) return new OGRPolygon(); return strip(static_cast<const OGRLineString*>(g), d); }
  auto one = [&](const OGRPolygon* p) { auto* o = new OGRPolygon(); if (p->IsEmpty()) return o; OGRLinearRing e; offsetRing(p->getExteriorRing(), d, e); o->addRing(&e); for (int i = 0; i < p->getNumInteriorRings(); i++) { OGRLinearRing h; offsetRing(p->getInteriorRing(i), -d, h); o->addRing(&h); } return o; };
  if (t == wkbPolygon) return one(static_cast<const OGRPolygon*>(g));
  if (t == wkbMultiPolygon) { auto* m = new OGRMultiPolygon(); auto* c = static_cast<const OGRMultiPolygon*>(g); for (int i = 0; i < c->getNumGeometries(); i++) m->addGeometryDirectly(one(static_cast<const OGRPolygon*>(c->getGeometryRef(i)))); return m; }
  sx_unmodelled("buffer of this type"); return nullptr;
}
inline OGRGeometry* intersection(const OGRGeometry* a, const OGRGeometry* b) { auto poly = [](const OGRGeometry* g) { auto t = wkbFlatten(g->getGeometryType()); return t == wkbPolygon || t == wkbMultiPolygon; }; return poly(a) && poly(b) ? combine(a, b, 0) : nullptr; } // lines: the model's own clipping
#ifdef SX_GDAL
inline void install() {} // the real library
#else
inline void install() { mdl::hooks.intersection = intersection; mdl::hooks.difference = difference; mdl::hooks.unionop = unionop; mdl::hooks.buffer = buffer; }
#endif
}
