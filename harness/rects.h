#pragma once
// Exact polygon arithmetic for unions of axis-aligned rectangles: the contract the harnesses put in place of GEOS.
#include "geo.h"
#include "ogr_model.h"
namespace rects {
struct R { double x0, y0, x1, y1; };
inline OGRPolygon* poly(const R& r) { auto* g = new OGRPolygon(); OGRLinearRing l; l.addPoint(r.x0, r.y0, 0); l.addPoint(r.x1, r.y0, 0); l.addPoint(r.x1, r.y1, 0); l.addPoint(r.x0, r.y1, 0); l.addPoint(r.x0, r.y0, 0); g->addRing(&l); return g; }
inline OGRGeometry* geom(const std::vector<R>& v) { auto* m = new OGRMultiPolygon(); for (auto& r : v) m->addGeometryDirectly(poly(r)); return m; }
inline void list(const OGRGeometry* g, std::vector<R>& v) {
  auto t = wkbFlatten(g->getGeometryType());
  if (t == wkbPolygon) { auto* r = static_cast<const OGRPolygon*>(g)->getExteriorRing(); if (r && r->getNumPoints() >= 4) v.push_back({r->getX(0), r->getY(0), r->getX(2), r->getY(2)}); }
  else if (t == wkbMultiPolygon) { auto* m = static_cast<const OGRMultiPolygon*>(g); for (int i = 0; i < m->getNumGeometries(); i++) list(m->getGeometryRef(i), v); }
  else sx_unmodelled("rectangles expected");
}
inline std::vector<R> list(const OGRGeometry* g) { std::vector<R> v; list(g, v); return v; }
inline std::vector<R> meet(const std::vector<R>& a, const std::vector<R>& b) { std::vector<R> o; for (auto& p : a) for (auto& q : b) { double x0 = std::fmax(p.x0, q.x0), x1 = std::fmin(p.x1, q.x1), y0 = std::fmax(p.y0, q.y0), y1 = std::fmin(p.y1, q.y1); if (x0 < x1 && y0 < y1) o.push_back({x0, y0, x1, y1}); } return o; }
inline OGRGeometry* intersection(const OGRGeometry* a, const OGRGeometry* b) { return geom(meet(list(a), list(b))); }
inline bool intersects(const OGRGeometry* a, const OGRGeometry* b) { for (auto& p : list(a)) for (auto& q : list(b)) if (std::fmax(p.x0, q.x0) <= std::fmin(p.x1, q.x1) && std::fmax(p.y0, q.y0) <= std::fmin(p.y1, q.y1)) return true; return false; }
// strips of vertical lines that share their extent in y; flat ends
inline OGRGeometry* buffer(const OGRGeometry* g, double d) {
  std::vector<R> v; auto one = [&](const OGRLineString* l) { if (l->getNumPoints() != 2) sx_unmodelled("lines of two points expected"); double ya = l->getY(0), yb = l->getY(1); v.push_back({l->getX(0) - d, std::fmin(ya, yb), l->getX(0) + d, std::fmax(ya, yb)}); };
  if (wkbFlatten(g->getGeometryType()) == wkbLineString) one(static_cast<const OGRLineString*>(g));
  else if (wkbFlatten(g->getGeometryType()) == wkbMultiLineString) { auto* m = static_cast<const OGRMultiLineString*>(g); for (int i = 0; i < m->getNumGeometries(); i++) one(static_cast<const OGRLineString*>(m->getGeometryRef(i))); }
  else sx_unmodelled("lines expected");
  for (bool again = true; again;) { again = false; for (size_t i = 0; i < v.size() && !again; i++) for (size_t k = i + 1; k < v.size() && !again; k++) if (std::fmax(v[i].x0, v[k].x0) <= std::fmin(v[i].x1, v[k].x1)) { v[i].x0 = std::fmin(v[i].x0, v[k].x0); v[i].x1 = std::fmax(v[i].x1, v[k].x1); v.erase(v.begin() + k); again = true; } }
  return geom(v);
}
inline OGRGeometry* difference(const OGRGeometry* a, const OGRGeometry* b) {  // b lies inside a
  auto va = list(a), vb = list(b); auto* m = new OGRMultiPolygon();
  for (auto& p : va) { auto* g = poly(p); for (auto& q : vb) if (p.x0 < q.x1 && q.x0 < p.x1 && p.y0 < q.y1 && q.y0 < p.y1) { auto* h = poly(q); g->addRing(h->getExteriorRing()); delete h; } m->addGeometryDirectly(g); }
  return m;
}
inline void install() { mdl::hooks.intersection = intersection; mdl::hooks.intersects = intersects; mdl::hooks.buffer = buffer; mdl::hooks.difference = difference; }
inline LinearRing ring(double x0, double y0, double x1, double y1) { return LinearRing({Point(x0, y0), Point(x1, y0), Point(x1, y1), Point(x0, y1), Point(x0, y0)}); }
inline Cell cell(double x0, double y0, double x1, double y1) { return Cell(ring(x0, y0, x1, y1)); }
}
