#include "ogr_model.h"
#include <geos_c.h>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
#include <limits>
namespace mdl { Hooks hooks; void unmodelled(const char* w) { sx_unmodelled(w); abort(); } }
using mdl::unmodelled; using mdl::hooks;
// ---- base
OGRGeometry::OGRGeometry() = default;
OGRGeometry::OGRGeometry(const OGRGeometry& o) : poSRS(nullptr), flags(o.flags) {}
OGRGeometry::~OGRGeometry() = default;
OGRGeometry& OGRGeometry::operator=(const OGRGeometry& o) { flags = o.flags; return *this; }
void OGRGeometry::assignSpatialReference(const OGRSpatialReference*) {}
OGRBoolean OGRGeometry::hasCurveGeometry(int) const { return FALSE; }
OGRGeometry* OGRGeometry::getCurveGeometry(const char* const*) const { return clone(); }
void OGRGeometry::set3D(OGRBoolean b) { if (b) flags |= OGR_G_3D; else flags &= ~OGR_G_3D; }
void OGRGeometry::closeRings() {}
OGRwkbGeometryType OGR_GT_Flatten(OGRwkbGeometryType t) { return static_cast<OGRwkbGeometryType>(static_cast<unsigned>(t) & 0xffu); }
static OGRwkbGeometryType F(const OGRGeometry* g) { return OGR_GT_Flatten(g->getGeometryType()); }
// ---- point
OGRPoint::OGRPoint() : x(0), y(0), z(0), m(0) { flags = 0; }
OGRPoint::OGRPoint(double a, double b) : x(a), y(b), z(0), m(0) { flags = OGR_G_NOT_EMPTY_POINT; }
OGRPoint::OGRPoint(double a, double b, double c) : x(a), y(b), z(c), m(0) { flags = OGR_G_NOT_EMPTY_POINT | OGR_G_3D; }
OGRPoint::OGRPoint(const OGRPoint& o) : OGRGeometry(o), x(o.x), y(o.y), z(o.z), m(o.m) {}
OGRPoint::~OGRPoint() = default;
OGRPoint& OGRPoint::operator=(const OGRPoint& o) { flags = o.flags; x = o.x; y = o.y; z = o.z; m = o.m; return *this; }
OGRPoint* OGRPoint::clone() const { return new OGRPoint(*this); }
void OGRPoint::empty() { x = y = z = m = 0; flags &= ~OGR_G_NOT_EMPTY_POINT; }
int OGRPoint::getDimension() const { return 0; }
OGRwkbGeometryType OGRPoint::getGeometryType() const { return (flags & OGR_G_3D) ? wkbPoint25D : wkbPoint; }
void OGRPoint::getEnvelope(OGREnvelope* e) const { e->MinX = x; e->MaxX = x; e->MinY = y; e->MaxY = y; }
OGRBoolean OGRPoint::Equals(const OGRGeometry* o) const {
  if (o == this) return TRUE;
  if (!o || F(o) != wkbPoint) return FALSE;
  auto* p = static_cast<const OGRPoint*>(o);
  if (IsEmpty() && p->IsEmpty()) return TRUE;
  if (IsEmpty() || p->IsEmpty()) return FALSE;
  return p->x == x && p->y == y && p->z == z;
}
OGRErr OGRPoint::transform(OGRCoordinateTransformation* ct) {
  double X = x, Y = y, Z = z;
  if (ct->Transform(1, &X, &Y, &Z)) { x = X; y = Y; z = Z; return OGRERR_NONE; }
  return OGRERR_FAILURE;
}
// ---- simple curve
OGRSimpleCurve::OGRSimpleCurve() : nPointCount(0), paoPoints(nullptr), padfZ(nullptr), padfM(nullptr) {}
OGRSimpleCurve::OGRSimpleCurve(const OGRSimpleCurve& o) : OGRCurve(o), nPointCount(0), paoPoints(nullptr), padfZ(nullptr), padfM(nullptr) {
  nPointCount = o.nPointCount; m_nPointCapacity = nPointCount;
  if (nPointCount) { paoPoints = (OGRRawPoint*)malloc(sizeof(OGRRawPoint) * nPointCount); for (int i = 0; i < nPointCount; i++) paoPoints[i] = o.paoPoints[i];
    if (o.padfZ) { padfZ = (double*)malloc(sizeof(double) * nPointCount); for (int i = 0; i < nPointCount; i++) padfZ[i] = o.padfZ[i]; } } }
OGRSimpleCurve::~OGRSimpleCurve() { free(paoPoints); free(padfZ); }
OGRSimpleCurve& OGRSimpleCurve::operator=(const OGRSimpleCurve& o) { if (this != &o) { empty(); flags = o.flags; for (int i = 0; i < o.nPointCount; i++) { if (o.padfZ) setPoint(i, o.paoPoints[i].x, o.paoPoints[i].y, o.padfZ[i]); else setPoint(i, o.paoPoints[i].x, o.paoPoints[i].y); } } return *this; }
void OGRSimpleCurve::empty() { free(paoPoints); free(padfZ); paoPoints = nullptr; padfZ = nullptr; nPointCount = 0; m_nPointCapacity = 0; }
OGRBoolean OGRSimpleCurve::IsEmpty() const { return nPointCount == 0; }
void OGRSimpleCurve::Make3D() { if (!padfZ) { padfZ = (double*)calloc(std::max(1, m_nPointCapacity), sizeof(double)); } flags |= OGR_G_3D; }
void OGRSimpleCurve::setNumPoints(int n, int) {
  if (n > nPointCount) {
    if (n > m_nPointCapacity) {
      int cap = n; 
      OGRRawPoint* np = (OGRRawPoint*)malloc(sizeof(OGRRawPoint) * cap); for (int i = 0; i < nPointCount; i++) np[i] = paoPoints[i];
      free(paoPoints); paoPoints = np;
      if (flags & OGR_G_3D) { double* nz = (double*)malloc(sizeof(double) * cap); for (int i = 0; i < nPointCount; i++) nz[i] = padfZ[i]; free(padfZ); padfZ = nz; }
      m_nPointCapacity = cap;
    }
    for (int i = nPointCount; i < n; i++) { paoPoints[i].x = 0; paoPoints[i].y = 0; if (padfZ) padfZ[i] = 0; }
  }
  nPointCount = n;
}
void OGRSimpleCurve::setPoint(int i, double x, double y) { if (i < 0) return; if (i >= nPointCount) setNumPoints(i + 1); paoPoints[i].x = x; paoPoints[i].y = y; }
void OGRSimpleCurve::setPoint(int i, double x, double y, double z) { if (i < 0) return; if (!(flags & OGR_G_3D)) Make3D(); if (i >= nPointCount) setNumPoints(i + 1); paoPoints[i].x = x; paoPoints[i].y = y; if (padfZ) padfZ[i] = z; }
void OGRSimpleCurve::addPoint(double x, double y, double z) { setPoint(nPointCount, x, y, z); }
void OGRSimpleCurve::addPoint(double x, double y) { setPoint(nPointCount, x, y); }
double OGRSimpleCurve::getZ(int i) const { return (padfZ && i >= 0 && i < nPointCount && (flags & OGR_G_3D)) ? padfZ[i] : 0.0; }
void OGRSimpleCurve::getPoint(int i, OGRPoint* p) const { p->setX(paoPoints[i].x); p->setY(paoPoints[i].y); if ((flags & OGR_G_3D) && padfZ) p->setZ(padfZ[i]); }
void OGRSimpleCurve::reversePoints() { for (int i = 0; i < nPointCount / 2; i++) { std::swap(paoPoints[i], paoPoints[nPointCount - 1 - i]); if (padfZ) std::swap(padfZ[i], padfZ[nPointCount - 1 - i]); } }
double OGRSimpleCurve::get_Length() const { double l = 0; for (int i = 0; i + 1 < nPointCount; i++) { double dx = paoPoints[i + 1].x - paoPoints[i].x, dy = paoPoints[i + 1].y - paoPoints[i].y; l += sqrt(dx * dx + dy * dy); } return l; }
double OGRSimpleCurve::get_LinearArea() const { double a = 0; for (int i = 0; i < nPointCount; i++) { int j = i + 1 == nPointCount ? 0 : i + 1; a += paoPoints[i].x * paoPoints[j].y - paoPoints[j].x * paoPoints[i].y; } return fabs(a) * 0.5; }
void OGRSimpleCurve::getEnvelope(OGREnvelope* e) const {
  if (IsEmpty()) { e->MinX = e->MaxX = e->MinY = e->MaxY = 0; return; }
  double a = paoPoints[0].x, b = a, c = paoPoints[0].y, d = c;
  for (int i = 1; i < nPointCount; i++) { double x = paoPoints[i].x, y = paoPoints[i].y; if (x > b) b = x; if (x < a) a = x; if (y > d) d = y; if (y < c) c = y; }
  e->MinX = a; e->MaxX = b; e->MinY = c; e->MaxY = d;
}
OGRBoolean OGRSimpleCurve::Equals(const OGRGeometry* o) const {
  if (o == this) return TRUE;
  if (!o || o->getGeometryType() != getGeometryType()) return FALSE;
  if (IsEmpty() && o->IsEmpty()) return TRUE;
  auto* c = static_cast<const OGRSimpleCurve*>(o);
  if (c->nPointCount != nPointCount) return FALSE;
  for (int i = 0; i < nPointCount; i++) if (paoPoints[i].x != c->paoPoints[i].x || paoPoints[i].y != c->paoPoints[i].y || getZ(i) != c->getZ(i)) return FALSE;
  return TRUE;
}
OGRErr OGRSimpleCurve::transform(OGRCoordinateTransformation* ct) {
  for (int i = 0; i < nPointCount; i++) { double x = paoPoints[i].x, y = paoPoints[i].y, z = getZ(i); if (!ct->Transform(1, &x, &y, &z)) return OGRERR_FAILURE; paoPoints[i].x = x; paoPoints[i].y = y; if (padfZ) padfZ[i] = z; }
  return OGRERR_NONE;
}
int OGRCurve::get_IsClosed() const {
  auto* c = static_cast<const OGRSimpleCurve*>(this); if (c->IsEmpty()) return FALSE;
  int n = c->getNumPoints();
  return c->getX(0) == c->getX(n - 1) && c->getY(0) == c->getY(n - 1) && c->getZ(0) == c->getZ(n - 1);
}
int OGRCurve::getDimension() const { return 1; }
OGRCurve::OGRCurve() = default; OGRCurve::OGRCurve(const OGRCurve&) = default; OGRCurve::~OGRCurve() = default;
OGRLineString::OGRLineString() = default;
OGRLineString::OGRLineString(const OGRLineString&) = default;
OGRLineString::~OGRLineString() = default;
OGRLineString& OGRLineString::operator=(const OGRLineString& o) { OGRSimpleCurve::operator=(o); return *this; }
OGRLineString* OGRLineString::clone() const { return new OGRLineString(*this); }
OGRwkbGeometryType OGRLineString::getGeometryType() const { return (flags & OGR_G_3D) ? wkbLineString25D : wkbLineString; }
double OGRLineString::get_Area() const { if (IsEmpty() || !get_IsClosed()) return 0; return get_LinearArea(); }
int OGRLineString::isClockwise() const { if (nPointCount < 2) return TRUE; double a = 0; for (int i = 0; i < nPointCount; i++) { int j = i + 1 == nPointCount ? 0 : i + 1; a += paoPoints[i].x * paoPoints[j].y - paoPoints[j].x * paoPoints[i].y; } return a < 0; }
OGRLinearRing::OGRLinearRing() = default;
OGRLinearRing::OGRLinearRing(const OGRLinearRing&) = default;
OGRLinearRing::~OGRLinearRing() = default;
OGRLinearRing& OGRLinearRing::operator=(const OGRLinearRing& o) { OGRLineString::operator=(o); return *this; }
OGRLinearRing* OGRLinearRing::clone() const { return new OGRLinearRing(*this); }
void OGRLinearRing::closeRings() { if (nPointCount < 2) return; if (!get_IsClosed()) addPoint(paoPoints[0].x, paoPoints[0].y, getZ(0)); }
OGRErr OGRLinearRing::transform(OGRCoordinateTransformation* ct) { return OGRSimpleCurve::transform(ct); }
// ---- polygon
OGRCurveCollection::OGRCurveCollection() = default;
OGRCurveCollection::~OGRCurveCollection() { for (int i = 0; i < nCurveCount; i++) delete papoCurves[i]; free(papoCurves); }
OGRErr OGRCurveCollection::addCurveDirectly(OGRGeometry*, OGRCurve* c, int) {
  OGRCurve** n = (OGRCurve**)malloc(sizeof(OGRCurve*) * (nCurveCount + 1)); for (int i = 0; i < nCurveCount; i++) n[i] = papoCurves[i]; free(papoCurves); papoCurves = n; papoCurves[nCurveCount++] = c; return OGRERR_NONE; }
OGRCurveCollection::OGRCurveCollection(const OGRCurveCollection& o) { for (int i = 0; i < o.nCurveCount; i++) addCurveDirectly(nullptr, o.papoCurves[i]->clone(), 1); }
OGRCurveCollection& OGRCurveCollection::operator=(const OGRCurveCollection& o) { if (this != &o) { for (int i = 0; i < nCurveCount; i++) delete papoCurves[i]; nCurveCount = 0; for (int i = 0; i < o.nCurveCount; i++) addCurveDirectly(nullptr, o.papoCurves[i]->clone(), 1); } return *this; }
OGRCurvePolygon::OGRCurvePolygon() = default;
OGRCurvePolygon::OGRCurvePolygon(const OGRCurvePolygon& o) : OGRSurface(o), oCC(o.oCC) {}
OGRCurvePolygon::~OGRCurvePolygon() = default;
OGRCurvePolygon& OGRCurvePolygon::operator=(const OGRCurvePolygon& o) { flags = o.flags; oCC = o.oCC; return *this; }
void OGRCurvePolygon::empty() { oCC = OGRCurveCollection(); }
OGRBoolean OGRCurvePolygon::IsEmpty() const { for (int i = 0; i < oCC.nCurveCount; i++) if (!oCC.papoCurves[i]->IsEmpty()) return FALSE; return TRUE; }
int OGRCurvePolygon::getNumInteriorRings() const { return oCC.nCurveCount > 0 ? oCC.nCurveCount - 1 : 0; }
OGRErr OGRCurvePolygon::addRing(OGRCurve* c) { return addRingDirectly(c->clone()); }
OGRErr OGRCurvePolygon::addRingDirectly(OGRCurve* c) { return oCC.addCurveDirectly(this, c, 1); }
double OGRCurvePolygon::get_Area() const {
  if (hooks.area) { double a = hooks.area(this); if (a >= 0) return a; }
  double a = 0; for (int i = 0; i < oCC.nCurveCount; i++) { double r = oCC.papoCurves[i]->get_Area(); if (i == 0) a += r; else a -= r; } return a; }
void OGRCurvePolygon::getEnvelope(OGREnvelope* e) const { e->MinX = e->MaxX = e->MinY = e->MaxY = 0; if (oCC.nCurveCount) oCC.papoCurves[0]->getEnvelope(e); for (int i = 1; i < oCC.nCurveCount; i++) { OGREnvelope f; oCC.papoCurves[i]->getEnvelope(&f); if (oCC.papoCurves[i]->IsEmpty()) continue; if (f.MinX < e->MinX) e->MinX = f.MinX; if (f.MaxX > e->MaxX) e->MaxX = f.MaxX; if (f.MinY < e->MinY) e->MinY = f.MinY; if (f.MaxY > e->MaxY) e->MaxY = f.MaxY; } }
OGRErr OGRCurvePolygon::transform(OGRCoordinateTransformation* ct) { for (int i = 0; i < oCC.nCurveCount; i++) if (oCC.papoCurves[i]->transform(ct) != OGRERR_NONE) return OGRERR_FAILURE; return OGRERR_NONE; }
int OGRCurvePolygon::getDimension() const { return 2; }
OGRBoolean OGRCurvePolygon::Equals(const OGRGeometry* o) const {
  if (o == this) return TRUE; if (!o || F(o) != F(this)) return FALSE;
  if (IsEmpty() && o->IsEmpty()) return TRUE;
  auto* p = static_cast<const OGRCurvePolygon*>(o); if (p->oCC.nCurveCount != oCC.nCurveCount) return FALSE;
  for (int i = 0; i < oCC.nCurveCount; i++) if (!oCC.papoCurves[i]->Equals(p->oCC.papoCurves[i])) return FALSE; return TRUE; }
OGRPolygon::OGRPolygon() = default; OGRPolygon::OGRPolygon(const OGRPolygon&) = default; OGRPolygon::~OGRPolygon() = default;
OGRPolygon& OGRPolygon::operator=(const OGRPolygon& o) { OGRCurvePolygon::operator=(o); return *this; }
OGRPolygon* OGRPolygon::clone() const { return new OGRPolygon(*this); }
OGRwkbGeometryType OGRPolygon::getGeometryType() const { return (flags & OGR_G_3D) ? wkbPolygon25D : wkbPolygon; }
OGRBoolean OGRPolygon::hasCurveGeometry(int) const { return FALSE; }
OGRLinearRing* OGRPolygon::getExteriorRing() { return oCC.nCurveCount > 0 ? static_cast<OGRLinearRing*>(oCC.papoCurves[0]) : nullptr; }
const OGRLinearRing* OGRPolygon::getExteriorRing() const { return oCC.nCurveCount > 0 ? static_cast<const OGRLinearRing*>(oCC.papoCurves[0]) : nullptr; }
OGRLinearRing* OGRPolygon::getInteriorRing(int i) { return (i < 0 || i >= oCC.nCurveCount - 1) ? nullptr : static_cast<OGRLinearRing*>(oCC.papoCurves[i + 1]); }
const OGRLinearRing* OGRPolygon::getInteriorRing(int i) const { return (i < 0 || i >= oCC.nCurveCount - 1) ? nullptr : static_cast<const OGRLinearRing*>(oCC.papoCurves[i + 1]); }
void OGRPolygon::closeRings() { for (int i = 0; i < oCC.nCurveCount; i++) oCC.papoCurves[i]->closeRings(); }
// ---- collections
OGRGeometryCollection::OGRGeometryCollection() = default;
OGRGeometryCollection::OGRGeometryCollection(const OGRGeometryCollection& o) : OGRGeometry(o) { for (int i = 0; i < o.nGeomCount; i++) { OGRGeometry** n = (OGRGeometry**)malloc(sizeof(void*) * (nGeomCount + 1)); for (int k = 0; k < nGeomCount; k++) n[k] = papoGeoms[k]; free(papoGeoms); papoGeoms = n; papoGeoms[nGeomCount++] = o.papoGeoms[i]->clone(); } }
OGRGeometryCollection::~OGRGeometryCollection() { for (int i = 0; i < nGeomCount; i++) delete papoGeoms[i]; free(papoGeoms); }
OGRGeometryCollection& OGRGeometryCollection::operator=(const OGRGeometryCollection& o) { if (this != &o) { empty(); flags = o.flags; for (int i = 0; i < o.nGeomCount; i++) addGeometry(o.papoGeoms[i]); } return *this; }
void OGRGeometryCollection::empty() { for (int i = 0; i < nGeomCount; i++) delete papoGeoms[i]; nGeomCount = 0; }
OGRBoolean OGRGeometryCollection::IsEmpty() const { for (int i = 0; i < nGeomCount; i++) if (!papoGeoms[i]->IsEmpty()) return FALSE; return TRUE; }
int OGRGeometryCollection::getNumGeometries() const { return nGeomCount; }
OGRGeometry* OGRGeometryCollection::getGeometryRef(int i) { return (i < 0 || i >= nGeomCount) ? nullptr : papoGeoms[i]; }
const OGRGeometry* OGRGeometryCollection::getGeometryRef(int i) const { return (i < 0 || i >= nGeomCount) ? nullptr : papoGeoms[i]; }
OGRErr OGRGeometryCollection::addGeometry(const OGRGeometry* g) { return isCompatibleSubType(g->getGeometryType()) ? addGeometryDirectly(g->clone()) : OGRERR_UNSUPPORTED_GEOMETRY_TYPE; }
OGRErr OGRGeometryCollection::addGeometryDirectly(OGRGeometry* g) { if (!isCompatibleSubType(g->getGeometryType())) return OGRERR_UNSUPPORTED_GEOMETRY_TYPE; OGRGeometry** n = (OGRGeometry**)malloc(sizeof(void*) * (nGeomCount + 1)); for (int i = 0; i < nGeomCount; i++) n[i] = papoGeoms[i]; free(papoGeoms); papoGeoms = n; papoGeoms[nGeomCount++] = g; return OGRERR_NONE; }
double OGRGeometryCollection::get_Length() const { double l = 0; for (int i = 0; i < nGeomCount; i++) { auto t = F(papoGeoms[i]); if (t == wkbLineString) l += static_cast<OGRCurve*>(papoGeoms[i])->get_Length(); } return l; }
double OGRGeometryCollection::get_Area() const { if (hooks.area) { double a = hooks.area(this); if (a >= 0) return a; } double l = 0; for (int i = 0; i < nGeomCount; i++) { auto t = F(papoGeoms[i]); if (t == wkbPolygon) l += static_cast<OGRSurface*>(papoGeoms[i])->get_Area(); else if (t == wkbLineString) l += static_cast<OGRCurve*>(papoGeoms[i])->get_Area(); } return l; }
void OGRGeometryCollection::getEnvelope(OGREnvelope* e) const { bool ok = false; e->MinX = e->MaxX = e->MinY = e->MaxY = 0; for (int i = 0; i < nGeomCount; i++) { if (papoGeoms[i]->IsEmpty()) continue; OGREnvelope f; papoGeoms[i]->getEnvelope(&f); if (!ok) { *e = f; ok = true; continue; } if (f.MinX < e->MinX) e->MinX = f.MinX; if (f.MaxX > e->MaxX) e->MaxX = f.MaxX; if (f.MinY < e->MinY) e->MinY = f.MinY; if (f.MaxY > e->MaxY) e->MaxY = f.MaxY; } }
OGRErr OGRGeometryCollection::transform(OGRCoordinateTransformation* ct) { for (int i = 0; i < nGeomCount; i++) if (papoGeoms[i]->transform(ct) != OGRERR_NONE) return OGRERR_FAILURE; return OGRERR_NONE; }
int OGRGeometryCollection::getDimension() const { int d = 0; for (int i = 0; i < nGeomCount; i++) d = std::max(d, papoGeoms[i]->getDimension()); return d; }
OGRBoolean OGRGeometryCollection::Equals(const OGRGeometry* o) const {
  if (o == this) return TRUE; if (!o || o->getGeometryType() != getGeometryType()) return FALSE;
  if (IsEmpty() && o->IsEmpty()) return TRUE;
  auto* p = static_cast<const OGRGeometryCollection*>(o); if (p->nGeomCount != nGeomCount) return FALSE;
  for (int i = 0; i < nGeomCount; i++) if (!papoGeoms[i]->Equals(p->papoGeoms[i])) return FALSE; return TRUE; }
OGRGeometryCollection* OGRGeometryCollection::clone() const { return new OGRGeometryCollection(*this); }
OGRBoolean OGRGeometryCollection::hasCurveGeometry(int) const { return FALSE; }
void OGRGeometryCollection::assignSpatialReference(const OGRSpatialReference*) {}
void OGRGeometryCollection::closeRings() { for (int i = 0; i < nGeomCount; i++) papoGeoms[i]->closeRings(); }
OGRBoolean OGRGeometryCollection::isCompatibleSubType(OGRwkbGeometryType) const { return TRUE; }
OGRwkbGeometryType OGRGeometryCollection::getGeometryType() const { return wkbGeometryCollection; }
void OGRCurvePolygon::assignSpatialReference(const OGRSpatialReference*) {}
#define COLL(C, B, T, S) C::C() = default; C::C(const C&) = default; C::~C() = default; C& C::operator=(const C& o) { OGRGeometryCollection::operator=(o); return *this; } \
  C* C::clone() const { return new C(*this); } OGRwkbGeometryType C::getGeometryType() const { return T; } OGRBoolean C::isCompatibleSubType(OGRwkbGeometryType t) const { return OGR_GT_Flatten(t) == S; }
COLL(OGRMultiPoint, OGRGeometryCollection, wkbMultiPoint, wkbPoint)
COLL(OGRMultiCurve, OGRGeometryCollection, wkbMultiCurve, wkbLineString)
COLL(OGRMultiLineString, OGRMultiCurve, wkbMultiLineString, wkbLineString)
COLL(OGRMultiSurface, OGRGeometryCollection, wkbMultiSurface, wkbPolygon)
COLL(OGRMultiPolygon, OGRMultiSurface, wkbMultiPolygon, wkbPolygon)
OGRBoolean OGRMultiLineString::hasCurveGeometry(int) const { return FALSE; }
OGRBoolean OGRMultiPolygon::hasCurveGeometry(int) const { return FALSE; }
// ---- factory
OGRGeometry* OGRGeometryFactory::createGeometry(OGRwkbGeometryType t) {
  switch (OGR_GT_Flatten(t)) {
    case wkbPoint: return new OGRPoint();
    case wkbLineString: return new OGRLineString();
    case wkbPolygon: return new OGRPolygon();
    case wkbMultiPoint: return new OGRMultiPoint();
    case wkbMultiLineString: return new OGRMultiLineString();
    case wkbMultiPolygon: return new OGRMultiPolygon();
    case wkbGeometryCollection: return new OGRGeometryCollection();
    default: if ((unsigned)t == (unsigned)wkbLinearRing) return new OGRLinearRing(); return nullptr;
  }
}
void OGRGeometryFactory::destroyGeometry(OGRGeometry* g) { delete g; }
// ---- WKT: an opaque token naming a snapshot of the geometry (assumption: WKT export/import is lossless)
static std::vector<OGRGeometry*>& snaps() { static std::vector<OGRGeometry*> v; return v; }
OGRErr OGRGeometry::exportToWkt(char** out, OGRwkbVariant) const {
  snaps().push_back(clone()); std::string t = "@" + std::to_string(snaps().size() - 1);
  *out = (char*)malloc(t.size() + 1); for (size_t i = 0; i <= t.size(); i++) (*out)[i] = t.c_str()[i]; return OGRERR_NONE; }
static OGRGeometry* snapOf(const char* s) { if (!s || s[0] != '@') unmodelled("WKT text"); return snaps()[strtol(s + 1, nullptr, 10)]; }
OGRErr OGRPoint::importFromWkt(const char** s) { *this = *static_cast<OGRPoint*>(snapOf(*s)); return OGRERR_NONE; }
OGRErr OGRSimpleCurve::importFromWkt(const char** s) { *this = *static_cast<OGRSimpleCurve*>(snapOf(*s)); return OGRERR_NONE; }
OGRErr OGRPolygon::importFromWkt(const char** s) { *this = *static_cast<OGRPolygon*>(snapOf(*s)); return OGRERR_NONE; }
OGRErr OGRGeometryCollection::importFromWkt(const char** s) { OGRGeometryCollection::operator=(*static_cast<OGRGeometryCollection*>(snapOf(*s))); return OGRERR_NONE; }
OGRErr OGRMultiPoint::importFromWkt(const char** s) { return OGRGeometryCollection::importFromWkt(s); }
OGRErr OGRMultiCurve::importFromWkt(const char** s) { return OGRGeometryCollection::importFromWkt(s); }
OGRErr OGRMultiSurface::importFromWkt(const char** s) { return OGRGeometryCollection::importFromWkt(s); }
static bool wktRings(const char* s, OGRPolygon& p) { // POLYGON ((x y[ z], x y[ z], ...), (...))
  std::string h = "POLYGON"; for (char c : h) if (*s++ != c) return false; auto sp = [&]() { while (*s == ' ' || *s == '\n' || *s == '\t' || *s == '\r') s++; }; sp(); if (*s++ != '(') return false;
  for (;;) { sp(); if (*s++ != '(') return false; OGRLinearRing r;
    for (;;) { double v[3] = {0, 0, 0}; int n = 0; for (; n < 3; n++) { sp(); char* e; v[n] = strtod(s, &e); if (e == s) break; s = e; } if (n < 2) return false; if (n == 3) r.addPoint(v[0], v[1], v[2]); else r.addPoint(v[0], v[1]); sp(); if (*s == ',') { s++; continue; } if (*s == ')') { s++; break; } return false; }
    p.addRing(&r); sp(); if (*s == ',') { s++; continue; } return *s == ')'; } }
OGRErr OGRGeometryFactory::createFromWkt(const char* s, const OGRSpatialReference*, OGRGeometry** g) { if (s && s[0] == 'P') { auto* p = new OGRPolygon(); if (!wktRings(s, *p)) { delete p; *g = nullptr; return OGRERR_CORRUPT_DATA; } *g = p; return OGRERR_NONE; } *g = snapOf(s)->clone(); return OGRERR_NONE; }
extern "C" void VSIFree(void* p) { free(p); }
extern "C" void* VSIMalloc(size_t n) { return malloc(n); }
extern "C" const char* GDALVersionInfo(const char*) { return "3080400"; }
// ---- spatial predicates (exact over the reals)
namespace {
struct P2 { double x, y; };
typedef std::vector<P2> Ring;
Ring ringOf(const OGRSimpleCurve* c) { Ring r; for (int i = 0; i < c->getNumPoints(); i++) r.push_back({c->getX(i), c->getY(i)}); return r; }
void polysOf(const OGRGeometry* g, std::vector<std::vector<Ring>>& out) {
  if (F(g) == wkbPolygon) { std::vector<Ring> rs; for (auto* r : *static_cast<const OGRPolygon*>(g)) if (!r->IsEmpty()) rs.push_back(ringOf(r)); if (!rs.empty()) out.push_back(rs); }
  else if (F(g) == wkbMultiPolygon || F(g) == wkbGeometryCollection) { auto* c = static_cast<const OGRGeometryCollection*>(g); for (int i = 0; i < c->getNumGeometries(); i++) polysOf(c->getGeometryRef(i), out); }
  else unmodelled("polygonal operand expected");
}
double cross(P2 a, P2 b, P2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
bool onSeg(P2 p, P2 a, P2 b) { if (cross(a, b, p) != 0) return false; double d = (p.x - a.x) * (p.x - b.x) + (p.y - a.y) * (p.y - b.y); return d <= 0; }
// -1 outside, 0 boundary, 1 inside
int locate(P2 p, const Ring& r) {
  bool in = false;
  for (size_t i = 0; i + 1 < r.size(); i++) { P2 a = r[i], b = r[i + 1]; if (onSeg(p, a, b)) return 0;
    bool ua = a.y > p.y, ub = b.y > p.y; if (ua != ub) { double c = cross(a, b, p); if (ub ? c > 0 : c < 0) in = !in; } }
  return in ? 1 : -1;
}
int locatePoly(P2 p, const std::vector<Ring>& rs) { int l = locate(p, rs[0]); if (l <= 0) return l; for (size_t k = 1; k < rs.size(); k++) { int h = locate(p, rs[k]); if (h == 0) return 0; if (h > 0) return -1; } return 1; }
int locateGeom(P2 p, const OGRGeometry* g) { std::vector<std::vector<Ring>> ps; polysOf(g, ps); int best = -1; for (auto& q : ps) best = std::max(best, locatePoly(p, q)); return best; }
double dist2(P2 a, P2 b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
double pointSeg2(P2 p, P2 a, P2 b) { double vx = b.x - a.x, vy = b.y - a.y, l = vx * vx + vy * vy; if (l == 0) return dist2(p, a); double t = ((p.x - a.x) * vx + (p.y - a.y) * vy) / l; if (t <= 0) return dist2(p, a); if (t >= 1) return dist2(p, b); double c = vx * (p.y - a.y) - vy * (p.x - a.x); return c * c / l; }
P2 pt(const OGRGeometry* g) { auto* p = static_cast<const OGRPoint*>(g); return {p->getX(), p->getY()}; }
bool hasPoly(const OGRGeometry* g) { return F(g) == wkbPolygon || F(g) == wkbMultiPolygon; }
double pointLines2(P2 p, const OGRGeometry* g, double best) {  // best < 0: none yet
  auto upd = [&](double d) { if (best < 0 || d < best) best = d; };
  if (F(g) == wkbLineString) { Ring r = ringOf(static_cast<const OGRSimpleCurve*>(g)); if (r.size() == 1) upd(dist2(p, r[0])); for (size_t i = 0; i + 1 < r.size(); i++) upd(pointSeg2(p, r[i], r[i + 1])); }
  else if (F(g) == wkbPoint) upd(dist2(p, pt(g)));
  else if (F(g) == wkbPolygon) { for (auto* r : *static_cast<const OGRPolygon*>(g)) best = pointLines2(p, r, best); }
  else { auto* c = static_cast<const OGRGeometryCollection*>(g); for (int i = 0; i < c->getNumGeometries(); i++) best = pointLines2(p, c->getGeometryRef(i), best); }
  return best;
}
}
double OGRGeometry::Distance(const OGRGeometry* o) const {
  if (!o) return -1.0;
  if (IsEmpty() || o->IsEmpty()) return 0.0;
  const OGRGeometry *a = this, *b = o; if (F(a) != wkbPoint) std::swap(a, b);
  if (F(a) != wkbPoint) unmodelled("distance between two non-points");
  P2 p = pt(a);
  if (hasPoly(b) && locateGeom(p, b) >= 0) return 0.0;
  double d = pointLines2(p, b, -1); return sqrt(d);
}
OGRBoolean OGRPoint::Within(const OGRGeometry* o) const { if (!hasPoly(o)) unmodelled("point within non-polygon"); if (IsEmpty() || o->IsEmpty()) return FALSE; return locateGeom({x, y}, o) > 0; }
OGRBoolean OGRPoint::Intersects(const OGRGeometry* o) const { if (hasPoly(o)) { if (IsEmpty() || o->IsEmpty()) return FALSE; return locateGeom({x, y}, o) >= 0; } return Distance(o) == 0.0; }
OGRBoolean OGRGeometry::Touches(const OGRGeometry* o) const { if (F(this) != wkbPoint || !hasPoly(o)) unmodelled("touches on this pair of types"); if (IsEmpty() || o->IsEmpty()) return FALSE; return locateGeom(pt(this), o) == 0; }
OGRBoolean OGRGeometry::Disjoint(const OGRGeometry* o) const { return !Intersects(o); }
// straight segment with polygonal geometry: pieces inside (closed) between its contacts with the border, in travel order, and isolated contacts
static void clipSeg(P2 a, P2 b, const std::vector<Ring>& poly, std::vector<std::pair<P2, P2>>& out, std::vector<P2>& pts) {
  std::vector<double> ts{0.0, 1.0}; double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy; if (l2 == 0) return;
  auto add = [&](double t) { if (t <= 0 || t >= 1) return; size_t k = 0; while (k < ts.size() && ts[k] < t) k++; if (k < ts.size() && ts[k] == t) return; ts.insert(ts.begin() + k, t); };
  for (auto& r : poly) for (size_t i = 0; i + 1 < r.size(); i++) { P2 c = r[i], d = r[i + 1]; double ex = d.x - c.x, ey = d.y - c.y, den = dx * ey - dy * ex;
    if (den == 0) { if (cross(a, b, c) == 0) { add(((c.x - a.x) * dx + (c.y - a.y) * dy) / l2); add(((d.x - a.x) * dx + (d.y - a.y) * dy) / l2); } continue; }
    double sc = cross(a, b, c), sd = cross(a, b, d); if ((sc > 0 && sd > 0) || (sc < 0 && sd < 0)) continue;
    add(((c.x - a.x) * ey - (c.y - a.y) * ex) / den); }
  auto at = [&](double t) { if (t == 0) return a; if (t == 1) return b; return P2{a.x + t * dx, a.y + t * dy}; };
  bool before = false;
  for (size_t i = 0; i + 1 < ts.size(); i++) { P2 m = at((ts[i] + ts[i + 1]) * 0.5); bool in = locatePoly(m, poly) >= 0; if (in) out.push_back({at(ts[i]), at(ts[i + 1])}); else if (!before && locatePoly(at(ts[i]), poly) == 0) pts.push_back(at(ts[i])); before = in; }
  if (!before && locatePoly(at(ts.back()), poly) == 0) pts.push_back(at(ts.back()));
}
static void clipAny(const OGRGeometry* l, const std::vector<Ring>& poly, std::vector<std::pair<P2, P2>>& out, std::vector<P2>& pts) {
  if (F(l) == wkbLineString) { Ring r = ringOf(static_cast<const OGRSimpleCurve*>(l)); if (r.size() > 2) unmodelled("clipping a polyline"); if (r.size() == 2) clipSeg(r[0], r[1], poly, out, pts); }
  else { auto* c = static_cast<const OGRGeometryCollection*>(l); for (int i = 0; i < c->getNumGeometries(); i++) clipAny(c->getGeometryRef(i), poly, out, pts); }
}
OGRGeometry* OGRGeometry::Intersection(const OGRGeometry* o) const {
  if (hooks.intersection) { OGRGeometry* r = hooks.intersection(this, o); if (r) return r; }
  const OGRGeometry *a = this, *b = o; if (hasPoly(a)) std::swap(a, b);
  if (hasPoly(a) || !hasPoly(b) || F(a) == wkbPoint) unmodelled("polygon intersection");
  std::vector<std::vector<Ring>> ps; polysOf(b, ps); std::vector<std::pair<P2, P2>> out; std::vector<P2> pts; for (auto& p : ps) clipAny(a, p, out, pts);
  auto mk = [](const std::pair<P2, P2>& s) { auto* l = new OGRLineString(); l->addPoint(s.first.x, s.first.y, 0.0); l->addPoint(s.second.x, s.second.y, 0.0); return l; };
  if (!pts.empty() && out.empty()) { if (pts.size() == 1) return new OGRPoint(pts[0].x, pts[0].y); auto* mp = new OGRMultiPoint(); for (auto& q : pts) mp->addGeometryDirectly(new OGRPoint(q.x, q.y)); return mp; }
  if (!pts.empty()) { auto* gc = new OGRGeometryCollection(); for (auto& q : out) gc->addGeometryDirectly(mk(q)); for (auto& q : pts) gc->addGeometryDirectly(new OGRPoint(q.x, q.y)); return gc; }
  if (out.empty()) return new OGRLineString();
  if (out.size() == 1) return mk(out[0]);
  auto* ml = new OGRMultiLineString(); for (auto& s : out) ml->addGeometryDirectly(mk(s)); return ml;
}
OGRGeometry* OGRGeometry::Difference(const OGRGeometry* o) const { if (hooks.difference) return hooks.difference(this, o); unmodelled("polygon difference"); }
OGRGeometry* OGRGeometry::Union(const OGRGeometry* o) const { if (hooks.unionop) return hooks.unionop(this, o); unmodelled("polygon union"); }
OGRGeometry* OGRGeometry::UnionCascaded() const { if (hooks.unioncascaded) return hooks.unioncascaded(this); unmodelled("cascaded union"); }
OGRGeometry* OGRGeometry::ConvexHull() const { if (hooks.hull) return hooks.hull(this); unmodelled("convex hull"); }
OGRGeometry* OGRGeometry::Buffer(double d, int) const { if (hooks.buffer) return hooks.buffer(this, d); unmodelled("buffer"); }
OGRGeometry* OGRGeometry::SimplifyPreserveTopology(double d) const { if (hooks.simplify) return hooks.simplify(this, d); unmodelled("simplify"); }
OGRBoolean OGRGeometry::Intersects(const OGRGeometry* o) const { if (F(o) == wkbPoint) return o->Intersects(this); if (hooks.intersects) return hooks.intersects(this, o); unmodelled("intersects"); }
OGRBoolean OGRCurvePolygon::Intersects(const OGRGeometry* o) const { return OGRGeometry::Intersects(o); }
// ---- GEOS entry points used by Geometry::OGRBuffer
GEOSContextHandle_t OGRGeometry::createGEOSContext() { return reinterpret_cast<GEOSContextHandle_t>(malloc(8)); }
void OGRGeometry::freeGEOSContext(GEOSContextHandle_t h) { free(h); }
GEOSGeom OGRGeometry::exportToGEOS(GEOSContextHandle_t) const { return reinterpret_cast<GEOSGeom>(clone()); }
OGRGeometry* OGRGeometryFactory::createFromGEOS(GEOSContextHandle_t, GEOSGeom g) { return reinterpret_cast<OGRGeometry*>(g)->clone(); }
extern "C" {
GEOSBufferParams* GEOSBufferParams_create_r(GEOSContextHandle_t) { return reinterpret_cast<GEOSBufferParams*>(malloc(8)); }
void GEOSBufferParams_destroy_r(GEOSContextHandle_t, GEOSBufferParams* p) { free(p); }
int GEOSBufferParams_setEndCapStyle_r(GEOSContextHandle_t, GEOSBufferParams*, int) { return 1; }
int GEOSBufferParams_setJoinStyle_r(GEOSContextHandle_t, GEOSBufferParams*, int) { return 1; }
int GEOSBufferParams_setSingleSided_r(GEOSContextHandle_t, GEOSBufferParams*, int) { return 1; }
GEOSGeometry* GEOSBufferWithParams_r(GEOSContextHandle_t, const GEOSGeometry* g, const GEOSBufferParams*, double d) { if (!hooks.buffer) unmodelled("buffer"); return reinterpret_cast<GEOSGeometry*>(hooks.buffer(reinterpret_cast<const OGRGeometry*>(g), d)); }
void GEOSGeom_destroy_r(GEOSContextHandle_t, GEOSGeometry* g) { delete reinterpret_cast<OGRGeometry*>(g); }
}
// ---- spatial references and transformations: a reference is the text it was made from
struct OGRSpatialReference::Private { std::string s; };
OGRSpatialReference::OGRSpatialReference(const char*) : d(new Private()) {}
OGRSpatialReference::~OGRSpatialReference() = default;
void OGRSpatialReference::DestroySpatialReference(OGRSpatialReference* r) { delete r; }
OGRErr OGRSpatialReference::importFromEPSG(int c) { d->s = "EPSG:" + std::to_string(c); return OGRERR_NONE; }
OGRErr OGRSpatialReference::importFromProj4(const char* s) { d->s = s; return OGRERR_NONE; }
void OGRSpatialReference::SetAxisMappingStrategy(OSRAxisMappingStrategy) {}
int OGRSpatialReference::IsSame(const OGRSpatialReference* o) const { return d->s == o->d->s; }
OGRErr OGRSpatialReference::exportToWkt(char** out) const { *out = (char*)malloc(d->s.size() + 1); for (size_t i = 0; i <= d->s.size(); i++) (*out)[i] = d->s.c_str()[i]; return OGRERR_NONE; }
namespace { struct CT : OGRCoordinateTransformation {
  std::string a, b;
  const OGRSpatialReference* GetSourceCS() const override { return nullptr; }
  const OGRSpatialReference* GetTargetCS() const override { return nullptr; }
  int Transform(int n, double* x, double* y, double* z, double*, int* ok) override { for (int i = 0; i < n; i++) { double zz = 0; if (!hooks.ctmap) unmodelled("coordinate transformation"); hooks.ctmap(a, b, x + i, y + i, z ? z + i : &zz); if (ok) ok[i] = 1; } return TRUE; }
  OGRCoordinateTransformation* Clone() const override { return new CT(*this); }
  OGRCoordinateTransformation* GetInverse() const override { auto* c = new CT(*this); std::swap(c->a, c->b); return c; }
}; }
int OGRCoordinateTransformation::TransformWithErrorCodes(int, double*, double*, double*, double*, int*) { return FALSE; }
static std::string txt(const OGRSpatialReference* r) { char* p = nullptr; r->exportToWkt(&p); std::string s(p); free(p); return s; }
OGRCoordinateTransformation* OGRCreateCoordinateTransformation(const OGRSpatialReference* a, const OGRSpatialReference* b) { if (!a || !b) return nullptr; auto* c = new CT(); c->a = txt(a); c->b = txt(b); return c; }
void OGRCoordinateTransformation::DestroyCT(OGRCoordinateTransformation* c) { delete c; }
int OGRCoordinateTransformation::Transform(int n, double* x, double* y, double* z, int* ok) { return Transform(n, x, y, z, nullptr, ok); }
// ---- key functions (they place the vtables here); never reached by the modelled code
OGRCurveCasterToLineString OGRLineString::GetCasterToLineString() const { unmodelled("GetCasterToLineString"); }
size_t OGRLinearRing::WkbSize() const { unmodelled("WkbSize"); }
int OGRPolygon::checkRing(OGRCurve*) const { return TRUE; }
int OGRCurvePolygon::checkRing(OGRCurve*) const { return TRUE; }
int OGRCurve::ContainsPoint(const OGRPoint*) const { unmodelled("ContainsPoint"); }
