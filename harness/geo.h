#pragma once
#include "sx.h"
#include <cmath>
#include <string>
#include <vector>
#include "fields2cover/types.h"
using f2c::types::Point; using f2c::types::LineString; using f2c::types::LinearRing; using f2c::types::Cell; using f2c::types::Cells;
using f2c::types::MultiPoint; using f2c::types::MultiLineString;
static const double PI = 3.14159265358979323846;
inline double num(const std::string& n, double lo = -5000000, double hi = 5000000) { return sx_double(n.c_str(), lo, hi); }
inline Point pnt(const std::string& n, double lo = -5000000, double hi = 5000000) { double x = num(n + ".x", lo, hi), y = num(n + ".y", lo, hi); return Point(x, y); }
inline Point pnt3(const std::string& n, double lo = -5000000, double hi = 5000000) { double x = num(n + ".x", lo, hi), y = num(n + ".y", lo, hi), z = num(n + ".z", lo, hi); return Point(x, y, z); }
inline double d2(const Point& a, const Point& b) { return (a.getX() - b.getX()) * (a.getX() - b.getX()) + (a.getY() - b.getY()) * (a.getY() - b.getY()); }
inline void same(const Point& a, const Point& b, const char* m) { sx_assert_eq(a.getX(), b.getX(), m); sx_assert_eq(a.getY(), b.getY(), m); sx_assert_eq(a.getZ(), b.getZ(), m); }
