// A small executable model of the OGR geometry classes used by Fields2Cover.
// Polygon operations that need GEOS (buffer, difference, union, polygon intersection) have no body
// here: a harness installs a contract for them through these hooks, or the path is "unmodelled".
#pragma once
#include <ogr_geometry.h>
#include <ogr_spatialref.h>
#include <functional>
#include <string>
namespace mdl {
struct Hooks {
  OGRGeometry* (*intersection)(const OGRGeometry*, const OGRGeometry*) = nullptr;
  OGRGeometry* (*difference)(const OGRGeometry*, const OGRGeometry*) = nullptr;
  OGRGeometry* (*unionop)(const OGRGeometry*, const OGRGeometry*) = nullptr;
  OGRGeometry* (*unioncascaded)(const OGRGeometry*) = nullptr;
  OGRGeometry* (*buffer)(const OGRGeometry*, double) = nullptr;   // GEOSBufferWithParams
  OGRGeometry* (*hull)(const OGRGeometry*) = nullptr;
  OGRGeometry* (*simplify)(const OGRGeometry*, double) = nullptr;
  bool (*intersects)(const OGRGeometry*, const OGRGeometry*) = nullptr;   // polygon against polygon or line
  double (*area)(const OGRGeometry*) = nullptr;    // < 0: use the exact shoelace area
  // point map of a coordinate transformation (from, to are the strings the code asked for)
  void (*ctmap)(const std::string& from, const std::string& to, double* x, double* y, double* z) = nullptr;
};
extern Hooks hooks;
[[noreturn]] void unmodelled(const char* what);
}
extern "C" void sx_unmodelled(const char* what);
