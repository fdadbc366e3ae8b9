//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Field.cpp types/Strip.cpp types/Route.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Path.cpp types/PathState.cpp utils/transformation.cpp
//@ native: model
//@ bound: every longitude in [-180, 180] and latitude in [-89, 89] of the reference point; fields with and without geometry, with geographic, projected and unset coordinate systems
//@ assume: the coordinate transformation itself (PROJ) is a stub: identity, except from a projected system to longitude and latitude
#include "geo.h"
#include "fields2cover/utils/transformation.h"
#include "ogr_model.h"
using f2c::types::Field; using f2c::Transform;
static std::string lastTo, lastFrom; static double glon, glat;
static void ct(const std::string& a, const std::string& b, double* x, double* y, double*) { lastFrom = a; lastTo = b; if (a == "EPSG:28992") { *x = glon; *y = glat; } }
static void zone(const Field& f, double lon, double lat, const char* datum) {
  std::string crs = f.getCRS(); sx_assert(f.isCoordSystemUTM(), "the field ends in a UTM system"); int z = std::stoi(f.getUTMZone()); 
  sx_assert(z >= 1 && z <= 60, "zones run from 1 to 60");
  sx_assert(lon >= -180 + 6.0 * (z - 1) || (z == 1 && lon == 180), "the zone is the six-degree band of the longitude"); sx_assert(lon < -180 + 6.0 * z || (z == 60 && lon == 180), "the zone is the six-degree band of the longitude");
  bool north = f.getUTMHemisphere() == "+north"; sx_assert(north || f.getUTMHemisphere() == "+south", "the hemisphere is written"); if (north) sx_assert(lat >= 0, "the hemisphere follows the latitude"); else sx_assert(lat <= 0, "the hemisphere follows the latitude"); sx_assert(f.getUTMDatum() == datum, "the datum is the one of the source system");
  std::string want = "+zone=" + std::to_string(z) + " "; sx_assert(lastTo.find(want) != std::string::npos, "the projection asked for has this zone"); sx_assert((lastTo.find("+south") != std::string::npos) == !north && (lastTo.find("+north") != std::string::npos) == north, "the projection asked for has this hemisphere");
  sx_assert((lastTo.find("GRS80") != std::string::npos) == (std::string(datum) == "ETRS89"), "the projection asked for has this datum");
}
static Field field(double lon, double lat, bool empty) { Field f; if (!empty) { Cells cs; cs.addGeometry(Cell(LinearRing({Point(lon, lat), Point(lon + 0.5, lat), Point(lon, lat + 0.5), Point(lon, lat)}))); f = Field(cs, "f"); } else f.setRefPoint(Point(lon, lat)); return f; }
SX_HARNESS(T02_geographic) { mdl::hooks.ctmap = ct; double lon = sx_double("lon", -180, 180), lat = sx_double("lat", -89, 89); int mode = sx_choose("mode", 0, 2); bool wgs = mode > 0; Field f = field(lon, lat, mode > 1); std::string c = wgs ? "EPSG:4326" : "EPSG:4258"; f.setCRS(c); Transform::transformToUTM(f, mode > 1); zone(f, lon, lat, wgs ? "WGS84" : "ETRS89"); sx_assert(f.getPrevCRS() == c, "the previous system is remembered"); sx_assert(lastFrom == c, "transformed from the source system"); }
static bool europe(double lon, double lat) { return lon < 32.88 && lon > -16.1 && lat < 84.73 && lat > 40.18; }
SX_HARNESS(T02_unset) { mdl::hooks.ctmap = ct; double lon = sx_double("lon", -179, 179), lat = sx_double("lat", -89, 89); sx_assume(lon > 1e-3 || lon < -1e-3 || lat > 1e-3 || lat < -1e-3); bool e = sx_choose("etrs", 0, 1); Field f = field(lon, lat, e); Transform::transformToUTM(f, e); bool et = e && europe(lon, lat); zone(f, lon, lat, et ? "ETRS89" : "WGS84"); sx_assert(f.getPrevCRS() == (et ? "EPSG:4258" : "EPSG:4326"), "the guessed system is remembered"); }
SX_HARNESS(T02_projected) { mdl::hooks.ctmap = ct; glon = sx_double("lon", -180, 180); glat = sx_double("lat", -89, 89); bool e = sx_choose("etrs", 0, 1); Field f; f.setRefPoint(Point(1000, 2000)); f.setCRS("EPSG:28992"); Transform::transformToUTM(f, e); bool et = e && europe(glon, glat); zone(f, glon, glat, et ? "ETRS89" : "WGS84"); sx_assert(f.getPrevCRS() == "EPSG:28992", "the source system is remembered"); }
SX_HARNESS(T02_rejected) { mdl::hooks.ctmap = ct; Field f; int k = sx_choose("kind", 0, 2); double a = sx_double("lon", 180.0001, 1e6), b = sx_double("lat", -89, 89); if (k == 0) f.setRefPoint(Point(0, 0)); else if (k == 1) f.setRefPoint(Point(sx_choose("west", 0, 1) ? -a : a, b)); else { double y = sx_double("lat2", 90.0001, 1e6); f.setRefPoint(Point(1, sx_choose("south", 0, 1) ? -y : y)); } bool thrown = false; try { Transform::transformToUTM(f); } catch (const std::out_of_range&) { thrown = k == 0; } catch (const std::invalid_argument&) { thrown = k != 0; } sx_assert(thrown, "coordinates outside the globe are rejected"); sx_assert(f.getPrevCRS().empty(), "a rejected field remembers no system"); }
SX_HARNESS(T02_reference) { // strings to references
  int z = sx_choose("zone", 1, 60); bool n = sx_choose("north", 0, 1); int d = sx_choose("datum", 0, 1); mdl::hooks.ctmap = ct; Point p(1, 2); p = Transform::transform(p, "EPSG:4326", "UTM:" + std::to_string(z) + (n ? "N" : "S") + (d ? " datum:WGS84" : " datum:etrs89"));
  sx_assert(lastTo.find("+zone=" + std::to_string(z) + (n ? " +north" : " +south")) != std::string::npos, "the reference has the zone and hemisphere written"); sx_assert((lastTo.find("+datum=WGS84") != std::string::npos) == (d == 1) && (lastTo.find("GRS80") != std::string::npos) == (d == 0), "the reference has the datum written"); sx_assert(lastFrom == "EPSG:4326", "source system");
  bool bad = false; try { Transform::createSptRef("32N"); } catch (const std::invalid_argument&) { bad = true; } sx_assert(bad, "an unknown system is rejected"); bad = false; try { Transform::createSptRef(""); } catch (const std::invalid_argument&) { bad = true; } sx_assert(bad, "an empty system is rejected"); bad = false; try { Transform::createSptRef("32N", true); Transform::createSptRef("", true); } catch (...) { bad = true; } sx_assert(!bad, "unless asked to be silent");
}
