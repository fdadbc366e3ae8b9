//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Field.cpp
//@ native: gdal
//@ bound: EPSG codes of 1 to 6 arbitrary digits, with text before the mark and after the code; UTM zones 1 to 60 with either hemisphere letter in either case and several separators; arbitrary other strings of up to 6 characters
#include "geo.h"
using f2c::types::Field;
static char chr(const char* n, char lo, char hi) { return (char)sx_int(n, lo, hi); }
SX_HARNESS(F02_epsg) {
  int n = sx_choose("digits", 1, 6); std::string code; long v = 0; for (int i = 0; i < n; i++) { char c = chr(("d" + std::to_string(i)).c_str(), '0', '9'); code += c; v = v * 10 + (c - '0'); }
  int pre = sx_choose("prefix", 0, 2); std::string s = (pre == 0 ? "" : pre == 1 ? " " : "urn:ogc:def:crs:") + std::string("EPSG:") + code; static const char* sfx[4] = {"", " datum:WGS84", ":7", ", x: 3"}; if (pre != 1) s += sfx[sx_choose("suffix", 0, 3)];
  sx_assert(Field::isCoordSystemEPSG(s), "an EPSG string is one"); sx_assert(!Field::isCoordSystemUTM(s), "an EPSG string is not a UTM one"); sx_assert(Field::getEPSGCoordSystem(s) == v, "the EPSG code is read as written");
  Field f; f.setCRS(s); sx_assert(f.isCoordSystemEPSG() && !f.isCoordSystemUTM() && f.getEPSGCoordSystem() == v, "a field reads the code of its system");
}
SX_HARNESS(F02_set_epsg) { static const int base[6] = {0, 2000, 4258, 4326, 25831, 999990}; int v = base[sx_choose("base", 0, 5)] + (int)sx_int("code", 0, 9); Field f; f.setEPSGCoordSystem(v); sx_assert(f.isCoordSystemEPSG() && !f.isCoordSystemUTM(), "an EPSG system is set"); sx_assert(f.getEPSGCoordSystem() == v, "the EPSG code set is read back"); sx_assert(f.getUTMCoordSystem() == "", "an EPSG system has no UTM zone"); }
SX_HARNESS(F02_utm) {
  int zone = sx_choose("zone", 1, 60); bool pad = zone < 10 && sx_choose("pad", 0, 1); std::string z = (pad ? "0" : "") + std::to_string(zone); int h = sx_choose("letter", 0, 3); std::string l(1, "NSns"[h]); int form = sx_choose("form", 0, 2);
  std::string s = form == 0 ? "UTM:" + z + l : form == 1 ? "UTM: " + z + l + " datum:WGS84" : "UTM:" + z + l + " +datum:etrs89";
  sx_assert(Field::isCoordSystemUTM(s), "a UTM string is one"); sx_assert(!Field::isCoordSystemEPSG(s), "a UTM string is not an EPSG one"); sx_assert(Field::getEPSGCoordSystem(s) == -1, "a UTM string has no EPSG code");
  sx_assert(Field::getUTMCoordSystem(s) == z + l, "the UTM system is read as written"); sx_assert(Field::getUTMZone(s) == z, "the zone is read as written"); sx_assert(Field::getUTMHemisphere(s) == (h % 2 == 0 ? "+north" : "+south"), "the hemisphere is read as written");
  sx_assert(Field::getUTMDatum(s) == (form == 1 ? "WGS84" : "etrs89"), "the datum is read as written"); if (form == 0) { sx_assert(Field::getUTMDatum(s, "none") == "none", "no datum"); }
  Field f; f.setCRS(s); sx_assert(f.isCoordSystemUTM() && f.getUTMCoordSystem() == z + l && f.getUTMZone() == z && f.getUTMHemisphere() == (h % 2 == 0 ? "+north" : "+south") && f.getUTMDatum() == (form == 1 ? "WGS84" : "etrs89"), "a field reads its own system");
}
SX_HARNESS(F02_set_utm) {
  int zone = sx_choose("zone", 1, 60); std::string z = std::to_string(zone); bool n = sx_choose("north", 0, 1); std::string l(n ? "N" : "S"); Field f; int form = sx_choose("form", 0, 2); 
  if (form == 0) f.setUTMCoordSystem(z + l); else if (form == 1) f.setUTMCoordSystem("UTM:" + z + l + " datum:WGS84"); else f.setUTMCoordSystem(z + l, "WGS84");
  sx_assert(f.isCoordSystemUTM() && !f.isCoordSystemEPSG(), "a UTM system is set"); sx_assert(f.getUTMCoordSystem() == z + l && f.getUTMZone() == z && f.getUTMHemisphere() == (n ? "+north" : "+south"), "the zone set is read back"); sx_assert(f.getUTMDatum() == (form == 0 ? "etrs89" : "WGS84"), "the datum set is read back");
  f.setEPSGCoordSystem(4326); sx_assert(f.isCoordSystemEPSG() && !f.isCoordSystemUTM(), "the last system set counts");
}
SX_HARNESS(F02_other) { // arbitrary text: classified by its mark alone
  int n = sx_choose("length", 0, 6); std::string s; for (int i = 0; i < n; i++) s += chr(("c" + std::to_string(i)).c_str(), 32, 126);
  bool e = false, u = false; for (int i = 0; i + 5 <= n; i++) if (s[i] == 'E' && s[i+1] == 'P' && s[i+2] == 'S' && s[i+3] == 'G' && s[i+4] == ':') e = true; for (int i = 0; i + 4 <= n; i++) if (s[i] == 'U' && s[i+1] == 'T' && s[i+2] == 'M' && s[i+3] == ':') u = true;
  sx_assert(Field::isCoordSystemEPSG(s) == e, "a string is an EPSG system exactly when it has the mark"); sx_assert(Field::isCoordSystemUTM(s) == u, "a string is a UTM system exactly when it has the mark"); if (!e) sx_assert(Field::getEPSGCoordSystem(s) == -1, "no EPSG code without the mark");
}
