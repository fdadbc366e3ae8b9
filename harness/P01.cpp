//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Path.cpp types/PathState.cpp
//@ native: model
//@ bound: paths of up to 3 (thorough: 4) arbitrary states in three dimensions, arbitrary translations, centres and rotation angles; one larger path of 6 states
#include "path_common.h"
static Path make(std::vector<St>& r, int most) { Path p; int n = most > 2 ? sx_size("n", 0, most, 6) : sx_choose("n", 0, most); for (int i = 0; i < n; i++) p.addState(state("s" + std::to_string(i), &r)); return p; }
static double dist2(const Point& a, const Point& b) { return d2(a, b) + (a.getZ() - b.getZ()) * (a.getZ() - b.getZ()); }
static double dist2(const St& a, const St& b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z); }
static void rigid(const Path& p, const std::vector<St>& r) { sx_assert(p.size() == r.size(), "the number of states is kept"); for (size_t i = 0; i < r.size(); i++) { kept(p[i], r[i]); if (i) sx_assert_eq(dist2(p[i - 1].point, p[i].point), dist2(r[i - 1], r[i]), "distances between states are kept"); } double l = 0; for (auto& s : r) l += s.len; sx_assert_eq(p.length(), l, "the length is kept"); }
static void restored(const Path& p, const std::vector<St>& r) { sx_assert(p.size() == r.size(), "the number of states is kept"); for (size_t i = 0; i < r.size(); i++) sameState(p[i], r[i], "the inverse motion restores the path"); }
static void inTurn(const Path& p) { for (auto& s : p) { sx_assert_le(0, s.angle, "headings stay in a full turn"); sx_assert_le(s.angle, 2 * PI, "headings stay in a full turn"); } }
SX_HARNESS(P01_move) { std::vector<St> r; Path p = make(r, sx_thorough() ? 4 : 3); Point m = pnt3("move"); p.moveTo(m); rigid(p, r); for (size_t i = 0; i < r.size(); i++) { St o = r[i]; o.x += m.getX(); o.y += m.getY(); o.z += m.getZ(); sameState(p[i], o, "every state moves by the vector and keeps its heading"); } p.moveTo(m * -1.0); restored(p, r); }
SX_HARNESS(P01_move_by_own_point) { std::vector<St> r; Path p = make(r, 3); if (r.empty()) return; int k = sx_choose("own", 0, (int)r.size() - 1); p.moveTo(p[k].point); for (size_t i = 0; i < r.size(); i++) { St o = r[i]; o.x += r[k].x; o.y += r[k].y; o.z += r[k].z; sameState(p[i], o, "every state moves by the vector and keeps its heading"); } }
SX_HARNESS(P01_mirror_x) { std::vector<St> r; Path p = make(r, 2); p.mirrorX(); rigid(p, r); inTurn(p); for (size_t i = 0; i < r.size(); i++) { St o = r[i]; o.x = -o.x; o.ang = PI - o.ang; sameState(p[i], o, "positions and headings are mirrored"); Point e = p[i].atEnd(); St q = r[i]; double d = q.len * q.dir; sx_assert_eq(e.getX(), -(q.x + d * std::cos(q.ang)), "the end of a piece is mirrored with it"); sx_assert_eq(e.getY(), q.y + d * std::sin(q.ang), "the end of a piece is mirrored with it"); } p.mirrorX(); restored(p, r); }
SX_HARNESS(P01_mirror_y) { std::vector<St> r; Path p = make(r, 2); p.mirrorY(); rigid(p, r); inTurn(p); for (size_t i = 0; i < r.size(); i++) { St o = r[i]; o.y = -o.y; o.ang = -o.ang; sameState(p[i], o, "positions and headings are mirrored"); Point e = p[i].atEnd(); St q = r[i]; double d = q.len * q.dir; sx_assert_eq(e.getX(), q.x + d * std::cos(q.ang), "the end of a piece is mirrored with it"); sx_assert_eq(e.getY(), -(q.y + d * std::sin(q.ang)), "the end of a piece is mirrored with it"); } p.mirrorY(); restored(p, r); }
SX_HARNESS(P01_rotate) { std::vector<St> r; Path p = make(r, 2); Point c = pnt3("centre"); double a = sx_angle("rotation", -2 * PI, 2 * PI), cs = std::cos(a), sn = std::sin(a); p.rotateFromPoint(c, a); rigid(p, r); inTurn(p); for (size_t i = 0; i < r.size(); i++) { St o = r[i]; double dx = o.x - c.getX(), dy = o.y - c.getY(); o.x = c.getX() + cs * dx - sn * dy; o.y = c.getY() + sn * dx + cs * dy; o.ang += a; sameState(p[i], o, "positions and headings turn together about the centre"); } p.rotateFromPoint(c, -a); restored(p, r); }
// the end of a piece turns with it
SX_HARNESS(P01_rotate_end) { std::vector<St> r; Path p; p.addState(state("s", &r)); Point c = pnt("centre"); double a = sx_angle("rotation", 0, 2 * PI); Point e = p[0].atEnd(); p.rotateFromPoint(c, a); Point q = p.atEnd(); double dx = e.getX() - c.getX(), dy = e.getY() - c.getY(); sx_assert_eq(q.getX(), c.getX() + std::cos(a) * dx - std::sin(a) * dy, "the end of a piece turns with it"); sx_assert_eq(q.getY(), c.getY() + std::sin(a) * dx + std::cos(a) * dy, "the end of a piece turns with it"); }
SX_HARNESS(P01_flags) { std::vector<St> r; Path p = make(r, 3); if (r.empty()) return; int k = sx_choose("index", -1, (int)r.size() - 1), how = sx_choose("how", 0, 3); for (size_t i = 0; i < r.size(); i++) if (k < 0 || (int)i == k) { if (how == 0) r[i].dir = -1; if (how == 1) r[i].dir = 1; if (how == 2) r[i].type = 1; if (how == 3) r[i].type = 2; } if (k < 0) { if (how == 0) p.setBackwardDir(); if (how == 1) p.setForwardDir(); if (how == 2) p.setSwathType(); if (how == 3) p.setTurnType(); } else { if (how == 0) p.setBackwardDir(k); if (how == 1) p.setForwardDir(k); if (how == 2) p.setSwathType(k); if (how == 3) p.setTurnType(k); } restored(p, r); }
