#pragma once
#include "swath_common.h"
#include "fields2cover/types/Path.h"
using f2c::types::Path; using f2c::types::PathState; using f2c::types::PathDirection; using f2c::types::PathSectionType;
struct St { double x, y, z, ang, len, vel; int dir, type; };
// an arbitrary state; its heading may be fixed to keep positions polynomial
inline PathState state(const std::string& n, std::vector<St>* rec = nullptr, double ang = -1, double minLen = 0) { PathState s; s.point = pnt3(n); s.angle = ang >= 0 ? ang : sx_angle((n + ".ang").c_str(), 0, 2 * PI); s.len = num(n + ".len", minLen, 20); s.velocity = num(n + ".vel", 0.5, 9); s.dir = sx_bool((n + ".back").c_str()) ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = (PathSectionType)sx_int((n + ".type").c_str(), 1, 3); if (rec) rec->push_back({s.point.getX(), s.point.getY(), s.point.getZ(), s.angle, s.len, s.velocity, (int)s.dir, (int)s.type}); return s; }
inline void kept(const PathState& s, const St& o) { sx_assert_eq(s.len, o.len, "state lengths are kept"); sx_assert_eq(s.velocity, o.vel, "velocities are kept"); sx_assert((int)s.dir == o.dir, "driving directions are kept"); sx_assert((int)s.type == o.type, "section types are kept"); }
inline void samePos(const PathState& s, const St& o, const char* m) { sx_assert_eq(s.point.getX(), o.x, m); sx_assert_eq(s.point.getY(), o.y, m); sx_assert_eq(s.point.getZ(), o.z, m); }
inline void sameState(const PathState& s, const St& o, const char* m) { kept(s, o); samePos(s, o, m); sx_assert_angle_eq(s.angle, o.ang, m); }
