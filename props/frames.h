// Frames of particles for the frame-file and frame-buffer properties.
#pragma once
#include "files.h"

struct Part { double x[3]; int prev, next, prio, nr, p[4]; };
struct FrameM { std::vector<Part> parts; std::vector<std::vector<target>> targ; };      // model content of a frame
static inline double gen_xyz(Src& s) { switch (s.draw(7)) { case 0: return s.r0(-1e6, 1e6); case 1: return s.one({0., -0.0004, 0.9995, 99.9996, 99999.9995, -9999.9996, 123456.789}); case 2: return (double)s.i0(-200, 200); default: return s.r0(-300, 300); } }
static inline Part gen_part(Src& s, int k) {
  Part q; for (int i = 0; i < 3; i++) q.x[i] = gen_xyz(s); q.prev = s.b() ? PREV_NONE : gen_int(s); q.next = s.b() ? NEXT_NONE : gen_int(s); q.prio = s.chance(1, 5) ? gen_int(s) : (int)s.i(0, 4); q.nr = k + 1;
  for (int i = 0; i < 4; i++) q.p[i] = s.chance(1, 4) ? -1 : gen_int(s); return q; }
static inline std::vector<Part> gen_parts(Src& s, int lo = 0) { int n = s.chance(1, 40) ? (int)s.i(60, 400) : (int)s.i(lo, 10); std::vector<Part> v; for (int k = 0; k < n; k++) v.push_back(gen_part(s, k)); return v; }
static inline std::string show(const Part& q) { char b[300]; snprintf(b, 300, "(%.10g %.10g %.10g prev %d next %d prio %d p %d %d %d %d)", q.x[0], q.x[1], q.x[2], q.prev, q.next, q.prio, q.p[0], q.p[1], q.p[2], q.p[3]); return b; }
static inline Part via_file(Part q, bool links, bool prio) { for (int i = 0; i < 3; i++) q.x[i] = rounded(q.x[i], "%.3f"); if (!links) { q.prev = PREV_NONE; q.next = NEXT_NONE; } if (!prio) q.prio = 4; return q; }
static inline void put(const Part& q, P& p, corres& c, Src& s) { memset(&p, 0x33, sizeof p); for (int i = 0; i < 3; i++) p.x[i] = q.x[i]; p.prev = q.prev; p.next = q.next; p.prio = q.prio; p.inlist = (int)s.i(0, 80); p.finaldecis = 3; for (int i = 0; i < POSI; i++) { p.decis[i] = i; p.linkdecis[i] = i; } c.nr = q.nr; for (int i = 0; i < 4; i++) c.p[i] = q.p[i]; }
static inline Part get(const P& p, const corres& c) { Part q; for (int i = 0; i < 3; i++) q.x[i] = p.x[i]; q.prev = p.prev; q.next = p.next; q.prio = p.prio; q.nr = c.nr; for (int i = 0; i < 4; i++) q.p[i] = c.p[i]; return q; }
static inline bool same(const Part& a, const Part& b) { for (int i = 0; i < 3; i++) if (a.x[i] != b.x[i]) return false; for (int i = 0; i < 4; i++) if (a.p[i] != b.p[i]) return false; return a.prev == b.prev && a.next == b.next && a.prio == b.prio && a.nr == b.nr; }
static inline void check_fresh(const P& p, const char* what) { PBT_CHECK(p.inlist == 0 && p.finaldecis == 1000000.f, "%s: tracking state inlist %d, finaldecis %g is not reset", what, p.inlist, p.finaldecis); for (int i = 0; i < POSI; i++) PBT_CHECK(p.decis[i] == 0 && p.linkdecis[i] == PT_UNUSED, "%s: link candidate %d is not reset", what, i); }
static inline std::string frame_name(const std::string& base, int frame) { return base + "." + std::to_string(frame); }
