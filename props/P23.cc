#include <functional>
#include "tracking.h"
// what a tracking run is told about the volume and its limits
static void check_setup(const Model& M, const tracking_run* t) { auto eq = [](double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)); }; PBT_CHECK(eq(M.xmin, t->xmin) && eq(M.xmax, t->xmax) && eq(M.ymin, t->ymin) && eq(M.ymax, t->ymax) && eq(M.zmin, t->zmin) && eq(M.zmax, t->zmax), "the run is bounded by x %g..%g y %g..%g z %g..%g, not by x %g..%g y %g..%g z %g..%g", t->xmin, t->xmax, t->ymin, t->ymax, t->zmin, t->zmax, M.xmin, M.xmax, M.ymin, M.ymax, M.zmin, M.zmax); PBT_CHECK(eq(M.lmax, t->lmax), "the largest displacement is taken as %g, not %g", t->lmax, M.lmax); }
// The decisions of the tracker on doubtful scenes, against the reference; a case with two values too near to tell apart is discarded.
PBT_SUB(model_forward, 12000, 400000) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); Store ex = S.st, out = S.st; Model M(S); M.forward(ex, false); if (M.close_call) s.discard(); { Runner R(S, out); check_setup(Model(S), R.tr); R.forward(); } int f0 = S.sp.first, f1 = S.sp.last; if (count_links(ex)) s.nontrivial(); if (count_parts(ex) > count_parts(S.st)) s.label("particles added");
  std::string e = diff(ex, out, f0, f1); if (!e.empty()) { s.note("\nexpected: %s\ngot: %s", show(ex).c_str(), show(out).c_str()); Store ex2 = S.st; Model M2(S); M2.forward(ex2, true); if (!diff(ex2, out, f0, f1).empty()) fail("forward: %s", e.c_str()); s.label("oldest frame not used"); } // see known_findings.txt: the reference knows both ends of a sequence
  for (int k = f0 + 1; k < f1; k++) for (auto& q : out[k].parts) if (q.prev >= 0 && q.next >= 0) s.label("chain of links");
}
PBT_SUB(model_backward, 12000, 400000) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); Store mid = S.st; { Runner R(S, mid); R.forward(); } double rate = s.one({.15, .4}); for (int k = S.sp.first; k < S.sp.last; k++) for (size_t h = 0; h < mid[k].parts.size(); h++) { int n = mid[k].parts[h].next; if (n >= 0 && s.u() < rate) { mid[k].parts[h].next = NEXT_NONE; mid[k + 1].parts[n].prev = PREV_NONE; } } if (s.b()) S.tp.add = 1; for (auto& f : mid) S.max_targets = std::max(S.max_targets, (int)f.second.parts.size());
  Store ex = mid, out = mid; Model M(S); M.backward(ex); if (M.close_call) s.discard(); { Runner R(S, out); check_setup(M, R.tr); R.backward(); } if (count_links(ex) > count_links(mid)) s.nontrivial(); if (count_parts(ex) > count_parts(mid)) s.label("particles added"); s.note("before: %s", show(mid).c_str()); s.note("\nexpected: %s\ngot: %s", show(ex).c_str(), show(out).c_str()); std::string e = diff(ex, out, S.sp.first, S.sp.last - 1); PBT_CHECK(e.empty(), "backward: %s", e.c_str()); PBT_CHECK(diff(mid, out, S.sp.last, S.sp.last).empty(), "backward: the last frame was changed");
  for (int k = S.sp.first + 1; k < S.sp.last; k++) for (size_t h = 0; h < out[k].parts.size(); h++) { auto& q = out[k].parts[h]; int before = h < mid[k].parts.size() ? mid[k].parts[h].prev : -1; if (q.prev < 0 || before >= 0 || q.next < 0) continue; V3 d = q.x - out[k - 1].parts[q.prev].x, a = out[k + 1].parts[q.next].x - q.x - d; PBT_CHECK(d[0] > S.tp.dvxmin && d[0] < S.tp.dvxmax && d[1] > S.tp.dvymin && d[1] < S.tp.dvymax && d[2] > S.tp.dvzmin && d[2] < S.tp.dvzmax && len(a) < S.tp.dacc * (1 + 1e-9), "frame %d: backward link moves by (%g,%g,%g) and accelerates by %g", k, d[0], d[1], d[2], len(a)); }
}
// Well separated particles on smooth paths
struct Path { V3 c, v, a, w; double om; V3 at(double t) const { return c + v * t + a * (t * t / 2) + w * sin(om * t); } };
struct Clear { Scene S; std::vector<Path> P; int F, N; double mag = 0; Clear(int n) : S(n) {} };
static void gen_clear(Src& s, Clear& C, bool steady) {
  Scene& S = C.S; RigSpec sp; sp.vr_lo = 8; sp.dist = .01; gen_rig(s, S.r, sp); int nc = S.r.n(), N = C.N = (int)s.i(1, 5), F = C.F = (int)s.i(4, 8); double vr = S.r.vr, sep = vr * s.r(.25, .6), D; S.sp.first = (int)s.i(1, 10000); S.sp.last = S.sp.first + F - 1; double T = (F - 1) / 2.;
  // pixels per unit length
  double per = 0; for (int c = 0; c < nc; c++) { double x, y, u, v; if (!ref_pixel(S.r, c, S.r.target, x, y)) s.discard(); for (int k = 0; k < 3; k++) { V3 q = S.r.target; q[k] += vr * .01; if (!ref_pixel(S.r, c, q, u, v)) s.discard(); per = std::max(per, std::hypot(u - x, v - y) / (vr * .01)); } } C.mag = per;
  V3 drift = v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (vr * .06 * s.u()); for (int k = 0; k < N; k++) { Path p; p.c = gen_in_ball(s, S.r.target, vr * .6); p.v = drift + v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (vr * .03 * s.u()); double acc = steady ? .8 / per : vr * .012; p.a = v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (acc * .5 * s.u()); p.om = s.r(.1, .6); p.w = steady ? v3(0, 0, 0) : v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (vr * .02); if (s.chance(1, 10)) { p.v = p.a = p.w = v3(0, 0, 0); s.label("particle at rest"); } C.P.push_back(p); }
  auto X = [&](int k, int f) { return C.P[k].at(f - T); };
  // the limits: what the paths need, and a margin
  double mv[3] = {0, 0, 0}, ma = 0, an = 0; bool slow = false; for (int k = 0; k < N; k++) for (int f = 0; f + 1 < F; f++) { V3 v = X(k, f + 1) - X(k, f); for (int i = 0; i < 3; i++) mv[i] = std::max(mv[i], fabs(v[i])); if (f + 2 < F) { V3 u = X(k, f + 2) - X(k, f + 1); ma = std::max(ma, len(u - v)); if (len(u) > 0 && len(v) > 0) an = std::max(an, atan2(len(cross(u, v)), dot(u, v)) * 200 / M_PI); if (f + 3 < F) { V3 w = X(k, f + 3) - X(k, f + 2); V3 pr = (u * 3 - v) * .5; ma = std::max(ma, len(w - pr)); for (int i = 0; i < 3; i++) mv[i] = std::max(mv[i], fabs(w[i] - pr[i])); if (len(w) > 0 && len(pr) > 0) an = std::max(an, atan2(len(cross(w, pr)), dot(w, pr)) * 200 / M_PI); } } }
  double fl = 4 / per; for (double& m : mv) m = std::max(m, fl) * s.r(1.3, 2); S.tp.dvxmin = -mv[0]; S.tp.dvxmax = mv[0]; S.tp.dvymin = -mv[1]; S.tp.dvymax = mv[1]; S.tp.dvzmin = -mv[2]; S.tp.dvzmax = mv[2]; S.tp.dacc = std::max(ma, .5 / per) * s.r(1.3, 2); S.tp.dangle = std::min(an * 1.3 + 2, 201.); if (an > 150) { S.tp.dangle = 30; S.tp.dacc = std::max(ma, .5 / per) * 10.5; } S.tp.add = s.b();
  D = 2 * len(v3(mv[0], mv[1], mv[2])) + 2 * S.tp.dacc; (void)sep; (void)slow;
  for (int j = 0; j < N; j++) for (int k = 0; k < j; k++) for (int f = 0; f < F; f++) for (int g = std::max(0, f - 1); g < std::min(F, f + 2); g++) if (len(X(j, f) - X(k, g)) < D) s.discard(); }
static void fill_clear(Src& s, Clear& C, std::function<int(int, int)> mode) {   // mode(k,f): 0 in the list, 1 only its images, 2 not at all
  Scene& S = C.S; int nc = S.r.n(); double T = (C.F - 1) / 2.; for (int f = 0; f < C.F; f++) { std::vector<int> o(C.N); for (int k = 0; k < C.N; k++) o[k] = k; for (int k = C.N - 1; k > 0; k--) std::swap(o[k], o[s.draw(k)]); std::vector<V3> p; std::vector<std::vector<Seen>> se; std::vector<int> in; std::vector<std::vector<std::array<double, 2>>> st(nc);
    for (int k = 0; k < C.N; k++) { V3 x = C.P[o[k]].at(f - T); std::vector<Seen> q(nc); for (int c = 0; c < nc; c++) { q[c].on = ref_pixel(S.r, c, x, q[c].x, q[c].y, 8) && mode(o[k], f) != 2; if (!q[c].on && mode(o[k], f) != 2) s.discard(); } p.push_back(x); se.push_back(q); in.push_back(mode(o[k], f) == 0); } TFrame t = make_frame(nc, p, se, in, st); for (auto& q : t.parts) q.truth = o[q.truth]; S.st[S.sp.first + f] = t; }
  S.max_targets = 20; s.note("%s; %s; %d frames from %d; %s", show(S.r).c_str(), show(S.tp).c_str(), C.F, S.sp.first, show(S.st).c_str()); }
PBT_SUB(follow, 10000, 300000) {
  Clear C((int)s.i(2, 4)); gen_clear(s, C, false); fill_clear(s, C, [](int, int) { return 0; }); Scene& S = C.S; Store out = S.st; { Runner R(S, out); R.forward(); if (s.b()) { s.label("and backward"); Runner B(S, out); B.backward(); } } s.nontrivial();
  for (int f = 0; f < C.F; f++) { auto &a = S.st[S.sp.first + f], &b = out[S.sp.first + f]; PBT_CHECK(b.parts.size() == a.parts.size(), "frame %d holds %zu instead of %zu particles", f, b.parts.size(), a.parts.size()); for (size_t h = 0; h < a.parts.size(); h++) { int k = a.parts[h].truth, n = b.parts[h].next; if (f == C.F - 1) { PBT_CHECK(n == NEXT_NONE, "a particle of the last frame continues as %d", n); continue; } int t = n < 0 ? -1 : S.st[S.sp.first + f + 1].parts[n].truth; PBT_CHECK(t == k, "path %d is continued after its %d. position %s", k, f + 1, n < 0 ? "nowhere" : ("as path " + std::to_string(t)).c_str()); } }
}
// One particle of the list is missing in a frame although its images are there
PBT_SUB(recreate, 10000, 300000) {
  Clear C((int)s.i(2, 4)); gen_clear(s, C, true); int k0 = (int)s.draw(C.N - 1), f0 = (int)s.i(2, C.F - 2), run = (int)s.i(1, std::min(2, C.F - 1 - f0)); fill_clear(s, C, [&](int k, int f) { return k == k0 && f >= f0 && f < f0 + run ? 1 : 0; }); Scene& S = C.S; V3 X[2] = {C.P[k0].at(f0 - (C.F - 1) / 2.), C.P[k0].at(f0 + 1 - (C.F - 1) / 2.)};
  Model M(S); for (int q = 0; q < run; q++) { if (!M.inside(X[q])) s.discard(); for (int c = 0; c < S.r.n(); c++) { double x, y; ref_pixel(S.r, c, X[q], x, y); for (int k = 0; k < C.N; k++) if (k != k0) { double u, v; ref_pixel(S.r, c, C.P[k].at(f0 + q - (C.F - 1) / 2.), u, v); if (std::hypot(u - x, v - y) < 8) s.discard(); } } } s.note("path %d has no particle at its %d. position%s", k0, f0 + 1, run > 1 ? " and the next" : "");
  Store out = S.st; { Runner R(S, out); check_setup(Model(S), R.tr); R.forward(); } s.nontrivial(); int b0 = S.sp.first; double tol = 0; for (auto& c : S.r.cal) tol = std::max(tol, 2e-5 * len(campos(c) - S.r.target)); tol = 2e-3 + 10 * tol;
  for (int f = 0; f < C.F; f++) { size_t n = S.st[b0 + f].parts.size(), m = out[b0 + f].parts.size(); bool hole = f >= f0 && f < f0 + run; if (!hole || !S.tp.add) { PBT_CHECK(m == n, "frame %d holds %zu instead of %zu particles (addition %s)", f, m, n, S.tp.add ? "on" : "off"); continue; } PBT_CHECK(m == n + 1, "frame %d: missing particle is not recreated, %zu particles instead of %zu", f, m, n + 1); V3 x = out[b0 + f].parts[n].x; PBT_CHECK(len(x - X[f - f0]) < tol, "frame %d: particle (%.7g,%.7g,%.7g) is recreated at (%.7g,%.7g,%.7g)", f, X[f - f0][0], X[f - f0][1], X[f - f0][2], x[0], x[1], x[2]); s.label("recreated"); }
  if (!S.tp.add) return; int h = -1; for (size_t j = 0; j < S.st[b0].parts.size(); j++) if (S.st[b0].parts[j].truth == k0) h = (int)j; for (int f = 0; f + 1 < C.F; f++) { int n = out[b0 + f].parts[h].next; PBT_CHECK(n >= 0, "path with a recreated particle ends at its %d. position", f + 1); bool hole = f + 1 >= f0 && f + 1 < f0 + run; auto& a = S.st[b0 + f + 1]; PBT_CHECK(hole ? n == (int)a.parts.size() : n < (int)a.parts.size() && a.parts[n].truth == k0, "path continues wrongly after its %d. position", f + 1); h = n; }
}
