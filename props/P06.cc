#include "common.h"
extern "C" {
#include "orientation.h"
}
static double midpoint(const V3& p, const V3& d, const V3& q, const V3& e, V3& m) { // closest points of two lines, by solving the 2x2 system
  LD a = dot(d, d), b = dot(d, e), c = dot(e, e); V3 w = p - q; LD f = dot(d, w), g = dot(e, w), det = a * c - b * b; LD s1 = (b * g - c * f) / det, s2 = (a * g - b * f) / det;
  V3 x = p + d * (double)s1, y = q + e * (double)s2; m = (x + y) * .5; return len(x - y); }
static double rays(const Rig& r, const std::vector<std::array<double, 2>>& t, V3& mean, double& cond, double& sc) {
  int n = r.n(); std::vector<V3> X(n), d(n); std::vector<bool> ok(n); cond = 1; sc = 1; for (int k = 0; k < n; k++) { ok[k] = t[k][0] != COORD_UNUSED; if (ok[k]) { if (!ref_ray(t[k][0], t[k][1], &r.cal[k], &r.cp.mm, X[k], d[k])) return -1; sc = std::max(sc, len(X[k]) + len(campos(r.cal[k]))); } }
  double tot = 0; int np = 0; mean = v3(0, 0, 0); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (ok[i] && ok[j]) { V3 m; tot += midpoint(X[i], d[i], X[j], d[j], m); mean = mean + m; np++; cond = std::min(cond, len(cross(d[i], d[j]))); sc = std::max(sc, len(m)); }
  if (!np) return -1; mean = mean * (1. / np); return tot / np; }
static std::vector<std::array<double, 2>> pack(const std::vector<std::array<double, 2>>& t) { return t; }

PBT_SUB(exact, 300000, 10000000) {
  Rig r((int)s.i(2, 4)); RigSpec sp; sp.mintilt_sep = .08; gen_rig(s, r, sp); V3 P = gen_in_ball(s, r.target, r.vr * .95); int n = r.n();
  std::vector<std::array<double, 2>> t(n); int seen = 0; for (int k = 0; k < n; k++) { double x, y, sa; if (s.chance(1, 4) && n - k + seen > 2) { t[k] = {COORD_UNUSED, COORD_UNUSED}; if (s.b()) t[k][1] = s.r0(-1, 1); continue; } if (!ref_project(P, &r.cal[k], &r.cp.mm, x, y, &sa) || sa > .8) s.discard(); t[k] = {x, y}; seen++; }
  if (seen < 2) s.discard(); if (seen < n) s.label("unseen camera"); char b[30]; snprintf(b, 30, "cams:%d seen:%d", n, seen); s.label(b); s.nontrivial();
  s.note("%s; P=(%.12g,%.12g,%.12g) seen %d", show(r).c_str(), P[0], P[1], P[2], seen);
  V3 m; double cond, sc; if (rays(r, t, m, cond, sc) < 0) s.discard();
  vec3d res = {7e7, 7e7, 7e7}; double d = point_position((vec2d*)t.data(), n, &r.cp.mm, r.cals.data(), res); double tol = 1e-7 * sc / cond / cond;
  PBT_CHECK(d >= 0 && d < tol && len(v3(res[0], res[1], res[2]) - P) < tol, "point (%.9g,%.9g,%.9g) triangulated from %d exact images as (%.9g,%.9g,%.9g), error %g, reported ray distance %g", P[0], P[1], P[2], seen, res[0], res[1], res[2], len(v3(res[0], res[1], res[2]) - P), d);
}
PBT_SUB(noisy, 300000, 10000000) {
  Rig r((int)s.i(2, 4)); RigSpec sp; gen_rig(s, r, sp); int n = r.n(); std::vector<std::array<double, 2>> t(n); int seen = 0;
  V3 P = gen_in_ball(s, r.target, r.vr); double noise = s.one({0., 1e-3, .05, .3});
  for (int k = 0; k < n; k++) { if (s.chance(1, 5)) { t[k] = {COORD_UNUSED, COORD_UNUSED}; continue; } double x, y; if (!ref_project(P, &r.cal[k], &r.cp.mm, x, y)) s.discard(); double h = r.cp.c.imx * r.cp.c.pix_x; t[k] = {x + s.r0(-noise, noise) * h, y + s.r0(-noise, noise) * h}; seen++; }
  if (seen < 2) s.discard(); V3 m; double cond, sc, e = rays(r, t, m, cond, sc); if (e < 0 || cond < .02) s.discard(); if (noise > 0) s.nontrivial(); s.note("%s; noise %g, %d see; ", show(r).c_str(), noise, seen); for (auto& q : t) s.note(" (%.9g,%.9g)", q[0], q[1]);
  double tol = 3e-7 * sc / cond / cond; vec3d res = {7e7, 7e7, 7e7}; auto keep = t; auto kc = r.cal; double d = point_position((vec2d*)t.data(), n, &r.cp.mm, r.cals.data(), res);
  PBT_CHECK(close(d, e, tol) && len(v3(res[0], res[1], res[2]) - m) < tol, "mean of midpoints (%.9g,%.9g,%.9g) distance %.9g, got (%.9g,%.9g,%.9g) distance %.9g", m[0], m[1], m[2], e, res[0], res[1], res[2], d);
  PBT_CHECK(keep == t && !memcmp(kc.data(), r.cal.data(), sizeof(Calibration) * n), "triangulation changed its inputs");
  // camera order is irrelevant
  std::vector<int> o(n); for (int k = 0; k < n; k++) o[k] = k; for (int k = n - 1; k > 0; k--) std::swap(o[k], o[s.draw(k)]); std::vector<std::array<double, 2>> t2(n); std::vector<Calibration*> c2(n); for (int k = 0; k < n; k++) { t2[k] = t[o[k]]; c2[k] = r.cals[o[k]]; }
  vec3d r2 = {7e7, 7e7, 7e7}; double d2 = point_position((vec2d*)t2.data(), n, &r.cp.mm, c2.data(), r2); PBT_CHECK(close(d, d2, tol) && len(v3(res[0], res[1], res[2]) - v3(r2[0], r2[1], r2[2])) < tol, "permuting the cameras moves the result to (%.9g,%.9g,%.9g) distance %.9g", r2[0], r2[1], r2[2], d2);
}
PBT_SUB(skew, 600000, 20000000) {
  V3 p = v3(s.rs(-100, 100), s.rs(-100, 100), s.rs(-100, 100)), q = v3(s.rs(-100, 100), s.rs(-100, 100), s.rs(-100, 100)), d = v3(s.rs(-1, 1), s.rs(-1, 1), s.rs(-1, 1)), e = v3(s.rs(-1, 1), s.rs(-1, 1), s.rs(-1, 1)); if (len(d) < .01 || len(e) < .01) s.discard(); d = unit(d); e = unit(e); if (len(cross(d, e)) < .02) s.discard();
  if (s.chance(1, 6)) { q = p + d * s.r0(-50, 50) - e * s.r0(-50, 50); s.label("meeting lines"); } s.nontrivial(); s.note("(%g,%g,%g)+(%g,%g,%g)t and (%g,%g,%g)+(%g,%g,%g)t", p[0], p[1], p[2], d[0], d[1], d[2], q[0], q[1], q[2], e[0], e[1], e[2]);
  V3 m; double x = midpoint(p, d, q, e, m), cd = len(cross(d, e)); vec3d res = {7e7, 7e7, 7e7}; double y = skew_midpoint(p.data(), d.data(), q.data(), e.data(), res); double tol = 1e-9 * (len(p) + len(q) + 1) / cd / cd;
  PBT_CHECK(close(x, y, tol) && len(m - v3(res[0], res[1], res[2])) < tol, "midpoint (%.9g,%.9g,%.9g) distance %.9g, got (%.9g,%.9g,%.9g) distance %.9g", m[0], m[1], m[2], x, res[0], res[1], res[2], y);
}
PBT_SUB(dumbbell, 60000, 1000000) {
  Rig r((int)s.i(2, 4)); RigSpec sp; gen_rig(s, r, sp); int n = r.n(), np = 2 * (int)s.i(1, 4), L = (int)s.i(1, 60); double w = s.b() ? s.r(0, 5) : 1; std::vector<std::vector<std::array<double, 2>>> T(np, std::vector<std::array<double, 2>>(n)); double dt = 0, lt = 0, tol = 0; V3 prev;
  for (int i = 0; i < np; i++) { V3 P = gen_in_ball(s, r.target, r.vr); int seen = 0; for (int k = 0; k < n; k++) { double x, y; if (!ref_project(P, &r.cal[k], &r.cp.mm, x, y)) s.discard(); double h = .01 * r.cp.c.imx * r.cp.c.pix_x; if (n - k + seen > 2 && s.chance(1, 8)) { T[i][k] = {COORD_UNUSED, COORD_UNUSED}; continue; } seen++; T[i][k] = {x + s.r0(-h, h), y + s.r0(-h, h)}; }
    V3 m; double cond, sc, e = rays(r, T[i], m, cond, sc); if (e < 0 || cond < .02) s.discard(); tol += 1e-6 * sc / cond / cond * (1 + w); dt += e; if (i & 1) { double D = len(m - prev); lt += 1 - (D > L ? L / D : D / L); } prev = m; }
  s.nontrivial(); s.note("%s; %d targets, length %d, weight %g", show(r).c_str(), np, L, w); std::vector<vec2d*> tp; for (auto& t : T) tp.push_back((vec2d*)t.data());
  double got = weighted_dumbbell_precision(tp.data(), np, n, &r.cp.mm, r.cals.data(), L, w), e = dt / np + w * lt / (.5 * np); PBT_CHECK(close(got, e, tol), "weighted precision %.9g, expected %.9g (%d targets, length %d, weight %g)", got, e, np, L, w);
}
