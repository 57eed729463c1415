#include "common.h"
extern "C" {
#include "orientation.h"
}
static V3 angles(const Calibration& c) { return v3(c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa); }
static bool refr(const Rig& r) { return r.cp.mm.n1 != r.cp.mm.n3 || r.cp.mm.n2[0] != r.cp.mm.n1; }
static bool in_general_position(const Rig& r, const std::vector<V3>& P) { double m = .5 * r.vr; for (size_t b = 1; b < P.size(); b++) { V3 e = P[b] - P[0]; if (len(e) < m) continue; for (size_t c = 1; c < P.size(); c++) { V3 n = cross(e, P[c] - P[0]); if (len(n) < m * len(e)) continue; for (auto& q : P) if (fabs(dot(n, q - P[0])) > m * len(n)) return true; } } return false; }


static std::string scene(Src& s, double rel, double ang, bool with_noise) {
  Rig r(1); RigSpec sp; sp.dist = 0; sp.vr_lo = 10; gen_rig(s, r, sp); Calibration truth = r.cal[0]; int n = s.b() ? 4 : (int)s.i(4, 14);
  std::vector<V3> P; std::vector<target> pix; double x, y; for (int tries = 0; P.empty() || !in_general_position(r, P); tries++) { if (tries == 8) s.discard(); P.clear(); pix.clear(); for (int i = 0; i < n; i++) { V3 p; for (int t = 0;; t++) { if (t == 20) s.discard(); p = gen_in_ball(s, r.target, r.vr * .95); if (ref_pixel(r, 0, p, x, y, 0)) break; } P.push_back(p); target q; memset(&q, 0x55, sizeof q); q.x = x; q.y = y; q.pnr = s.one({i, i + 1, -999}); pix.push_back(q); } }
  double D = len(campos(truth) - r.target); double noise = with_noise ? s.one({.02, .1, .3}) : 0; for (auto& p : pix) { p.x += s.r0(-noise, noise); p.y += s.r0(-noise, noise); }
  Calibration cal = truth; for (double* p : {&cal.ext_par.x0, &cal.ext_par.y0, &cal.ext_par.z0}) *p += s.r0(-rel, rel) * D; for (double* p : {&cal.ext_par.omega, &cal.ext_par.phi, &cal.ext_par.kappa}) *p += s.r0(-ang, ang); rotation_matrix(&cal.ext_par); cal.added_par = gen_ap(s, 10, .02); s.nontrivial();
  s.note("%s; %d points, noise %g; start %s; ", show(r).c_str(), n, noise, show(cal).c_str()); Calibration start = cal; auto P0 = P; auto pix0 = pix; control_par cp0 = r.cp.c; mm_np mm0 = r.cp.mm;
  int ok = raw_orient(&cal, &r.cp.c, n, (vec3d*)P.data(), pix.data());
  PBT_CHECK(P == P0 && !memcmp(pix.data(), pix0.data(), n * sizeof(target)) && !memcmp(&cp0, &r.cp.c, sizeof cp0) && !memcmp(&mm0, &r.cp.mm, sizeof mm0), "raw_orient() changed its inputs");
  PBT_CHECK(!memcmp(&cal.int_par, &start.int_par, sizeof cal.int_par) && !memcmp(&cal.glass_par, &start.glass_par, sizeof cal.glass_par) && cal.mmlut.data == start.mmlut.data, "raw_orient() changed more than the exterior parameters: %s", show(cal).c_str());
  ap_52& a = cal.added_par; PBT_CHECK(a.k1 == 0 && a.k2 == 0 && a.k3 == 0 && a.p1 == 0 && a.p2 == 0 && a.scx == 1 && a.she == 0, "raw orientation knows no distortion, but leaves %s", show(cal).c_str());
  if (!ok) return "no convergence";
  M3 m = ref_rotation(cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PBT_CHECK(close(cal.ext_par.dm[i][j], (double)m.m[i][j], 1e-10), "rotation matrix does not belong to the new angles");
  double w = 0, JR = 0, JT = 0; for (int i = 0; i < n; i++) { double ax, ay, bx, by, mx, my; if (!ref_project(P[i], &cal, &r.cp.mm, ax, ay) || !ref_project(P[i], &truth, &r.cp.mm, bx, by)) return "points behind the camera"; w = std::max(w, hypot(ax - bx, ay - by)); pixel_to_metric(&mx, &my, pix[i].x, pix[i].y, &r.cp.c); ax += cal.int_par.xh; ay += cal.int_par.yh; bx += truth.int_par.xh; by += truth.int_par.yh; JR += (ax-mx)*(ax-mx) + (ay-my)*(ay-my); JT += (bx-mx)*(bx-mx) + (by-my)*(by-my); }
  double sc = truth.int_par.cc / D, dp = len(campos(cal) - campos(truth)), da = len(angles(cal) - angles(truth)), tol = 5e-3; char b[300];
  if (!(JR <= 1.05 * JT + 2 * n * tol * tol * sc * sc)) { snprintf(b, 300, "sum of squares of residuals %g with the orientation found, %g with the true one", JR, JT); return b; }
  if (!noise && !(w < tol * sc && dp < 3e-4 * D && da < 3e-4)) { snprintf(b, 300, "camera found at (%.9g,%.9g,%.9g), %g from its place and %g rad off, images off by %g mm", cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0, dp, da, w); return b; }
  return "";
}
// the granularity of ray tracing may stop the iteration early in rare cases: must not happen for two of three
static void three(Src& s, double rel, double ang, bool noise) { int bad = 0; std::string last; for (int k = 0; k < 3; k++) { std::string e = scene(s, rel, ang, noise); s.note("-> %s; ", e.empty() ? "found" : e.c_str()); if (!e.empty()) { bad++; last = e; s.label("miss"); } } PBT_CHECK(bad < 2, "%d of three orientations not found: %s", bad, last.c_str()); }
PBT_SUB(near, 15000, 500000) { three(s, .03, .05, false); }
PBT_SUB(noisy, 8000, 300000) { three(s, .03, .05, true); }
PBT_SUB(far, 8000, 300000) { three(s, .2, .3, false); }

// starts that are really far: wherever the plain iteration, worked out here, finds the pose, so must the library
static int plain(const Rig& r, const Calibration& start, const Calibration& truth, const std::vector<V3>& P, double D) {
  Calibration c = start; double* v[] = {&c.ext_par.x0, &c.ext_par.y0, &c.ext_par.z0, &c.ext_par.omega, &c.ext_par.phi, &c.ext_par.kappa}; int n = (int)P.size();
  auto images = [&](const Calibration& k, std::vector<double>& o) { Calibration q = k; M3 m = ref_rotation(q.ext_par.omega, q.ext_par.phi, q.ext_par.kappa); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q.ext_par.dm[i][j] = (double)m.m[i][j]; o.clear(); for (auto& p : P) { double a, b; if (!ref_project(p, &q, &r.cp.mm, a, b)) return false; o.push_back(a); o.push_back(b); } return true; };
  std::vector<double> want, now, st; if (!images(truth, want)) return 0;
  for (int it = 1; it <= 13; it++) {
    if (!images(c, now)) return 0; std::vector<std::vector<double>> J; for (int k = 0; k < 6; k++) { double h = k < 3 ? 1e-5 * D : 1e-5, o = *v[k]; *v[k] = o + h; bool ok = images(c, st); *v[k] = o; if (!ok) return 0; for (int i = 0; i < 2 * n; i++) st[i] = (st[i] - now[i]) / h * (k < 3 ? D : 1); J.push_back(st); }
    double A[6][7]; for (int a = 0; a < 6; a++) { for (int b = 0; b < 6; b++) { A[a][b] = 0; for (int i = 0; i < 2 * n; i++) A[a][b] += J[a][i] * J[b][i]; } A[a][6] = 0; for (int i = 0; i < 2 * n; i++) A[a][6] += J[a][i] * (want[i] - now[i]); }
    double big = 0; for (int a = 0; a < 6; a++) big = std::max(big, A[a][a]); for (int a = 0; a < 6; a++) { int p = a; for (int b = a; b < 6; b++) if (fabs(A[b][a]) > fabs(A[p][a])) p = b; if (!(fabs(A[p][a]) > 1e-7 * big)) return 0; std::swap(A[a], A[p]); for (int b = 0; b < 6; b++) if (b != a) { double f = A[b][a] / A[a][a]; for (int k = a; k < 7; k++) A[b][k] -= f * A[a][k]; } }
    double m = 0; for (int a = 0; a < 6; a++) { double d = A[a][6] / A[a][a]; if (!(fabs(d) < (a < 3 ? 2 : 1.2))) return 0; *v[a] += d * (a < 3 ? D : 1); m = std::max(m, fabs(d)); }
    if (m < 1e-6) return len(campos(c) - campos(truth)) < 1e-4 * D && len(angles(c) - angles(truth)) < 1e-4 ? it : 0; }
  return 0; }
PBT_SUB(farther, 6000, 200000) {
  int bad = 0, tried = 0, most = 0; std::string last;
  for (int k = 0; k < 8 && tried < 3; k++) {
    Rig r(1); RigSpec sp; sp.dist = 0; sp.vr_lo = 10; gen_rig(s, r, sp); Calibration truth = r.cal[0]; int n = (int)s.i(4, 10); std::vector<V3> P; std::vector<target> pix; double x, y;
    for (int i = 0; i < n; i++) { V3 p; int t = 0; for (; t < 20; t++) { p = gen_in_ball(s, r.target, r.vr * .95); if (ref_pixel(r, 0, p, x, y, 0)) break; } if (t == 20) break; P.push_back(p); target q; memset(&q, 0, sizeof q); q.x = x; q.y = y; q.pnr = i; pix.push_back(q); }
    if ((int)P.size() < n || !in_general_position(r, P)) continue; double D = len(campos(truth) - r.target), rel = s.r(.2, .8), ang = s.r(.2, .9); Calibration cal = truth, other; for (double* p : {&cal.ext_par.x0, &cal.ext_par.y0, &cal.ext_par.z0}) *p += s.r0(-rel, rel) * D; for (double* p : {&cal.ext_par.omega, &cal.ext_par.phi, &cal.ext_par.kappa}) *p += s.r0(-ang, ang); rotation_matrix(&cal.ext_par);
    other = cal; other.ext_par.x0 += 2e-3 * D; other.ext_par.phi -= 2e-3; other.ext_par.kappa += 2e-3; int it = plain(r, cal, truth, P, D), it2 = it ? plain(r, other, truth, P, D) : 0; if (!it2) { s.label("the iteration does not get there"); continue; }
    tried++; most = std::max(most, it); s.label("takes " + std::to_string(it)); s.note("%s; %d points; start %s; the iteration takes %d steps; ", show(r).c_str(), n, show(cal).c_str(), it);
    int ok = raw_orient(&cal, &r.cp.c, n, (vec3d*)P.data(), pix.data()); double dp = len(campos(cal) - campos(truth)), da = len(angles(cal) - angles(truth)); char b[300]; b[0] = 0; if (!ok) snprintf(b, 300, "no convergence"); else if (!(dp < 3e-3 * D && da < 3e-3)) snprintf(b, 300, "camera found at (%.9g,%.9g,%.9g), %g from its place and %g rad off", cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0, dp, da);
    s.note("-> %s; ", b[0] ? b : "found"); if (b[0]) { bad++; last = b; s.label("miss"); } }
  if (!tried) s.discard(); s.nontrivial(); PBT_CHECK(bad < 2, "%d of %d orientations that the plain iteration finds in at most %d steps not found: %s", bad, tried, most, last.c_str());
}

// what cannot be oriented does not give an undefined camera
PBT_SUB(degenerate, 15000, 300000) {
  Rig r(1); RigSpec sp; sp.dist = 0; gen_rig(s, r, sp); int kind = (int)s.draw(2), n = kind == 0 ? (int)s.i(0, 2) : (int)s.i(3, 12); std::vector<V3> P(n); std::vector<target> pix(n); V3 p = gen_in_ball(s, r.target, r.vr * .9), q = gen_in_ball(s, r.target, r.vr * .9);
  for (int i = 0; i < n; i++) { P[i] = kind == 0 ? gen_in_ball(s, r.target, r.vr * .9) : kind == 1 ? p : p + (q - p) * (i / (double)n); memset(&pix[i], 0, sizeof pix[i]); pix[i].pnr = i; if (!ref_pixel(r, 0, P[i], pix[i].x, pix[i].y)) s.discard(); if (s.chance(1, 4)) pix[i].x += s.r0(-5, 5); }
  s.label(kind == 0 ? "few points" : kind == 1 ? "one place" : "a line"); s.nontrivial(); s.note("%s; %d points", show(r).c_str(), n); Calibration cal = r.cal[0], start = cal; int ok = raw_orient(&cal, &r.cp.c, n, (vec3d*)P.data(), pix.data()); s.label(ok ? "result" : "no result");
  if (ok) PBT_CHECK(std::isfinite(len(campos(cal))) && std::isfinite(len(angles(cal))), "success reported with the undefined camera %s", show(cal).c_str());
  PBT_CHECK(!memcmp(&cal.int_par, &start.int_par, sizeof cal.int_par) && !memcmp(&cal.glass_par, &start.glass_par, sizeof cal.glass_par), "raw_orient() changed more than the exterior parameters: %s", show(cal).c_str());
}
