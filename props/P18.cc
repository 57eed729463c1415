#include "common.h"
extern "C" {
#include "orientation.h"
}
struct Scene { std::shared_ptr<Rig> rp; std::vector<V3> P; std::vector<target> pix; Calibration truth; Scene() : rp(new Rig(1)) {} };
static V3 angles(const Calibration& c) { return v3(c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa); }
static void gen_scene(Src& s, Scene& c, int minpts, double dist, double maxtilt = .6) {
  RigSpec sp; sp.dist = dist; sp.maxtilt = maxtilt; sp.vr_lo = 10; sp.vr_hi = 60; gen_rig(s, *c.rp, sp); c.truth = c.rp->cal[0]; int n = (int)s.i(minpts, 40); double x, y;
  for (int i = 0; i < n; i++) { V3 P; for (int t = 0;; t++) { if (t == 20) s.discard(); P = gen_in_ball(s, c.rp->target, c.rp->vr * .95); if (ref_pixel(*c.rp, 0, P, x, y, 0)) break; } c.P.push_back(P); target q; memset(&q, 0, sizeof q); q.x = x; q.y = y; q.pnr = i; c.pix.push_back(q); }
}
// points that fix a camera: two of them well apart, a third off their line, a fourth off their plane (among those used)
static bool spread(const Scene& c, const std::vector<int>& id) { if (id.size() < 4) return false; double m = .5 * c.rp->vr; int a = id[0], b = -1, d = -1; for (int i : id) { V3 w = c.P[i] - c.P[a]; if (b < 0) { if (len(w) > m) b = i; continue; } V3 e = c.P[b] - c.P[a]; if (d < 0) { if (len(cross(e, w)) > m * len(e)) d = i; continue; } V3 n = cross(e, c.P[d] - c.P[a]); if (fabs(dot(n, w)) > m * len(n)) return true; } return false; }
static double* params(Calibration& c, int k) { double* p[] = {&c.ext_par.x0, &c.ext_par.y0, &c.ext_par.z0, &c.ext_par.omega, &c.ext_par.phi, &c.ext_par.kappa, &c.int_par.cc, &c.int_par.xh, &c.int_par.yh, &c.added_par.k1, &c.added_par.k2, &c.added_par.k3, &c.added_par.p1, &c.added_par.p2, &c.added_par.scx, &c.added_par.she}; return p[k]; }
static int* flag(orient_par& f, int k) { int* p[] = {&f.ccflag, &f.xhflag, &f.yhflag, &f.k1flag, &f.k2flag, &f.k3flag, &f.p1flag, &f.p2flag, &f.scxflag, &f.sheflag}; return p[k]; }
// metric residuals (reference projection minus detection) of a calibration at point i
static bool residual(const Scene& c, const Calibration& cal, int i, double& rx, double& ry) {
  double fx, fy; if (!ref_project(c.P[i], &cal, &c.rp->cp.mm, fx, fy)) return false; LD dx, dy; ref_distort(fx + cal.int_par.xh, fy + cal.int_par.yh, cal.added_par, dx, dy);
  double mx, my; pixel_to_metric(&mx, &my, c.pix[i].x, c.pix[i].y, (control_par*)&c.rp->cp.c); rx = (double)dx - mx; ry = (double)dy - my; return true; }
static double residual_r(const Scene& c, int i) { double mx, my; pixel_to_metric(&mx, &my, c.pix[i].x, c.pix[i].y, (control_par*)&c.rp->cp.c); return std::hypot(mx, my); }
static bool used(const Scene& c, const orient_par& f, int i) { if (c.pix[i].pnr != i) return false; if (f.useflag == 1) return i % 2; if (f.useflag == 2) return i % 2 == 0; if (f.useflag == 3) return i % 3; return true; }
static double objective(const Scene& c, const Calibration& cal, const Calibration& start, const orient_par& f, double* obs = nullptr, double* worst = nullptr) {
  double o = 0, w = 0; for (size_t i = 0; i < c.P.size(); i++) { double x, y; if (!used(c, f, i)) continue; if (!residual(c, cal, i, x, y)) return INFINITY; o += x * x + y * y; w = std::max(w, std::hypot(x, y)); } if (obs) *obs = o; if (worst) *worst = w;
  for (int k = 6; k < 16; k++) { double d = *params((Calibration&)cal, k) - *params((Calibration&)start, k); o += d * d; } return o; }
static void perturb(Src& s, Calibration& c, double D, double rel, double ang) { for (int k = 0; k < 3; k++) *params(c, k) += s.r0(-rel, rel) * D; for (int k = 3; k < 6; k++) *params(c, k) += s.r0(-ang, ang); rotation_matrix(&c.ext_par); }
static std::string show(orient_par& f) { std::string o = "flags use=" + std::to_string(f.useflag) + " "; const char* n[] = {"cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scx", "she"}; for (int k = 0; k < 10; k++) if (*flag(f, k)) o += std::string(n[k]) + " "; if (f.interfflag) o += "interf"; return o; }


static void gen_flags(Src& s, orient_par& f, int mode) { memset(&f, 0, sizeof f); if (mode) for (int k = 0; k < 10; k++) *flag(f, k) = mode == 2 ? s.b() : s.chance(1, 6); f.useflag = s.chance(1, 3) ? s.i(1, 3) : 0; }
static int mask(Src& s, Scene& c, const orient_par& f) { int nu = 0; std::vector<int> id; for (size_t i = 0; i < c.P.size(); i++) { if (s.chance(1, 12)) { c.pix[i].pnr = s.one({-999, -1, (int)i + 1}); s.label("unpaired point"); } if (used(c, f, i)) { nu++; id.push_back(i); } } if (!spread(c, id)) s.discard(); if (f.useflag) s.label("every other point"); return nu; }
struct Run { Calibration cal; std::vector<double> sig; std::vector<double> res; bool ok; };
// exact-size inputs; the residuals are copied as far as the interface promises them
static Run call(const Scene& c, const Calibration& start, const orient_par& f) {
  Run o; o.cal = start; o.sig.assign(20, 7e7); orient_par ff = f; auto P = c.P; auto pix = c.pix; control_par cp = c.rp->cp.c; mm_np mm = c.rp->cp.mm;
  double* r = orient(&o.cal, (control_par*)&c.rp->cp.c, (int)c.P.size(), (vec3d*)P.data(), pix.data(), &ff, o.sig.data()); o.ok = r != nullptr; if (r) { o.res.assign(r, r + 2 * c.P.size() + 10); free(r); }
  PBT_CHECK(P == c.P && !memcmp(pix.data(), c.pix.data(), pix.size() * sizeof(target)) && !memcmp(&ff, &f, sizeof f) && !memcmp(&cp, &c.rp->cp.c, sizeof cp) && !memcmp(&mm, &c.rp->cp.mm, sizeof mm), "orient() changed its inputs");
  if (!o.ok) PBT_CHECK(!memcmp(&o.cal, &start, sizeof start), "orient() failed, but the calibration was changed to %s", show(o.cal).c_str());
  return o; }
static void check_kept(const Calibration& cal, const Calibration& start, orient_par& f) {
  for (int k = 6; k < 16; k++) if (!*flag(f, k - 6)) PBT_CHECK(*params((Calibration&)cal, k) == *params((Calibration&)start, k), "parameter %d is not to be changed (flag 0), went from %.17g to %.17g", k, *params((Calibration&)start, k), *params((Calibration&)cal, k));
  if (!f.interfflag) PBT_CHECK(!memcmp(&cal.glass_par, &start.glass_par, sizeof cal.glass_par), "glass vector changed without its flag"); 
  PBT_CHECK(cal.mmlut.data == start.mmlut.data, "refraction table changed");
  M3 m = ref_rotation(cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PBT_CHECK(close(cal.ext_par.dm[i][j], (double)m.m[i][j], 1e-10), "rotation matrix does not belong to the new angles"); }
static bool refr(const Scene& c) { return c.rp->cp.mm.n1 != c.rp->cp.mm.n3 || c.rp->cp.mm.n2[0] != c.rp->cp.mm.n1; }

static std::string exterior_scene(Src& s) {
  Scene c; gen_scene(s, c, 12, s.one({0., .01, .03})); orient_par f; gen_flags(s, f, (int)s.draw(2)); int nu = mask(s, c, f); if (nu < 8) s.discard();
  double D = len(campos(c.truth) - c.rp->target); Calibration start = c.truth; perturb(s, start, D, .02, .02); s.nontrivial();
  s.note("%s; %zu points %d used; %s; start %s", show(*c.rp).c_str(), c.P.size(), nu, show(f).c_str(), show(start).c_str());
  Run a = call(c, start, f); if (!a.ok && f.k1flag + f.k2flag + f.k3flag > 1) { s.label("no convergence"); return ""; } if (!a.ok && refr(c)) { s.label("stalled"); return "no convergence"; } PBT_CHECK(a.ok, "orientation from %d exact points does not converge", nu); check_kept(a.cal, start, f);
  auto off = [&](const Run& q) { double worst; objective(c, q.cal, start, f, nullptr, &worst); double dp = len(campos(q.cal) - campos(c.truth)), da = len(angles(q.cal) - angles(c.truth)), tol = refr(c) ? 1e-3 : 1e-4; char b[400]; snprintf(b, 400, "points are imaged %g mm away from their detections, the camera is at (%.9g,%.9g,%.9g), %g from its place, %g rad off", worst, q.cal.ext_par.x0, q.cal.ext_par.y0, q.cal.ext_par.z0, dp, da);
    return worst * D / c.truth.int_par.cc < 2 * tol && dp < tol * D / 4 && da < tol ? std::string() : std::string(b); };
  std::string bad = off(a);
  if (!bad.empty() && refr(c)) { s.label("stalled"); return bad; }
  PBT_CHECK(bad.empty(), "after calibration %s", bad.c_str());
  for (double x : a.sig) PBT_CHECK(x >= 0 && std::isfinite(x), "deviation %g", x); 
  // points that take no part have no influence
  if (s.b()) { Scene d = c; bool any = false; for (size_t i = 0; i < d.P.size(); i++) if (!used(c, f, i)) { any = true; d.pix[i].x = s.r(-1e3, 3e3); d.pix[i].y = s.r(-1e3, 3e3); d.P[i] = d.P[i] + v3(s.r(-50, 50), s.r(-50, 50), s.r(-50, 50)); d.pix[i].n = 3; }
    if (any) { s.label("changed unused points"); Run b = call(d, start, f); PBT_CHECK(b.ok && !memcmp(&a.cal, &b.cal, sizeof a.cal) && !memcmp(a.res.data(), b.res.data(), sizeof(double) * (2 * nu + 10)), "points that are not to be used change the result: %s", show(b.cal).c_str()); } }
  return "";
}
// (with refraction, the granularity of ray tracing may in rare cases spoil the numeric derivatives: must not happen twice in three)
PBT_SUB(exterior, 2500, 60000) { std::string last; int bad = 0; for (int k = 0; k < 3; k++) { std::string e = exterior_scene(s); if (!e.empty()) { bad++; last = e; } } PBT_CHECK(bad < 2, "%d of three cameras not found: %s", bad, last.c_str()); }
// detections with errors: the result is a least-squares optimum, residuals and deviations belong to it
PBT_SUB(adjustment, 4000, 100000) {
  Scene c; gen_scene(s, c, 16, s.one({0., .01, .03})); orient_par f; gen_flags(s, f, (int)s.draw(2)); int nu = mask(s, c, f); if (nu < 12) s.discard(); double noise = s.one({0., .02, .3});
  for (auto& p : c.pix) { p.x += s.r0(-noise, noise); p.y += s.r0(-noise, noise) / (c.rp->cp.c.chfield ? 2 : 1); }
  double D = len(campos(c.truth) - c.rp->target); Calibration start = c.truth; perturb(s, start, D, .02, .02); double half = std::min(c.rp->cp.c.imx * c.rp->cp.c.pix_x, c.rp->cp.c.imy * c.rp->cp.c.pix_y) / 2;
  for (int k = 6; k < 16; k++) if (*flag(f, k - 6) && s.b()) { double w = k < 9 ? .02 * c.truth.int_par.cc * (k == 6 ? 1 : .3) : k == 9 ? .01 / half / half : k == 10 ? .01 / pow(half, 4) : k == 11 ? .01 / pow(half, 6) : k < 14 ? .005 / half : .01; *params(start, k) += s.r0(-w, w); }
  s.nontrivial(); s.note("%s; %zu points %d used; %s; noise %g; start %s", show(*c.rp).c_str(), c.P.size(), nu, show(f).c_str(), noise, show(start).c_str());
  Run a = call(c, start, f); double JT = objective(c, c.truth, start, f);

  if (!a.ok) { s.label("no convergence"); return; }
  check_kept(a.cal, start, f); double sc = c.truth.int_par.cc / D, tol = refr(c) ? 1e-3 : 1e-4, J = objective(c, a.cal, start, f); int n = 0; double om = 0;
  PBT_CHECK(J <= 1.05 * JT + (2 * nu + 10) * pow(tol * sc, 2), "sum of squares of the residuals is %g after calibration, %g for the true camera", J, JT);
  for (size_t i = 0; i < c.P.size(); i++) { if (!used(c, f, i)) continue; double x, y; if (!residual(c, a.cal, i, x, y)) s.discard(); double rx = a.res[2*n], ry = a.res[2*n+1]; om += rx * rx + ry * ry; n++;
    double r = hypot(residual_r(c, i), 1e-9), lim = tol * sc; for (int k = 6; k < 16; k++) if (*flag(f, k - 6)) lim += 1e-5 * (k < 9 ? .1 : k < 12 ? .3 * pow(r, 2 * (k - 9) + 3) : k < 14 ? r * r : .3 * r);
    PBT_CHECK(close(rx, x, lim) && close(ry, y, lim), "residual of point %zu is (%g,%g) mm, reported (%g,%g)", i, x, y, rx, ry); }
  for (int k = 6; k < 16; k++) { double d = *params(a.cal, k) - *params(start, k), q = a.res[2*n+k-6]; om += d * d; PBT_CHECK(close(q, d, 1e-9), "parameter %d changed by %g, reported %g", k, d, q); }
  double sg = sqrt(om / (2*n + 10 - 16)); if (!f.interfflag) PBT_CHECK(close(a.sig[19], sg, 1e-12, 1e-5), "deviation %.9g of the observations, reported %.9g", sg, a.sig[19]);
  for (int k = 6; k < 16; k++) if (!*flag(f, k - 6)) PBT_CHECK(close(a.sig[k], 0, 1e-9 * (1 + sg)), "deviation of fixed parameter %d is %g", k, a.sig[k]);
  bool plain = true; for (int k = 0; k < 10; k++) if (*flag(f, k)) plain = false;
  if (plain && noise > 0 && !refr(c)) { // deviations of the exterior parameters from an independent Jacobian
    LD N[6][12]; memset(N, 0, sizeof N); for (int k = 0; k < 6; k++) N[k][6 + k] = 1;
    for (size_t i = 0; i < c.P.size(); i++) { if (!used(c, f, i)) continue; LD g[6][2]; for (int k = 0; k < 6; k++) { double h = k < 3 ? 1e-4 * D : 1e-4; Calibration u = a.cal, v = a.cal; *params(u, k) += h; *params(v, k) -= h; double ux, uy, vx, vy; if (!residual(c, u, i, ux, uy) || !residual(c, v, i, vx, vy)) return; g[k][0] = (ux - vx) / (2 * h); g[k][1] = (uy - vy) / (2 * h); }
      for (int k = 0; k < 6; k++) for (int l = 0; l < 6; l++) N[k][l] += g[k][0] * g[l][0] + g[k][1] * g[l][1]; }
    for (int k = 0; k < 6; k++) { int b = k; for (int l = k + 1; l < 6; l++) if (fabsl(N[l][k]) > fabsl(N[b][k])) b = l; for (int q = 0; q < 12; q++) std::swap(N[k][q], N[b][q]); LD d = N[k][k]; for (int q = 0; q < 12; q++) N[k][q] /= d; for (int l = 0; l < 6; l++) if (l != k) { LD m = N[l][k]; for (int q = 0; q < 12; q++) N[l][q] -= m * N[k][q]; } }
    s.label("deviations"); for (int k = 0; k < 6; k++) { double d = (double)(sg * sqrtl(N[k][6 + k])); PBT_CHECK(close(a.sig[k], d, 1e-12, 5e-3), "deviation of exterior parameter %d is %g, reported %g", k, d, a.sig[k]); } }
}

// the glass vector, if it is to be found, turns towards the true glass
static int glass_scene(Src& s) {
  Scene c; for (int t = 0;; t++) { if (t == 10) s.discard(); c = Scene(); gen_scene(s, c, 20, s.one({0., .01})); if (refr(c)) break; } orient_par f; memset(&f, 0, sizeof f); f.interfflag = 1; int nu = mask(s, c, f); if (nu < 15) s.discard();
  double D = len(campos(c.truth) - c.rp->target); Calibration start = c.truth; perturb(s, start, D, .01, .01); V3 g = gnormal(c.truth), e = unit(cross(g, fabs(g[0]) < .7 ? v3(1, 0, 0) : v3(0, 1, 0))), h = cross(g, e); double t = s.r(0, .03), az = s.r(0, 2 * M_PI); V3 q = (g * cos(t) + (e * cos(az) + h * sin(az)) * sin(t)) * glen(c.truth); start.glass_par.vec_x = q[0]; start.glass_par.vec_y = q[1]; start.glass_par.vec_z = q[2];
  s.nontrivial(); s.note("%s; %zu points %d used; glass turned by %g; start %s", show(*c.rp).c_str(), c.P.size(), nu, t, show(start).c_str());
  Run a = call(c, start, f); if (!a.ok) { s.label("glass: no convergence"); return 0; }
  double obs, worst; objective(c, a.cal, start, f, &obs, &worst); double ga = len(gnormal(a.cal) - g), dp = len(campos(a.cal) - campos(c.truth));
  check_kept(a.cal, start, f); s.note(" -> images off by %g mm, glass by %g, camera by %g;", worst, ga, dp);
  return worst * D / c.truth.int_par.cc < 1e-2 && (c.rp->cp.mm.n1 == c.rp->cp.mm.n3 || (ga < .015 && dp < .02 * D));
}
// (the granularity of ray tracing sometimes stalls the iteration or stops it early with the glass among the unknowns; this must be the exception)
PBT_SUB(glass, 350, 15000) { int ok = 0; for (int k = 0; k < 5; k++) ok += glass_scene(s); PBT_CHECK(ok >= 3, "orientation with glass finds only %d of five cameras", ok); }
// too few points, points at one place, far-off starts: no result, or one that is finite
PBT_SUB(degenerate, 3000, 100000) {
  Scene c; gen_scene(s, c, 1, s.one({0., .01})); int kind = (int)s.draw(3); orient_par f; gen_flags(s, f, (int)s.draw(2)); if (s.chance(1, 6)) f.interfflag = 1;
  if (kind == 0) { c.P.resize(std::min<size_t>(c.P.size(), s.i(1, 3))); c.pix.resize(c.P.size()); s.label("few points"); }
  if (kind == 1) { for (size_t i = 1; i < c.P.size(); i++) { c.P[i] = c.P[0]; c.pix[i].x = c.pix[0].x; c.pix[i].y = c.pix[0].y; } s.label("one place"); }
  if (kind == 2) { for (auto& p : c.pix) p.pnr = -999; s.label("no pairs"); }
  double D = len(campos(c.truth) - c.rp->target); Calibration start = c.truth; if (kind == 3) { perturb(s, start, D, s.one({.1, 1., 10.}), s.one({.1, 1., 3.})); s.label("far start"); } else perturb(s, start, D, .01, .01); s.nontrivial();
  s.note("%s; %zu points; %s; start %s", show(*c.rp).c_str(), c.P.size(), show(f).c_str(), show(start).c_str());
  Run a = call(c, start, f); s.label(a.ok ? "result" : "no result"); if (!a.ok) return;
  for (int k = 0; k < 16; k++) PBT_CHECK(std::isfinite(*params(a.cal, k)), "orientation reports success with parameter %d = %g", k, *params(a.cal, k)); PBT_CHECK(std::isfinite(glen(a.cal)), "glass vector not finite");
}
