#include "common.h"
// Domain: half sensor size R; every distortion term displaces by at most `amount`*R at radius R, points up to 1.0 R*sqrt2
static ap_52 gen(Src& s, double& R) { R = s.one({1., 3.2, 5., 8., 20.}) ; if (s.b()) R = s.r(0.5, 25); ap_52 a = gen_ap(s, R, s.one({0.002, 0.02, 0.05})); return a; }
static void point(Src& s, double R, double& x, double& y) {
  switch (s.draw(9)) { case 0: x = y = 0; s.label("pt:centre"); break; case 1: x = 0; y = s.r0(-R, R); s.label("pt:axis"); break; case 2: y = 0; x = s.r0(-R, R); s.label("pt:axis"); break;
    case 3: x = s.r0(-1e-6, 1e-6) * R; y = s.r0(-1e-6, 1e-6) * R; s.label("pt:near centre"); break;
    default: x = s.r0(-R, R); y = s.r0(-R, R); } }
// bound of the derivative of the radial and decentering displacement at radius r: the map is well invertible while it is small
static double steep(const ap_52& a, double r) { double r2 = r * r; return 3 * fabs(a.k1) * r2 + 5 * fabs(a.k2) * r2 * r2 + 7 * fabs(a.k3) * r2 * r2 * r2 + 6 * (fabs(a.p1) + fabs(a.p2)) * r; }
static void moderate(Src& s, const ap_52& a, double& x, double& y) { for (int k = 0; k < 60 && steep(a, hypot(x, y)) > 0.35; k++) { x *= .8; y *= .8; } if (steep(a, hypot(x, y)) > .15) s.label("strong distortion"); }
static std::string show(const ap_52& a) { char b[300]; snprintf(b, 300, "k=(%.9g,%.9g,%.9g) p=(%.9g,%.9g) scx=%.9g she=%.9g", a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she); return b; }
static bool isneutral(const ap_52& a) { return !a.k1 && !a.k2 && !a.k3 && !a.p1 && !a.p2 && a.scx == 1 && !a.she; }

PBT_SUB(model, 2000000, 40000000) {
  double R, x, y; ap_52 a = gen(s, R); point(s, R, x, y); s.note("%s point=(%.17g,%.17g)", show(a).c_str(), x, y); if (!isneutral(a)) s.nontrivial();
  double ox = 7e7, oy = -7e7; distort_brown_affin(x, y, a, &ox, &oy); LD ex, ey; ref_distort(x, y, a, ex, ey);
  PBT_CHECK(close(ox, ex, 1e-12 * R) && close(oy, ey, 1e-12 * R), "distort(%.17g,%.17g)=(%.17g,%.17g), model (%.17g,%.17g); %s", x, y, ox, oy, (double)ex, (double)ey, show(a).c_str());
  double p = x, q = y; distort_brown_affin(p, q, a, &p, &q); PBT_CHECK(p == ox && q == oy, "in-place distortion differs");
}
PBT_SUB(inverse, 2000000, 40000000) {
  double R, x, y; ap_52 a = gen(s, R); point(s, R, x, y); moderate(s, a, x, y); double tol = s.one({1e-4, 1e-6, 1e-8, 1e-10}); if (!isneutral(a)) s.nontrivial();
  s.note("%s point=(%.17g,%.17g) tol=%g", show(a).c_str(), x, y, tol);
  LD dx, dy; ref_distort(x, y, a, dx, dy); double cx = 7e7, cy = -7e7; correct_brown_affine_exact((double)dx, (double)dy, a, &cx, &cy, tol);
  double r = hypot(x, y);
  PBT_CHECK(close(cx, x, 2 * tol * r + 1e-12 * R) && close(cy, y, 2 * tol * r + 1e-12 * R), "flat (%.17g,%.17g) distorts to (%.17g,%.17g) but corrects to (%.17g,%.17g): error %g, tol %g*r=%g; %s", x, y, (double)dx, (double)dy, cx, cy, hypot(cx - x, cy - y), tol, tol * r, show(a).c_str());
  double p = (double)dx, q = (double)dy; correct_brown_affine_exact(p, q, a, &p, &q, tol); PBT_CHECK(p == cx && q == cy, "in-place correction differs");
}
// single-step correction: error is second order in the displacement caused by the radial and decentering terms
PBT_SUB(single_step, 1500000, 20000000) {
  double R, x, y; ap_52 a = gen(s, R); point(s, R, x, y); moderate(s, a, x, y); if (!isneutral(a)) s.nontrivial(); s.note("%s point=(%.17g,%.17g)", show(a).c_str(), x, y);
  LD dx, dy; ref_distort(x, y, a, dx, dy); double cx = 7e7, cy = -7e7; correct_brown_affin((double)dx, (double)dy, a, &cx, &cy);
  double r = hypot(x, y);
  double q = steep(a, r);
  double d0 = hypot((double)dx - x, (double)dy - y);
  double bound = 3 * q * q * (d0 + q * r) + 1e-12 * R; 
  PBT_CHECK(hypot(cx - x, cy - y) <= bound, "single-step correction of (%.17g,%.17g) gives (%.17g,%.17g), true (%.17g,%.17g): error %g > %g; %s", (double)dx, (double)dy, cx, cy, x, y, hypot(cx - x, cy - y), bound, show(a).c_str());
  // distances to the original: correcting is never worse than not correcting when there is something to correct
}
// with sensor shift
PBT_SUB(shifted, 2000000, 40000000) {
  double R, x, y; Calibration c; memset(&c, 0, sizeof c); c.added_par = gen(s, R); c.int_par.cc = s.r(1, 100); 
  if (!s.chance(1, 6)) { c.int_par.xh = s.r0(-.1, .1) * R; c.int_par.yh = s.r0(-.1, .1) * R; } double tol = s.one({1e-4, 1e-6, 1e-8});
  point(s, R, x, y); if (s.chance(1, 10)) { x = -c.int_par.xh; y = -c.int_par.yh; s.label("pt:sensor centre"); } if (s.chance(1, 10)) { x = y = 0; s.label("pt:principal point"); }
  { double sx = x + c.int_par.xh, sy = y + c.int_par.yh; moderate(s, c.added_par, sx, sy); x = sx - c.int_par.xh; y = sy - c.int_par.yh; }
  s.note("%s point=(%.17g,%.17g)", show(c).c_str(), x, y); if (!isneutral(c.added_par) || c.int_par.xh != 0) s.nontrivial();
  double ox = 7e7, oy = 7e7; flat_to_dist(x, y, &c, &ox, &oy); LD ex, ey; double sx = x + c.int_par.xh, sy = y + c.int_par.yh; ref_distort(sx, sy, c.added_par, ex, ey);
  PBT_CHECK(close(ox, ex, 1e-12 * R) && close(oy, ey, 1e-12 * R), "flat_to_dist(%.17g,%.17g)=(%.17g,%.17g), expected (%.17g,%.17g); %s", x, y, ox, oy, (double)ex, (double)ey, show(c).c_str());
  double bx = 7e7, by = 7e7; dist_to_flat(ox, oy, &c, &bx, &by, tol); double r = hypot(sx, sy);
  PBT_CHECK(close(bx, x, 2 * tol * r + 1e-11 * R) && close(by, y, 2 * tol * r + 1e-11 * R), "flat (%.17g,%.17g) -> dist (%.17g,%.17g) -> flat (%.17g,%.17g), tol %g; %s", x, y, ox, oy, bx, by, tol, show(c).c_str());
  double p = x, q = y; flat_to_dist(p, q, &c, &p, &q); PBT_CHECK(p == ox && q == oy, "in-place flat_to_dist differs"); dist_to_flat(p, q, &c, &p, &q, tol); PBT_CHECK(p == bx && q == by, "in-place dist_to_flat differs");
}
