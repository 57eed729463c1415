#include "common.h"
extern "C" {
#include "epi.h"
}
static bool depth_limits(const volume_par& v, double X, double& lo, double& hi) { double f = (X - v.X_lay[0]) / (v.X_lay[1] - v.X_lay[0]); lo = v.Zmin_lay[0] * (1 - f) + v.Zmin_lay[1] * f; hi = v.Zmax_lay[0] * (1 - f) + v.Zmax_lay[1] * f; return hi > lo; }
static void gen_vol(Src& s, Rig& r) { double h = r.vr * s.r(.2, .8); r.vp.X_lay[0] = r.target[0] - r.vr * s.r(.5, 1.5); r.vp.X_lay[1] = r.target[0] + r.vr * s.r(.5, 1.5); bool tilt = s.chance(2, 3);
  double a = s.r(.3, 1), b = s.r(.3, 1); r.vp.Zmin_lay[0] = r.target[2] - h * a; r.vp.Zmax_lay[0] = r.target[2] + h * b; r.vp.Zmin_lay[1] = tilt ? r.target[2] - h * s.r(.3, 1) : r.vp.Zmin_lay[0]; r.vp.Zmax_lay[1] = tilt ? r.target[2] + h * s.r(.3, 1) : r.vp.Zmax_lay[0]; s.label(tilt ? "tilted volume" : "level volume"); }
static double ptol(const Rig& r, int cam, const V3& P) { double depth = fabs(dot(P - campos(r.cal[cam]), col(ref_rotation(r.cal[cam].ext_par.omega, r.cal[cam].ext_par.phi, r.cal[cam].ext_par.kappa), 2))); double l = len(P - campos(r.cal[cam])); return 5e-3 * r.cal[cam].int_par.cc * l / (depth * depth) + 1e-8 * r.cal[cam].int_par.cc; }
static bool water(const Rig& r, int cam, const V3& P) { return glen(r.cal[cam]) - dot(P, gnormal(r.cal[cam])) > 1e-6; }
static std::string show(const volume_par& v) { char b[200]; snprintf(b, 200, "volume X=(%g,%g) Zmin=(%g,%g) Zmax=(%g,%g)", v.X_lay[0], v.X_lay[1], v.Zmin_lay[0], v.Zmin_lay[1], v.Zmax_lay[0], v.Zmax_lay[1]); return b; }
static double seg_dist(double px, double py, double ax, double ay, double bx, double by) { double dx = bx - ax, dy = by - ay, l2 = dx * dx + dy * dy, t = l2 > 0 ? ((px - ax) * dx + (py - ay) * dy) / l2 : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; return hypot(px - ax - t * dx, py - ay - t * dy); }

PBT_SUB(segment, 300000, 10000000) {
  Rig r(2); RigSpec sp; sp.mintilt_sep = .05; gen_rig(s, r, sp); gen_vol(s, r); mm_np& mm = r.cp.mm;
  // the imaged point lies within the depth limits that apply to its ray
  V3 Q = gen_in_ball(s, r.target, r.vr * .9); double x, y, sa; if (!ref_project(Q, &r.cal[0], &mm, x, y, &sa) || sa > .75) s.discard(); V3 X, d; if (!ref_ray(x, y, &r.cal[0], &mm, X, d) || fabs(d[2]) < .25) s.discard();
  double lo, hi; if (!depth_limits(r.vp, X[0], lo, hi)) s.discard();
  auto at = [&](double Z) { return X + d * ((Z - X[2]) / d[2]); }; V3 Pn = at(lo), Pf = at(hi); double Z = lo + (hi - lo) * (s.chance(1, 8) ? (double)s.b() : s.u()); V3 P = at(Z);
  for (auto& q : {Pn, Pf, P}) for (int k = 0; k < 2; k++) { double a, b, sb; if (!water(r, k, q) || !ref_project(q, &r.cal[k], &mm, a, b, &sb) || sb > .8) s.discard(); }
  s.note("%s; %s; image (%.12g,%.12g), point at depth %g", show(r).c_str(), show(r.vp).c_str(), x, y, Z); if (mm.n3 != 1 || mm.n2[0] != 1) s.nontrivial();
  double nx, ny, fx, fy, e1 = 7e7, e2 = 7e7, e3 = 7e7, e4 = 7e7; ref_project(Pn, &r.cal[1], &mm, nx, ny); ref_project(Pf, &r.cal[1], &mm, fx, fy);
  Calibration c0 = r.cal[0], c1 = r.cal[1]; volume_par vp = r.vp; epi_mm(x, y, &c0, &c1, &mm, &vp, &e1, &e2, &e3, &e4);
  double tn = ptol(r, 1, Pn), tf = ptol(r, 1, Pf);
  PBT_CHECK(close(e1, nx, tn) && close(e2, ny, tn), "near end (%.9g,%.9g), image of the ray's point at depth %g is (%.9g,%.9g)", e1, e2, lo, nx, ny);
  PBT_CHECK(close(e3, fx, tf) && close(e4, fy, tf), "far end (%.9g,%.9g), image of the ray's point at depth %g is (%.9g,%.9g)", e3, e4, hi, fx, fy);
  PBT_CHECK(!memcmp(&c0, &r.cal[0], sizeof c0) && !memcmp(&c1, &r.cal[1], sizeof c1) && !memcmp(&vp, &r.vp, sizeof vp), "inputs changed");
  // containment: the deviation of the exact curve from its chord is the allowance
  double curv = 0; for (int k = 1; k < 12; k++) { double a, b; if (!ref_project(at(lo + (hi - lo) * k / 12.), &r.cal[1], &mm, a, b)) s.discard(); curv = std::max(curv, seg_dist(a, b, nx, ny, fx, fy)); }
  vec3d p = {P[0], P[1], P[2]}; double ix = 7e7, iy = 7e7; flat_image_coord(p, &r.cal[1], &mm, &ix, &iy); double D = seg_dist(ix, iy, e1, e2, e3, e4), len = hypot(nx - fx, ny - fy);
  PBT_CHECK(D <= 1.5 * curv + 2 * std::max(tn, tf), "image (%.9g,%.9g) of the point is %.3g off the segment (%.9g,%.9g)-(%.9g,%.9g), curvature accounts for %.3g", ix, iy, D, e1, e2, e3, e4, curv);
  if (mm.n1 == 1 && mm.n2[0] == 1 && mm.n3 == 1) PBT_CHECK(D <= 1e-7 * (len + r.cal[1].int_par.cc), "one medium: image is %g off the straight epipolar line", D);
}
PBT_SUB(middepth, 300000, 10000000) {
  Rig r(2); RigSpec sp; gen_rig(s, r, sp); gen_vol(s, r); double hx = r.cp.c.imx * r.cp.c.pix_x / 2, hy = r.cp.c.imy * r.cp.c.pix_y / 2, x = s.rs(-hx, hx), y = s.rs(-hy, hy); V3 X, d; if (!ref_ray(x, y, &r.cal[0], &r.cp.mm, X, d) || fabs(d[2]) < .2) s.discard(); double lo, hi; if (!depth_limits(r.vp, X[0], lo, hi)) s.discard(); s.nontrivial();
  s.note("%s; %s; image (%.12g,%.12g)", show(r).c_str(), show(r.vp).c_str(), x, y); vec3d out = {7e7, 7e7, 7e7}; volume_par vp = r.vp; epi_mm_2D(x, y, &r.cal[0], &r.cp.mm, &vp, out); double Z = (lo + hi) / 2; V3 e = X + d * ((Z - X[2]) / d[2]); double sc = len(X) + len(e) + len(campos(r.cal[0]));
  PBT_CHECK(len(v3(out[0], out[1], out[2]) - e) < 1e-6 * sc, "mid-depth point (%.9g,%.9g,%.9g), expected (%.9g,%.9g,%.9g)", out[0], out[1], out[2], e[0], e[1], e[2]);
}
