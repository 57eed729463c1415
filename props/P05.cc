#include "common.h"
struct Scene { control_par cp; mm_np mm; Calibration cal; V3 target; double vr; volume_par vp; };
static void gen(Src& s, Scene& S, int maxlay, const Scene* like = nullptr) {
  if (like) { S = *like; S.cp.mm = &S.mm; }
  else {
  memset(&S.cp, 0, sizeof S.cp); gen_sensor(s, S.cp, false); if (S.cp.imx < 100) S.cp.imx = S.cp.imy = 512; S.mm = gen_mm(s, maxlay); S.cp.mm = &S.mm; S.cp.num_cams = 1;
  if (S.mm.n1 == 1 && S.mm.n2[0] == 1 && S.mm.n3 == 1) S.mm.n3 = 1.33;
  S.vr = s.r(5, 25); S.target = v3(s.r0(-30, 30), s.r0(-30, 30), s.r0(-30, 30)); }
  CamSpec cs; cs.target = S.target; cs.vr = S.vr; cs.maxtilt = .4; cs.maxglass = .35; cs.distamount = .01; cs.distcorner = true; S.cal = gen_camera(s, cs, S.cp, S.mm);
  if (like) return;
  memset(&S.vp, 0, sizeof S.vp); double h = S.vr * s.r(.2, .6);
  for (int k = 0; k < 2; k++) { S.vp.Zmin_lay[k] = S.target[2] - h * s.r(.7, 1); S.vp.Zmax_lay[k] = S.target[2] + h * s.r(.3, 1); if (s.chance(1, 8)) { S.vp.Zmin_lay[k] = floor(S.vp.Zmin_lay[k] / 2) * 2; S.vp.Zmax_lay[k] = ceil(S.vp.Zmax_lay[k] / 2) * 2; s.label("round depth limits"); } }
  S.vp.X_lay[0] = S.target[0] - S.vr; S.vp.X_lay[1] = S.target[0] + S.vr;
}
static std::string show(const volume_par& v) { char b[200]; snprintf(b, 200, "volume X=(%g,%g) Zmin=(%.9g,%.9g) Zmax=(%.9g,%.9g)", v.X_lay[0], v.X_lay[1], v.Zmin_lay[0], v.Zmin_lay[1], v.Zmax_lay[0], v.Zmax_lay[1]); return b; }
// corner rays: exact correction of the image corners
static bool corner_ray(const Scene& S, int i, int j, V3& X, V3& d) {
  double x = (i ? 1 : -1) * S.cp.imx * S.cp.pix_x / 2, y = (j ? -1 : 1) * S.cp.imy * S.cp.pix_y / 2;
  // invert the distortion by fixed-point iteration on the reference model
  LD ux = x, uy = y; for (int k = 0; k < 60; k++) { LD ox, oy; ref_distort(ux, uy, S.cal.added_par, ox, oy); ux -= (ox - x); uy -= (oy - y); }
  if (!ref_ray((double)ux - S.cal.int_par.xh, (double)uy - S.cal.int_par.yh, &S.cal, &S.mm, X, d)) return false;
  // a ray that only grazes the glass meets it arbitrarily far away: nothing there is determined to any precision
  V3 g = v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z), w = X - v3(S.cal.ext_par.x0, S.cal.ext_par.y0, S.cal.ext_par.z0); return -dot(w, unit(g)) > .15 * len(w);
}
static double second_order(const Scene& S) { // error of the single-step correction, on the sensor
  double R = hypot(S.cp.imx * S.cp.pix_x, S.cp.imy * S.cp.pix_y) / 2, r2 = R * R; const ap_52& a = S.cal.added_par;
  double q = 3 * fabs(a.k1) * r2 + 5 * fabs(a.k2) * r2 * r2 + 7 * fabs(a.k3) * r2 * r2 * r2 + 6 * (fabs(a.p1) + fabs(a.p2)) * R; return 3 * q * q * (q + .03) * R + 1e-9 * R; }
struct Frame { V3 n, C; double gl; };
static Frame gframe(const Calibration& c) { V3 g = v3(c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z); return {unit(g), v3(c.ext_par.x0, c.ext_par.y0, c.ext_par.z0), len(g)}; }
static void RZ(const Frame& f, const V3& P, double& R, double& Z) { Z = dot(P, f.n) - f.gl; V3 w = P - f.C; R = len(w - f.n * dot(w, f.n)); }
static double curv(const Scene& S, double camh, double R, double Z);
// direct radial shift for a point given by (R,Z) in the glass frame: uses the library with no table
static double direct(const Scene& S, double camh, double R, double Z) { Calibration t; memset(&t, 0, sizeof t); t.ext_par.z0 = camh; vec3d p = {R, 0, Z}; return multimed_r_nlay(&t, (mm_np*)&S.mm, p); }
// bound of the bilinear interpolation error, from second differences of the direct factor, plus the solver's own precision
static double curv(const Scene& S, double camh, double R, double Z) { double h = 2, f = direct(S, camh, R, Z); double a = R > h ? direct(S, camh, R - h, Z) : f; return fabs(a + direct(S, camh, R + h, Z) - 2 * f) + fabs(direct(S, camh, R, Z - h) + direct(S, camh, R, Z + h) - 2 * f) + 6e-3 / std::max(R - h, .3); }

PBT_SUB(table, 24000, 500000) {
  Scene S; gen(s, S, 2); s.note("%s; %s; %s; %s", show(S.cal).c_str(), show(S.mm).c_str(), show(S.vp).c_str(), show(S.cp).c_str());
  Frame f = gframe(S.cal); double camh = dot(f.C, f.n) - f.gl;   // camera height over the water face
  double Zmn = std::min(S.vp.Zmin_lay[0], S.vp.Zmin_lay[1]), Zmx = std::max(S.vp.Zmax_lay[0], S.vp.Zmax_lay[1]);
  std::vector<V3> corners;
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { V3 X, d; if (!corner_ray(S, i, j, X, d) || -dot(d, f.n) < .5 || fabs(d[2]) < .3) s.discard();
    for (double Z : {Zmn - 2, Zmx + 2}) { V3 q = X + d * ((Z - X[2]) / d[2]); double R, z; RZ(f, q, R, z); double w = -z; for (int k = 1; k < S.mm.nlay; k++) w -= S.mm.d[k]; if (w < 0) s.discard(); if (Z == Zmn - 2) { corners.push_back(X + d * ((Zmn + 2 - X[2]) / d[2])); corners.push_back(X + d * ((Zmx - X[2]) / d[2])); } } }
  Calibration cal = S.cal; control_par cp = S.cp; cp.mm = &S.mm; volume_par vp = S.vp;
  if (s.chance(1, 4)) { // an earlier preparation for another volume must not matter
    s.label("prepared twice"); volume_par v2 = S.vp; double dz = s.r(1, 30); v2.Zmin_lay[0] += s.r0(-8, 8); v2.Zmax_lay[1] = v2.Zmin_lay[0] + dz; Calibration k = cal; init_mmlut(&v2, &cp, &cal); (void)k; }
  init_mmlut(&vp, &cp, &cal); struct Free { Calibration& c; ~Free() { free(c.mmlut.data); c.mmlut.data = NULL; } } fr{cal};
  PBT_CHECK(cal.mmlut.data != NULL && cal.mmlut.nr >= 1 && cal.mmlut.nz >= 1 && cal.mmlut.rw == 2, "table has %d x %d values of step %d", cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.rw);
  int nr = cal.mmlut.nr, nz = cal.mmlut.nz; double rw = cal.mmlut.rw; double Rend = (nr - 1) * rw, Zbeg = cal.mmlut.origin[2], Zend = Zbeg + (nz - 1) * rw;
  s.nontrivial();
  // the table reaches every image-corner ray within the depth limits (up to one step where limits are rounded)
  double e2 = second_order(S) / S.cal.int_par.cc * 2 * camh * 3 + 1e-6;
  for (auto& q : corners) { double R, z; RZ(f, q, R, z); PBT_CHECK(R <= Rend + e2 && z >= Zbeg - rw - e2 && z <= Zend + rw + e2, "corner of the observed volume at R=%g z=%g is outside the table R<=%g z=%g..%g", R, z, Rend, Zbeg, Zend); }
  int np = 30; mm_np* mm = &S.mm;
  for (int k = 0; k < np; k++) {
    double R, Z; int where = (int)s.draw(7);
    auto edge = [&](double a) { switch (s.draw(3)) { case 0: return a; case 1: return a + s.r0(-1e-9, 1e-9); case 2: return a + s.r0(-2, 2); default: return a + s.r0(-.01, .01); } };
    if (where == 0) { R = edge(Rend); Z = s.r(Zbeg, Zend); s.label("probe: outer edge"); } else if (where == 1) { R = s.r(0, Rend); Z = edge(Zbeg); s.label("probe: lower edge"); } else if (where == 2) { R = s.r(0, Rend); Z = edge(Zend); s.label("probe: upper edge"); }
    else if (where == 3) { R = edge(Rend); Z = edge(s.b() ? Zbeg : Zend); s.label("probe: corner"); } else if (where == 4) { R = Rend + s.r(0, 40); Z = s.r(Zbeg - 30, Zend + 30); s.label("probe: outside"); }
    else { R = s.r(0, Rend); Z = s.r(Zbeg, Zend); s.label("probe: inside"); if (s.chance(1, 8)) { R = rw * floor(R / rw); Z = Zbeg + rw * floor((Z - Zbeg) / rw); s.label("probe: node"); } }
    if (R < 0) R = -R; { double w = -Z; for (int k = 1; k < mm->nlay; k++) w -= mm->d[k]; if (w < 0) continue; }
    vec3d p = {R, 0, Z}; Calibration ct = cal; ct.ext_par.x0 = ct.ext_par.y0 = 0; ct.ext_par.z0 = camh; double got = get_mmf_from_mmlut(&ct, p);
    int ir = (int)floor(R / rw), iz = (int)floor((Z - Zbeg) / rw); double sr = R / rw - ir, sz = (Z - Zbeg) / rw - iz;
    double eps = 1e-9; bool on_edge = fabs(R - Rend) < eps || fabs(Z - Zbeg) < eps || fabs(Z - Zend) < eps;
    bool inside = R <= Rend && Z >= Zbeg && Z <= Zend;
    double dv = direct(S, camh, R, Z);
    if (!inside && !on_edge) { PBT_CHECK(got == 0, "point R=%.12g Z=%.12g outside the table (R<=%g, %g<=Z<=%g) got factor %.9g from it", R, Z, Rend, Zbeg, Zend, got); }
    else if (got != 0) {
      if (ir >= nr - 1) { ir = nr - 2; sr = 1; } if (iz >= nz - 1) { iz = nz - 2; sz = 1; } if (iz < 0) { iz = 0; sz = 0; } if (ir < 0 || iz < 0 || nr < 2 || nz < 2) continue;
      double c[4]; for (int q = 0; q < 4; q++) c[q] = direct(S, camh, (ir + (q >> 1)) * rw, Zbeg + (iz + (q & 1)) * rw);
      double e = (c[0] * (1 - sz) + c[1] * sz) * (1 - sr) + (c[2] * (1 - sz) + c[3] * sz) * sr;
      PBT_CHECK(close(got, e, 1e-9), "table gives %.12g at R=%.9g Z=%.9g, direct values around it interpolate to %.12g (direct %.12g); table R<=%g z %g..%g", got, R, Z, e, dv, Rend, Zbeg, Zend);
      // the factor times the radius is the refracted lateral position; ring 0 is a known finding (the node on the axis holds the neutral factor 1)
      if (ir >= 1 && dv != 1) { double slack = curv(S, camh, R, Z);
        PBT_CHECK(close(got, dv, slack), "table factor %.9g at R=%g Z=%g is far from the direct one %.9g (allowed %.3g)", got, R, Z, dv, slack); }
    } else PBT_CHECK(on_edge, "point R=%.12g Z=%.12g inside the table (R<=%g, %g<=Z<=%g) is not served by it", R, Z, Rend, Zbeg, Zend);
  }
  // projections with and without the table
  for (int k = 0; k < 6; k++) {
    V3 P = gen_in_ball(s, S.target, S.vr * 3); if (s.chance(1, 5)) { V3 w = f.C - P; P = P + (w - f.n * dot(w, f.n)) + v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-.2, .2)); } double R, Z; RZ(f, P, R, Z); double w = -Z; for (int k = 1; k < mm->nlay; k++) w -= mm->d[k]; if (w < 0) continue;
    double ex, ey, sa = 1; if (!ref_project(P, &S.cal, mm, ex, ey, &sa) || sa > .75) continue;
    vec3d p = {P[0], P[1], P[2]}; double x, y, xd, yd; flat_image_coord(p, &cal, mm, &x, &y); Calibration nc = S.cal; flat_image_coord(p, &nc, mm, &xd, &yd);
    double depth = camh - Z, in = (R < Rend - 1e-6 && Z > Zbeg + 1e-6 && Z < Zend - 1e-6);
    if (!in && !(R < Rend + 1e-6 && Z > Zbeg - 1e-6 && Z < Zend + 1e-6)) { s.label("project: outside"); PBT_CHECK(x == xd && y == yd, "point outside the table projects to (%.15g,%.15g), directly to (%.15g,%.15g)", x, y, xd, yd); }
    else if (in) { s.label(R < rw ? "project: first ring" : "project: inside"); double lim = R * (R < rw ? fabs(direct(S, camh, rw, Z) - 1) + curv(S, camh, rw, Z) : curv(S, camh, R, Z)) * 2.5 / depth * S.cal.int_par.cc + 1e-9;
      PBT_CHECK(hypot(x - xd, y - yd) <= lim, "point R=%g Z=%g projects through the table to (%.9g,%.9g), directly to (%.9g,%.9g): %g apart, allowed %g", R, Z, x, y, xd, yd, hypot(x - xd, y - yd), lim); }
  }
}
PBT_SUB(volume, 300000, 8000000) {
  int nc = (int)s.i(1, 4); std::vector<Scene> S(nc); for (int k = 0; k < nc; k++) { gen(s, S[k], 1, k ? &S[0] : nullptr); S[k].cp.num_cams = nc; }
  double Zmn = std::min(S[0].vp.Zmin_lay[0], S[0].vp.Zmin_lay[1]), Zmx = std::max(S[0].vp.Zmax_lay[0], S[0].vp.Zmax_lay[1]);
  double bx[2] = {1e20, -1e20}, by[2] = {1e20, -1e20}; double tol = 1e-6; std::vector<Calibration*> cp;
  for (auto& q : S) { Frame f = gframe(q.cal); cp.push_back(&q.cal); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { V3 X, d; if (!corner_ray(q, i, j, X, d) || -dot(d, f.n) < .4 || fabs(d[2]) < .3) s.discard();
      for (double Z : {Zmn, Zmx}) { V3 p = X + d * ((Z - X[2]) / d[2]); bx[0] = std::min(bx[0], p[0]); bx[1] = std::max(bx[1], p[0]); by[0] = std::min(by[0], p[1]); by[1] = std::max(by[1], p[1]); tol = std::max(tol, second_order(q) / q.cal.int_par.cc * 4 * len(p - f.C) / d[2] / d[2] + 1e-8 * len(p - f.C)); } } }
  double g[4]; int given = (int)s.draw(3); // given bounds: empty, inside, partly outside
  double span = (bx[1] - bx[0]) + (by[1] - by[0]);
  for (int k = 0; k < 4; k++) g[k] = given == 0 ? (k & 1 ? 1e6 : -1e6) : given == 1 ? (k < 2 ? (bx[0] + bx[1]) / 2 : (by[0] + by[1]) / 2) : (k < 2 ? (bx[0] + bx[1]) / 2 : (by[0] + by[1]) / 2) + (k & 1 ? -1 : 1) * s.r(0, span);
  s.label(given == 0 ? "given: empty" : given == 1 ? "given: a point" : "given: box"); s.nontrivial();
  s.note("%d cameras, %s, first %s, given x %g..%g y %g..%g", nc, show(S[0].vp).c_str(), show(S[0].cal).c_str(), g[1], g[0], g[3], g[2]);
  double xmax = g[0], xmin = g[1], ymax = g[2], ymin = g[3], zmax = 7e7, zmin = 7e7; volume_par vp = S[0].vp; control_par c = S[0].cp;
  volumedimension(&xmax, &xmin, &ymax, &ymin, &zmax, &zmin, &vp, &c, cp.data());
  PBT_CHECK(zmin == Zmn && zmax == Zmx, "depth limits %g..%g, expected %g..%g", zmin, zmax, Zmn, Zmx);
  double e[4] = {std::max(bx[1], g[0]), std::min(bx[0], g[1]), std::max(by[1], g[2]), std::min(by[0], g[3])};
  PBT_CHECK(close(xmax, e[0], tol) && close(xmin, e[1], tol) && close(ymax, e[2], tol) && close(ymin, e[3], tol), "bounds x %.9g..%.9g y %.9g..%.9g, corner rays give x %.9g..%.9g y %.9g..%.9g (tolerance %g)", xmin, xmax, ymin, ymax, e[1], e[0], e[3], e[2], tol);
}
