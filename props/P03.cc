#include "common.h"
// Scene: camera -> air -> glass layers -> water, ball of points around a target behind the glass
struct Scene { control_par cp; mm_np mm; Calibration cal; V3 target; double vr; };
static void gen(Src& s, Scene& S, int maxlay, bool tilt = true) {
  memset(&S.cp, 0, sizeof S.cp); gen_sensor(s, S.cp); if (S.cp.imx < 100) S.cp.imx = S.cp.imy = 512; S.mm = gen_mm(s, maxlay); S.cp.mm = &S.mm; S.cp.num_cams = 1;
  if (s.chance(1, 6) ) { double f = s.r(1.0, 1.3); S.mm.n1 *= f; for (int k = 0; k < 3; k++) S.mm.n2[k] *= f; S.mm.n3 *= f; s.label("mm:n1>1"); }
  S.vr = s.r(5, 100); S.target = v3(s.r0(-50, 50), s.r0(-50, 50), s.r0(-50, 50));
  CamSpec cs; cs.target = S.target; cs.vr = S.vr; if (s.chance(1, 4)) cs.maxglass = 1.0; S.cal = gen_camera(s, cs, S.cp, S.mm);
}
static V3 point(Src& s, const Scene& S) {
  V3 P = gen_in_ball(s, S.target, S.vr);
  if (s.chance(1, 12)) { // exactly on the perpendicular from the camera to the glass (or very near)
    V3 g = unit(v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z)), C = v3(S.cal.ext_par.x0, S.cal.ext_par.y0, S.cal.ext_par.z0); double h = dot(C - P, g); P = C - g * h; if (s.b()) P = P + v3(s.r0(-1e-3, 1e-3), s.r0(-1e-3, 1e-3), s.r0(-1e-3, 1e-3)); s.label("pt:on glass normal"); }
  return P;
}
static bool inwater(const Scene& S, const V3& P, double margin = 0) { V3 g = v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z); double q = len(g) - dot(P, g) / len(g); for (int k = 1; k < S.mm.nlay; k++) q -= S.mm.d[k]; return q >= margin; }
// tolerance on the sensor: the library solves for the refraction point to about a micrometre on the glass
static double tolerance(const Scene& S, const V3& P) { V3 C = v3(S.cal.ext_par.x0, S.cal.ext_par.y0, S.cal.ext_par.z0); M3 rm = ref_rotation(S.cal.ext_par.omega, S.cal.ext_par.phi, S.cal.ext_par.kappa); double depth = fabs(dot(P - C, col(rm, 2))), l = len(P - C);
  return 4e-3 * S.cal.int_par.cc * l / (depth * depth) + 1e-9 * S.cal.int_par.cc; }
// rays that hit the glass at more than 53 degrees are outside the domain (the library documents a no-solution fallback for them)
static bool incidence_ok(Src& s, const Scene& S, const V3& P) { double x, y, t = 1; if (!ref_project(P, &S.cal, &S.mm, x, y, &t)) return false; if (t > .77) s.label("incidence >50deg"); else if (t > .5) s.label("incidence >30deg"); else s.label("incidence <30deg"); return t <= .8; }

static void cmp(Src& s, const Scene& S, const V3& P) {
  double ex, ey; if (!ref_project(P, &S.cal, &S.mm, ex, ey)) s.discard();
  Calibration c = S.cal; vec3d p = {P[0], P[1], P[2]}; double x = 7e7, y = 7e7; mm_np mm = S.mm; flat_image_coord(p, &c, &mm, &x, &y);
  double t = tolerance(S, P);
  PBT_CHECK(close(x, ex, t) && close(y, ey, t), "flat image of (%.17g,%.17g,%.17g) is (%.12g,%.12g), Snell's law gives (%.12g,%.12g), off by %.3g (tolerance %.3g); %s; %s", P[0], P[1], P[2], x, y, ex, ey, hypot(x - ex, y - ey), t, show(S.cal).c_str(), show(S.mm).c_str());
  // camera model applied afterwards
  double dx = 7e7, dy = 7e7; img_coord(p, &c, &mm, &dx, &dy); LD ux, uy; ref_distort(x + S.cal.int_par.xh, y + S.cal.int_par.yh, S.cal.added_par, ux, uy);
  PBT_CHECK(close(dx, (double)ux, 1e-10 * (fabs(dx) + 1)) && close(dy, (double)uy, 1e-10 * (fabs(dy) + 1)), "img_coord (%.12g,%.12g) is not the distorted flat image (%.12g,%.12g)", dx, dy, (double)ux, (double)uy);
  PBT_CHECK(!memcmp(&c, &S.cal, sizeof c) && !memcmp(&mm, &S.mm, sizeof mm) && p[0] == P[0] && p[1] == P[1] && p[2] == P[2], "projection changed its inputs");
}
PBT_SUB(snell, 1000000, 30000000) {
  Scene S; gen(s, S, 3); V3 P = point(s, S); if (!inwater(S, P)) s.discard(); if (!incidence_ok(s, S, P)) s.discard();
  s.note("%s; %s; P=(%.17g,%.17g,%.17g)", show(S.cal).c_str(), show(S.mm).c_str(), P[0], P[1], P[2]); if (S.mm.n3 != 1 || S.mm.n2[0] != 1) s.nontrivial();
  cmp(s, S, P);
}
// one medium: collinearity equations, everywhere (glass vector irrelevant)
PBT_SUB(collinear, 400000, 10000000) {
  Scene S; gen(s, S, 1); S.mm.nlay = 1; S.mm.n1 = S.mm.n2[0] = S.mm.n3 = 1; V3 P = point(s, S); s.nontrivial();
  s.note("%s; P=(%.17g,%.17g,%.17g)", show(S.cal).c_str(), P[0], P[1], P[2]);
  V3 C = v3(S.cal.ext_par.x0, S.cal.ext_par.y0, S.cal.ext_par.z0), d = P - C; M3 rm = ref_rotation(S.cal.ext_par.omega, S.cal.ext_par.phi, S.cal.ext_par.kappa); double z = dot(d, col(rm, 2));
  if (z > -1e-3 * len(d)) s.discard();
  double ex = -S.cal.int_par.cc * dot(d, col(rm, 0)) / z, ey = -S.cal.int_par.cc * dot(d, col(rm, 1)) / z, x = 7e7, y = 7e7; vec3d p = {P[0], P[1], P[2]}; flat_image_coord(p, &S.cal, &S.mm, &x, &y);
  double t = 1e-9 * (S.cal.int_par.cc + fabs(ex) + fabs(ey));
  PBT_CHECK(close(x, ex, t) && close(y, ey, t), "one medium: image of (%g,%g,%g) is (%.12g,%.12g), collinearity gives (%.12g,%.12g); %s", P[0], P[1], P[2], x, y, ex, ey, show(S.cal).c_str());
}
// moving the whole scene rigidly leaves the image alone
PBT_SUB(rigid, 400000, 10000000) {
  Scene S; gen(s, S, 3); V3 P = point(s, S); if (!inwater(S, P) || !incidence_ok(s, S, P)) s.discard(); if (S.mm.n3 != 1 || S.mm.n2[0] != 1) s.nontrivial();
  double a = s.r0(-3, 3), b = s.r0(-1.5, 1.5), c = s.r0(-3, 3); M3 Q = ref_rotation(a, b, c); V3 T = v3(s.r0(-100, 100), s.r0(-100, 100), s.r0(-100, 100));
  auto mv = [&](const V3& p) { V3 r; for (int i = 0; i < 3; i++) r[i] = (double)(Q.m[i][0] * p[0] + Q.m[i][1] * p[1] + Q.m[i][2] * p[2]); return r; };
  Calibration c2 = S.cal; V3 C2 = mv(v3(S.cal.ext_par.x0, S.cal.ext_par.y0, S.cal.ext_par.z0)) + T, P2 = mv(P) + T;
  c2.ext_par.x0 = C2[0]; c2.ext_par.y0 = C2[1]; c2.ext_par.z0 = C2[2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD v = 0; for (int k = 0; k < 3; k++) v += Q.m[i][k] * S.cal.ext_par.dm[k][j]; c2.ext_par.dm[i][j] = (double)v; }
  V3 g = v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z); V3 n2 = mv(unit(g)); double q = len(g) + dot(n2, T); if (q < 0.05) s.discard();
  c2.glass_par.vec_x = n2[0] * q; c2.glass_par.vec_y = n2[1] * q; c2.glass_par.vec_z = n2[2] * q;
  s.note("%s; %s; P=(%.17g,%.17g,%.17g) rot=(%g,%g,%g) move=(%g,%g,%g)", show(S.cal).c_str(), show(S.mm).c_str(), P[0], P[1], P[2], a, b, c, T[0], T[1], T[2]);
  double x1, y1, x2, y2; vec3d p1 = {P[0], P[1], P[2]}, p2 = {P2[0], P2[1], P2[2]}; img_coord(p1, &S.cal, &S.mm, &x1, &y1); img_coord(p2, &c2, &S.mm, &x2, &y2);
  // both solve the same one-dimensional equation; they may stop one iteration apart
  double t = tolerance(S, P); PBT_CHECK(close(x1, x2, t) && close(y1, y2, t), "image (%.12g,%.12g) becomes (%.12g,%.12g) after moving the scene rigidly", x1, y1, x2, y2);
}
