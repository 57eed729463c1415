#include "common.h"
struct Scene { control_par cp; mm_np mm; Calibration cal; V3 target; double vr; };
static void gen(Src& s, Scene& S) {
  memset(&S.cp, 0, sizeof S.cp); gen_sensor(s, S.cp); if (S.cp.imx < 100) S.cp.imx = S.cp.imy = 512; S.mm = gen_mm(s, 1); S.cp.mm = &S.mm; S.cp.num_cams = 1;
  S.vr = s.r(5, 100); S.target = v3(s.r0(-50, 50), s.r0(-50, 50), s.r0(-50, 50));
  CamSpec cs; cs.target = S.target; cs.vr = S.vr; if (s.chance(1, 4)) cs.maxglass = 1.0; S.cal = gen_camera(s, cs, S.cp, S.mm);
}
static V3 glassn(const Calibration& c) { return unit(v3(c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z)); }
static V3 cpos(const Calibration& c) { return v3(c.ext_par.x0, c.ext_par.y0, c.ext_par.z0); }
static V3 cam_dir(const Calibration& c, double x, double y) { M3 rm = ref_rotation(c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa); return unit(col(rm, 0) * x + col(rm, 1) * y - col(rm, 2) * c.int_par.cc); }
// image position, sometimes exactly (or almost) where the ray is perpendicular to the glass
static void image(Src& s, const Scene& S, double& x, double& y) {
  double hx = S.cp.imx * S.cp.pix_x / 2, hy = S.cp.imy * S.cp.pix_y / 2; x = s.rs(-hx, hx); y = s.rs(-hy, hy);
  if (s.chance(1, 6)) { M3 rm = ref_rotation(S.cal.ext_par.omega, S.cal.ext_par.phi, S.cal.ext_par.kappa); V3 d = glassn(S.cal) * -1; double z = dot(d, col(rm, 2)); if (z < -.5) { x = -S.cal.int_par.cc * dot(d, col(rm, 0)) / z; y = -S.cal.int_par.cc * dot(d, col(rm, 1)) / z; s.label("ray: perpendicular to the glass"); if (s.b()) { x += s.r0(-1e-4, 1e-4); y += s.r0(-1e-4, 1e-4); } } }
}
static bool domain(const Scene& S, double x, double y) { V3 n = glassn(S.cal); double c = -dot(cam_dir(S.cal, x, y), n), gl = len(v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z)); if (c < .3 || dot(cpos(S.cal), n) - gl - S.mm.d[0] < .01 * S.vr) return false; double sn = sqrt(std::max(0., 1 - c * c)) * S.mm.n1; return sn / S.mm.n2[0] < .97 && sn / S.mm.n3 < .97; }

PBT_SUB(snell, 1000000, 30000000) {
  Scene S; gen(s, S); double x, y; image(s, S, x, y); if (!domain(S, x, y)) s.discard();
  s.note("%s; %s; image=(%.17g,%.17g)", show(S.cal).c_str(), show(S.mm).c_str(), x, y); if (S.mm.n3 != 1 || S.mm.n2[0] != 1) s.nontrivial();
  Calibration c = S.cal; vec3d X = {7e7, 7e7, 7e7}, d = {7e7, 7e7, 7e7}; ray_tracing(x, y, &c, S.mm, X, d);
  PBT_CHECK(!memcmp(&c, &S.cal, sizeof c), "ray tracing changed the calibration");
  V3 Xv = v3(X[0], X[1], X[2]), dv = v3(d[0], d[1], d[2]), n = glassn(S.cal), C = cpos(S.cal); double gl = len(v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z)), sc = len(C) + gl + len(Xv);
  PBT_CHECK(close(len(dv), 1, 1e-7), "direction (%g,%g,%g) has length %.12g", d[0], d[1], d[2], len(dv));
  PBT_CHECK(close(dot(Xv, n), gl, 1e-7 * sc), "start point (%g,%g,%g) is %.6g off the far glass face", X[0], X[1], X[2], dot(Xv, n) - gl);
  V3 s0 = cam_dir(S.cal, x, y); double s_air = len(cross(s0, n)), s_w = len(cross(dv, n));
  PBT_CHECK(close(S.mm.n1 * s_air, S.mm.n3 * s_w, 1e-7), "n sin(angle) %.9g in air, %.9g in the observed medium", S.mm.n1 * s_air, S.mm.n3 * s_w);
  PBT_CHECK(dot(dv, n) < 0, "ray does not go away from the camera");
  PBT_CHECK(fabs(dot(cross(s0, n), dv)) < 1e-7 && fabs(dot(cross(s0, n), Xv - C)) < 1e-7 * sc, "ray leaves the plane of incidence");
  V3 eX, ed; if (!ref_ray(x, y, &S.cal, &S.mm, eX, ed)) s.discard();
  // near-perpendicular rays: the direction of the lateral component is only known to rounding
  PBT_CHECK(len(eX - Xv) < 2e-7 * sc && len(ed - dv) < 2e-7, "ray starts at (%.12g,%.12g,%.12g) direction (%.12g,%.12g,%.12g); Snell's law gives (%.12g,%.12g,%.12g) (%.12g,%.12g,%.12g)", X[0], X[1], X[2], d[0], d[1], d[2], eX[0], eX[1], eX[2], ed[0], ed[1], ed[2]);
}
// the ray from the image of a point passes through the point (projection and ray tracing are independent code)
PBT_SUB(through_point, 800000, 20000000) {
  Scene S; gen(s, S); V3 P = gen_in_ball(s, S.target, S.vr); if (s.chance(1, 10)) { V3 n = glassn(S.cal); P = cpos(S.cal) - n * dot(cpos(S.cal) - P, n); s.label("pt:on glass normal"); }
  V3 n = glassn(S.cal); double gl = len(v3(S.cal.glass_par.vec_x, S.cal.glass_par.vec_y, S.cal.glass_par.vec_z)); double ex, ey, sa = 1; if (gl - dot(P, n) < 0 || !ref_project(P, &S.cal, &S.mm, ex, ey, &sa) || sa > .8) s.discard();
  if (dot(cpos(S.cal), n) - gl - S.mm.d[0] < .01 * S.vr) s.discard();
  s.note("%s; %s; P=(%.17g,%.17g,%.17g)", show(S.cal).c_str(), show(S.mm).c_str(), P[0], P[1], P[2]); if (S.mm.n3 != 1 || S.mm.n2[0] != 1) s.nontrivial();
  vec3d X, d; ray_tracing(ex, ey, &S.cal, S.mm, X, d); double D = dist_point_line(P, v3(X[0], X[1], X[2]), v3(d[0], d[1], d[2])), L = len(P - cpos(S.cal)) + len(P);
  PBT_CHECK(D < 3e-7 * L, "ray through the exact image (%.12g,%.12g) misses the point (%g,%g,%g) by %g", ex, ey, P[0], P[1], P[2], D);
  double x = 7e7, y = 7e7; vec3d p = {P[0], P[1], P[2]}; flat_image_coord(p, &S.cal, &S.mm, &x, &y); ray_tracing(x, y, &S.cal, S.mm, X, d); D = dist_point_line(P, v3(X[0], X[1], X[2]), v3(d[0], d[1], d[2]));
  PBT_CHECK(D < 8e-3 + 3e-7 * L, "ray through the library's own image (%.12g,%.12g) misses the point (%g,%g,%g) by %g", x, y, P[0], P[1], P[2], D);
  // the point at the same depth on the ray is the point itself
  if (fabs(d[2]) > .2) { vec3d q; move_along_ray(P[2], X, d, q); PBT_CHECK(q[2] == P[2] && len(v3(q[0], q[1], q[2]) - P) < (8e-3 + 3e-7 * L) / fabs(d[2]), "point of the ray at depth %g is (%g,%g,%g), not (%g,%g,%g)", P[2], q[0], q[1], q[2], P[0], P[1], P[2]); }
}
PBT_SUB(along, 300000, 5000000) {
  vec3d v = {s.rs(-100, 100), s.rs(-100, 100), s.rs(-100, 100)}, d = {s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)}, q = {7e7, 7e7, 7e7}; double Z = s.rs(-200, 200); if (fabs(d[2]) < 1e-3) s.discard(); s.nontrivial(); s.note("vertex (%g,%g,%g) dir (%g,%g,%g) Z=%g", v[0], v[1], v[2], d[0], d[1], d[2], Z);
  move_along_ray(Z, v, d, q); double t = (Z - v[2]) / d[2]; PBT_CHECK(q[2] == Z && close(q[0], v[0] + t * d[0], 1e-9 * (fabs(t) + 100)) && close(q[1], v[1] + t * d[1], 1e-9 * (fabs(t) + 100)), "point at depth %g is (%g,%g,%g)", Z, q[0], q[1], q[2]);
}
