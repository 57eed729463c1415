#pragma once
#include "../pbt/pbt.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <memory>
extern "C" {
#include "vec_utils.h"
#include "calibration.h"
#include "parameters.h"
#include "tracking_frame_buf.h"
#include "trafo.h"
#include "imgcoord.h"
#include "ray_tracing.h"
#include "multimed.h"
#include "lsqadj.h"
}
using pbt::Src; using pbt::fail; using pbt::close;

typedef std::array<double, 3> V3;
typedef long double LD;
typedef std::array<LD, 3> L3;
static inline V3 v3(double a, double b, double c) { return V3{{a, b, c}}; }
static inline V3 operator+(const V3& a, const V3& b) { return v3(a[0]+b[0], a[1]+b[1], a[2]+b[2]); }
static inline V3 operator-(const V3& a, const V3& b) { return v3(a[0]-b[0], a[1]-b[1], a[2]-b[2]); }
static inline V3 operator*(const V3& a, double s) { return v3(a[0]*s, a[1]*s, a[2]*s); }
static inline double dot(const V3& a, const V3& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static inline double len(const V3& a) { return std::sqrt(dot(a, a)); }
static inline V3 unit(const V3& a) { return a * (1. / len(a)); }
static inline V3 cross(const V3& a, const V3& b) { return v3(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]); }
static inline L3 l3(LD a, LD b, LD c) { return L3{{a, b, c}}; }

// ---- independent rotation (as documented: R = Rx(omega) Ry(phi) Rz(kappa))
struct M3 { LD m[3][3]; };
static inline M3 mul(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static inline M3 rot(int ax, LD t) { LD c = cosl(t), s = sinl(t); M3 r = {{{1,0,0},{0,1,0},{0,0,1}}}; int i = (ax + 1) % 3, j = (ax + 2) % 3; r.m[i][i] = c; r.m[i][j] = -s; r.m[j][i] = s; r.m[j][j] = c; return r; }
static inline M3 ref_rotation(double om, double ph, double ka) { return mul(mul(rot(0, om), rot(1, ph)), rot(2, ka)); }
static inline V3 col(const M3& m, int c) { return v3((double)m.m[0][c], (double)m.m[1][c], (double)m.m[2][c]); }

// ---- reference models -------------------------------------------------------------------------------------
// distortion model (documentation: Brown radial + decentering, then scale and shear) in long double
static inline void ref_distort(LD x, LD y, const ap_52& ap, LD& ox, LD& oy) {
  LD r2 = x * x + y * y; LD rad = ap.k1 * r2 + ap.k2 * r2 * r2 + ap.k3 * r2 * r2 * r2;
  LD xd = x + x * rad + ap.p1 * (r2 + 2 * x * x) + 2 * ap.p2 * x * y;
  // the library applies the y decentering term with the already corrected x; the reference uses the textbook form
  LD yd = y + y * rad + ap.p2 * (r2 + 2 * y * y) + 2 * ap.p1 * x * y;
  ox = ap.scx * xd - sinl(ap.she) * yd; oy = cosl(ap.she) * yd;
}

// Exact refracted projection.  Works in the frame of the glass: axis = glass normal (towards the camera), s = signed
// distance of a point from the water-side glass face.  Layers: d[0] above that face, d[1..] below it (water side).
// Returns flat sensor coordinates.
static inline bool ref_project(const V3& P, const Calibration* cal, const mm_np* mm, double& ox, double& oy, double* sin_air = nullptr) {
  V3 g = v3(cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z); LD gl = len(g);
  V3 C = v3(cal->ext_par.x0, cal->ext_par.y0, cal->ext_par.z0);
  LD n[3]; for (int k = 0; k < 3; k++) n[k] = g[k] / gl;
  LD hc = 0, hp = 0; for (int k = 0; k < 3; k++) { hc += C[k] * n[k]; hp += P[k] * n[k]; }
  LD a = hc - gl - mm->d[0];                 // air path height
  LD w = gl - hp; for (int k = 1; k < mm->nlay; k++) w -= mm->d[k];   // water path height
  if (a <= 0 || w < 0) return false;
  // lateral direction
  LD lat[3], R2 = 0; for (int k = 0; k < 3; k++) { lat[k] = (P[k] - hp * n[k]) - (C[k] - hc * n[k]); R2 += lat[k] * lat[k]; }
  LD R = sqrtl(R2); for (int k = 0; k < 3; k++) lat[k] = R > 0 ? lat[k] / R : 0;
  // find t = sin of the angle in air such that the path ends at lateral distance R
  auto reach = [&](LD t) { LD s = 0; auto add = [&](LD h, LD nn) { LD q = t * mm->n1 / nn; LD c = 1 - q * q; s += c <= 0 ? 1e30L : h * q / sqrtl(c); };
    add(a, mm->n1); for (int k = 0; k < mm->nlay; k++) add(mm->d[k], mm->n2[k]); add(w, mm->n3); return s; };
  LD lo = 0, hi = 1; for (int k = 0; k < mm->nlay; k++) if (mm->n2[k] / mm->n1 < hi) hi = mm->n2[k] / mm->n1; if (mm->n3 / mm->n1 < hi) hi = mm->n3 / mm->n1;
  for (int it = 0; it < 120; it++) { LD m = (lo + hi) / 2; if (reach(m) < R) lo = m; else hi = m; }
  LD t = (lo + hi) / 2, c = sqrtl(1 - t * t); if (sin_air) *sin_air = (double)t;
  LD dir[3]; for (int k = 0; k < 3; k++) dir[k] = lat[k] * t - n[k] * c;   // from camera towards glass
  M3 rm = ref_rotation(cal->ext_par.omega, cal->ext_par.phi, cal->ext_par.kappa);
  LD cx = 0, cy = 0, cz = 0; for (int k = 0; k < 3; k++) { cx += rm.m[k][0] * dir[k]; cy += rm.m[k][1] * dir[k]; cz += rm.m[k][2] * dir[k]; }
  if (cz >= 0) return false;
  ox = (double)(-cal->int_par.cc * cx / cz); oy = (double)(-cal->int_par.cc * cy / cz); return true;
}

// reference back-tracing: start on the water face, direction in water
static inline bool ref_ray(double x, double y, const Calibration* cal, const mm_np* mm, V3& X, V3& dir) {
  M3 rm = ref_rotation(cal->ext_par.omega, cal->ext_par.phi, cal->ext_par.kappa);
  LD v[3] = {x, y, -cal->int_par.cc}, s[3], l = sqrtl(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
  for (int k = 0; k < 3; k++) s[k] = (rm.m[k][0]*v[0] + rm.m[k][1]*v[1] + rm.m[k][2]*v[2]) / l;
  V3 g = v3(cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z); LD gl = len(g), n[3]; for (int k = 0; k < 3; k++) n[k] = g[k] / gl;
  LD C[3] = {cal->ext_par.x0, cal->ext_par.y0, cal->ext_par.z0}; LD hc = 0, c0 = 0; for (int k = 0; k < 3; k++) { hc += C[k]*n[k]; c0 -= s[k]*n[k]; }
  if (c0 <= 0) return false;
  LD a = hc - gl - mm->d[0]; if (a <= 0) return false;
  LD lat[3], sl = 0; for (int k = 0; k < 3; k++) { lat[k] = s[k] + c0 * n[k]; sl += lat[k]*lat[k]; } sl = sqrtl(sl); for (int k = 0; k < 3; k++) lat[k] = sl > 0 ? lat[k]/sl : 0;
  LD q2 = sl * mm->n1 / mm->n2[0], q3 = sl * mm->n1 / mm->n3; if (q2 >= 1 || q3 >= 1) return false;
  LD Rr = a * sl / c0 + mm->d[0] * q2 / sqrtl(1 - q2*q2);
  for (int k = 0; k < 3; k++) { X[k] = (double)(C[k] + lat[k] * Rr - n[k] * (a + mm->d[0])); dir[k] = (double)(lat[k]*q3 - n[k]*sqrtl(1 - q3*q3)); }
  return true;
}
static inline double dist_point_line(const V3& p, const V3& X, const V3& d) { V3 w = p - X; return len(w - d * (dot(w, d) / dot(d, d))); }

// ---- generators ---------------------------------------------------------------------------------------------
struct MM { mm_np mm; };
static inline mm_np gen_mm(Src& s, int maxlay = 1) {
  mm_np m; memset(&m, 0, sizeof m); m.nlay = 1; m.n1 = 1; m.n2[0] = m.n2[1] = m.n2[2] = 1; m.n3 = 1;
  switch (s.draw(5)) {
    case 0: s.label("mm:single"); m.d[0] = s.b() ? s.r(0, 5) : 0; return m;                       // one medium
    case 1: m.n2[0] = s.r(1.3, 1.7); m.n3 = 1; m.d[0] = s.r(0.1, 10); s.label("mm:window"); return m;
    case 2: m.n2[0] = m.n3 = s.r(1.2, 1.5); m.d[0] = s.r(0, 10); s.label("mm:two"); return m;
    default: m.n2[0] = s.r(1.3, 1.7); m.n3 = s.r(1.2, 1.5); m.d[0] = s.r(0.1, 12); s.label("mm:full"); break; }
  if (maxlay > 1 && s.b()) { m.nlay = (int)s.i(2, maxlay); for (int k = 1; k < m.nlay; k++) { m.n2[k] = s.r(1.1, 1.7); m.d[k] = s.r(0.1, 8); } s.label("mm:layers"); }
  return m;
}
struct CPar {      // control parameters owned without the library's allocator
  control_par c; mm_np mm; std::vector<std::string> names; std::vector<char*> p1, p2; std::vector<std::array<char, 300>> b1, b2;
  CPar(int cams = 4) : b1(cams), b2(cams) { memset(&c, 0, sizeof c); memset(&mm, 0, sizeof mm); c.num_cams = cams; c.mm = &mm; mm.nlay = 1; mm.n1 = mm.n3 = mm.n2[0] = 1;
    for (int k = 0; k < cams; k++) { snprintf(b1[k].data(), 300, "img%d", k); snprintf(b2[k].data(), 300, "cal%d", k); p1.push_back(b1[k].data()); p2.push_back(b2[k].data()); }
    c.img_base_name = p1.data(); c.cal_img_base_name = p2.data(); }
  CPar(const CPar&) = delete;
};
static inline void gen_sensor(Src& s, control_par& c, bool allow_chfield = true) {
  if (s.chance(1, 8)) { c.imx = (int)s.i(2, 60); c.imy = (int)s.i(2, 60); } else { c.imx = (int)s.i(200, 2048); c.imy = (int)s.i(200, 2048); }
  c.pix_x = s.r(0.004, 0.025); c.pix_y = s.b() ? c.pix_x : s.r(0.004, 0.025); c.chfield = allow_chfield ? (int)s.i(0, 2) : 0;
}
// distortion with bounded displacement: each term contributes at most `amount` (relative) at radius R
static inline ap_52 gen_ap(Src& s, double R, double amount = 0.03) {
  ap_52 a; memset(&a, 0, sizeof a); a.scx = 1;
  int mode = (int)s.draw(7); if (mode == 0) { s.label("ap:none"); return a; }
  auto t = [&](double m) { return mode == 1 || s.b() ? s.r0(-m, m) : 0.; };
  a.k1 = t(amount) / (R * R); a.k2 = t(amount * .5) / pow(R, 4); a.k3 = t(amount * .3) / pow(R, 6); a.p1 = t(amount * .3) / R; a.p2 = t(amount * .3) / R;
  if (mode == 1 || s.b()) a.scx = 1 + s.r0(-1.5 * amount, 1.5 * amount);
  a.she = t(amount); s.label("ap:some"); if (a.she != 0 && a.k1 != 0) s.label("ap:shear+radial");
  return a;
}
// A camera looking at `target` from distance D, glass plane between.  vr = radius of the observed ball around target.
struct CamSpec { V3 target; double vr; double maxtilt = 0.7; double maxglass = 0.5; double distamount = 0.02; bool shift = true; bool distcorner = false; };
static inline Calibration gen_camera(Src& s, const CamSpec& sp, const control_par& cp, const mm_np& mm) {
  Calibration c; memset(&c, 0, sizeof c);
  double om = s.r0(-sp.maxtilt, sp.maxtilt), ph = s.r0(-sp.maxtilt, sp.maxtilt), ka = s.chance(1, 3) ? s.r0(-3.1, 3.1) : s.r0(-.3, .3);
  M3 rm = ref_rotation(om, ph, ka); V3 u = col(rm, 2);
  double D = sp.vr * s.r(5, 25);
  V3 off = v3(s.r0(-.1, .1), s.r0(-.1, .1), s.r0(-.1, .1)) * sp.vr;   // optical axis does not have to hit the target exactly
  V3 C = sp.target + off + u * D;
  c.ext_par.x0 = C[0]; c.ext_par.y0 = C[1]; c.ext_par.z0 = C[2]; c.ext_par.omega = om; c.ext_par.phi = ph; c.ext_par.kappa = ka; rotation_matrix(&c.ext_par);
  // glass: plane with normal g within maxglass of u, at signed distance from target in [1.2 vr, 0.6 D]
  V3 g;
  if (s.chance(1, 8)) g = u; else { V3 e = unit(cross(u, fabs(u[0]) < .7 ? v3(1, 0, 0) : v3(0, 1, 0))), f = cross(u, e); double t = s.r(0, sp.maxglass), az = s.r(0, 2 * M_PI); g = unit(u * cos(t) + e * (sin(t) * cos(az)) + f * (sin(t) * sin(az))); }
  double h = sp.vr * 1.3 + (0.55 * D * dot(u, g) - sp.vr * 1.3) * s.r(0, 1);
  double q = dot(sp.target, g) + h;            // distance of the plane from the world origin along g
  if (q < 1e-3 * D) { // the glass vector cannot represent planes through or behind the origin: move the plane towards the camera
    q = 1e-3 * D + 0.1; }
  c.glass_par.vec_x = g[0] * q; c.glass_par.vec_y = g[1] * q; c.glass_par.vec_z = g[2] * q;
  double sw = cp.imx * cp.pix_x, shh = cp.imy * cp.pix_y; double half = std::min(sw, shh) / 2;
  c.int_par.cc = 0.75 * half * D / sp.vr * s.r(0.7, 1.0);
  if (sp.shift && s.b()) { c.int_par.xh = s.r0(-.08, .08) * sw; c.int_par.yh = s.r0(-.08, .08) * shh; }
  c.added_par = gen_ap(s, sp.distcorner ? std::hypot(sw, shh) / 2 : half, sp.distamount);
  return c;
}
static inline V3 gen_in_ball(Src& s, const V3& c, double r) { double z = s.r0(-1, 1), x = s.r0(-1, 1), y = s.r0(-1, 1); double l = std::sqrt(x*x+y*y+z*z); if (l > 1) { x /= l; y /= l; z /= l; } return c + v3(x, y, z) * r; }
static inline std::string show(const Calibration& c) { char b[900]; snprintf(b, sizeof b, "cam pos=(%.17g,%.17g,%.17g) ang=(%.17g,%.17g,%.17g) xh,yh,cc=(%.17g,%.17g,%.17g) glass=(%.17g,%.17g,%.17g) ap=(%g,%g,%g,%g,%g,%g,%g)",
  c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, c.int_par.xh, c.int_par.yh, c.int_par.cc, c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z,
  c.added_par.k1, c.added_par.k2, c.added_par.k3, c.added_par.p1, c.added_par.p2, c.added_par.scx, c.added_par.she); return b; }
static inline std::string show(const mm_np& m) { char b[300]; snprintf(b, sizeof b, "mm nlay=%d n1=%g n2=(%g,%g,%g) n3=%g d=(%g,%g,%g)", m.nlay, m.n1, m.n2[0], m.n2[1], m.n2[2], m.n3, m.d[0], m.d[1], m.d[2]); return b; }
static inline std::string show(const control_par& c) { char b[200]; snprintf(b, sizeof b, "sensor %dx%d pix=(%g,%g) chfield=%d cams=%d", c.imx, c.imy, c.pix_x, c.pix_y, c.chfield, c.num_cams); return b; }
// ---- rigs: several cameras looking at the same ball through a common glass (or each through its own) ------------
struct Rig { CPar cp; std::vector<Calibration> cal; std::vector<Calibration*> cals; V3 target; double vr = 0; volume_par vp; bool shared_glass = true;
  Rig(int n) : cp(n) { memset(&vp, 0, sizeof vp); }
  mm_np& mm() { return cp.mm; } int n() const { return cp.c.num_cams; } };
struct RigSpec { double vr_lo = 5, vr_hi = 60, mintilt_sep = 0.12, maxtilt = 0.6, dist = 0.02, offset = 40; bool chfield = true; int minpix = 200; bool layers = false; int force_mm = -1; };
static inline V3 gnormal(const Calibration& c) { return unit(v3(c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z)); }
static inline double glen(const Calibration& c) { return len(v3(c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z)); }
static inline V3 campos(const Calibration& c) { return v3(c.ext_par.x0, c.ext_par.y0, c.ext_par.z0); }
static inline void gen_rig(Src& s, Rig& r, const RigSpec& sp) {
  int n = r.n(); gen_sensor(s, r.cp.c, sp.chfield); if (r.cp.c.imx < sp.minpix) r.cp.c.imx = sp.minpix + 56; if (r.cp.c.imy < sp.minpix) r.cp.c.imy = sp.minpix + 24;
  r.cp.mm = gen_mm(s, sp.layers ? 2 : 1); r.vr = s.r(sp.vr_lo, sp.vr_hi); r.target = v3(s.r0(-sp.offset, sp.offset), s.r0(-sp.offset, sp.offset), s.r0(-sp.offset, sp.offset)); r.shared_glass = !s.chance(1, 5);
  for (int k = 0; k < n; k++) { CamSpec cs; cs.target = r.target; cs.vr = r.vr; cs.maxtilt = sp.maxtilt; cs.maxglass = r.shared_glass ? 0.15 : 0.35; cs.distamount = sp.dist; cs.distcorner = true;
    for (int t = 0;; t++) { if (t == 25) s.discard(); Calibration c = gen_camera(s, cs, r.cp.c, r.cp.mm); V3 u = unit(campos(c) - r.target); bool ok = true;
      for (auto& o : r.cal) if (dot(u, unit(campos(o) - r.target)) > cos(sp.mintilt_sep)) ok = false;
      if (ok && k && r.shared_glass) { c.glass_par = r.cal[0].glass_par; if (dot(campos(c), gnormal(c)) - glen(c) - r.cp.mm.d[0] < .3 * r.vr) ok = false; }
      if (dot(campos(c), gnormal(c)) - glen(c) - r.cp.mm.d[0] < .2 * r.vr || glen(c) - dot(r.target, gnormal(c)) < 1.05 * r.vr + r.cp.mm.d[1]) ok = false;
      if (dot(unit(campos(c) - r.target), gnormal(c)) < .75) ok = false;
      if (ok) { r.cal.push_back(c); break; } } }
  for (auto& c : r.cal) r.cals.push_back(&c);
  r.vp.X_lay[0] = r.target[0] - r.vr; r.vp.X_lay[1] = r.target[0] + r.vr; for (int k = 0; k < 2; k++) { r.vp.Zmin_lay[k] = r.target[2] - r.vr; r.vp.Zmax_lay[k] = r.target[2] + r.vr; }
}
// exact image of P in pixels (reference model); false when the point is not on the sensor or outside the model's domain
static inline bool ref_pixel(const Rig& r, int cam, const V3& P, double& px, double& py, double margin = 0) {
  double fx, fy, sa = 1; if (!ref_project(P, &r.cal[cam], &r.cp.mm, fx, fy, &sa) || sa > .8) return false; LD dx, dy; ref_distort(fx + r.cal[cam].int_par.xh, fy + r.cal[cam].int_par.yh, r.cal[cam].added_par, dx, dy);
  LD ex = dx / r.cp.c.pix_x + r.cp.c.imx / (LD)2, ey = r.cp.c.imy / (LD)2 - dy / r.cp.c.pix_y; if (r.cp.c.chfield == 1) ey = (ey - 1) / 2; else if (r.cp.c.chfield == 2) ey /= 2;
  px = (double)ex; py = (double)ey; double H = r.cp.c.chfield ? r.cp.c.imy / 2 : r.cp.c.imy; return px > margin && px < r.cp.c.imx - margin && py > margin && py < H - margin; }
static inline std::string show(const Rig& r) { std::string o = show(r.cp.c) + "; " + show(r.cp.mm); for (auto& c : r.cal) o += "; " + show(c); return o; }
