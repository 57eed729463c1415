#include "common.h"
static void gen(Src& s, control_par& c) { memset(&c, 0, sizeof c); gen_sensor(s, c); }
static void lab(Src& s, const control_par& c) { char b[40]; snprintf(b, 40, "chfield:%d", c.chfield); s.label(b); if (c.imx & 1) s.label("odd width"); if (c.imy & 1) s.label("odd height"); if (c.pix_x != c.pix_y) s.label("non-square pixel"); }

static void model_p2m(const control_par& c, double x, double y, double& mx, double& my) {
  LD yy = y; if (c.chfield == 1) yy = 2 * yy + 1; else if (c.chfield == 2) yy = 2 * yy;
  mx = (double)((x - c.imx / (LD)2) * c.pix_x); my = (double)((c.imy / (LD)2 - yy) * c.pix_y); }

PBT_SUB(forward, 3000000, 60000000) {
  control_par c; gen(s, c); lab(s, c);
  double x = s.rs(-c.imx, 2. * c.imx), y = s.rs(-c.imy, 2. * c.imy); if (s.chance(1, 4)) { x = floor(x); y = floor(y); }
  if (s.chance(1, 16)) { x = c.imx / 2.; y = c.imy / 2.; }
  s.note("%s pixel=(%.17g,%.17g)", show(c).c_str(), x, y); s.nontrivial();
  double mx = 7e7, my = 7e7, ex, ey; pixel_to_metric(&mx, &my, x, y, &c); model_p2m(c, x, y, ex, ey);
  double tx = 1e-12 * (fabs(x) + c.imx) * c.pix_x + 1e-300, ty = 1e-12 * (2 * fabs(y) + c.imy + 1) * c.pix_y;
  PBT_CHECK(close(mx, ex, tx) && close(my, ey, ty), "pixel (%.17g,%.17g) -> metric (%.17g,%.17g), expected (%.17g,%.17g) [%s]", x, y, mx, my, ex, ey, show(c).c_str());
  // shared storage
  double a = x, b = y; pixel_to_metric(&a, &b, a, b, &c); PBT_CHECK(a == mx && b == my, "in-place conversion differs: (%g,%g) vs (%g,%g)", a, b, mx, my);
  // round trip
  double px = 7e7, py = 7e7; metric_to_pixel(&px, &py, mx, my, &c);
  PBT_CHECK(close(px, x, 1e-11 * (fabs(x) + c.imx)) && close(py, y, 1e-11 * (fabs(y) + c.imy + 1)), "pixel (%.17g,%.17g) -> metric -> (%.17g,%.17g) [%s]", x, y, px, py, show(c).c_str());
  a = mx; b = my; metric_to_pixel(&a, &b, a, b, &c); PBT_CHECK(a == px && b == py, "in-place back-conversion differs");
}
PBT_SUB(backward, 3000000, 60000000) {
  control_par c; gen(s, c); lab(s, c);
  double mx = s.rs(-1., 1.) * c.imx * c.pix_x, my = s.rs(-1., 1.) * c.imy * c.pix_y;
  s.note("%s metric=(%.17g,%.17g)", show(c).c_str(), mx, my); s.nontrivial();
  double px = 7e7, py = 7e7; metric_to_pixel(&px, &py, mx, my, &c);
  LD ex = (LD)mx / c.pix_x + c.imx / (LD)2, ey = c.imy / (LD)2 - (LD)my / c.pix_y; if (c.chfield == 1) ey = (ey - 1) / 2; else if (c.chfield == 2) ey /= 2;
  PBT_CHECK(close(px, (double)ex, 1e-11 * c.imx) && close(py, (double)ey, 1e-11 * c.imy), "metric (%.17g,%.17g) -> pixel (%.17g,%.17g), expected (%.17g,%.17g) [%s]", mx, my, px, py, (double)ex, (double)ey, show(c).c_str());
  double bx = 7e7, by = 7e7; pixel_to_metric(&bx, &by, px, py, &c);
  PBT_CHECK(close(bx, mx, 1e-11 * c.imx * c.pix_x) && close(by, my, 1e-11 * c.imy * c.pix_y), "metric (%.17g,%.17g) -> pixel -> (%.17g,%.17g)", mx, my, bx, by);
}
// the image centre is the origin, corners are at half the sensor size, orientation of the axes (metamorphic)
PBT_SUB(axes, 500000, 10000000) {
  control_par c; gen(s, c); lab(s, c); s.nontrivial();
  double x = s.r(0, c.imx), y = s.r(0, c.imy), dx = s.r(0.5, 50), dy = s.r(0.5, 50);
  s.note("%s at (%g,%g) step (%g,%g)", show(c).c_str(), x, y, dx, dy);
  double ax, ay, bx, by; pixel_to_metric(&ax, &ay, x, y, &c); pixel_to_metric(&bx, &by, x + dx, y + dy, &c);
  double f = c.chfield ? 2 : 1;
  PBT_CHECK(close(bx - ax, dx * c.pix_x, 1e-10 * c.imx * c.pix_x) && close(by - ay, -f * dy * c.pix_y, 1e-10 * 4 * (c.imy + 50) * c.pix_y), "step of (%g,%g) px moved metric by (%g,%g)", dx, dy, bx - ax, by - ay);
  double ox, oy, cy = c.imy / 2.; if (c.chfield == 1) cy = (cy - 1) / 2; if (c.chfield == 2) cy /= 2;
  pixel_to_metric(&ox, &oy, c.imx / 2., cy, &c); PBT_CHECK(fabs(ox) < 1e-9 && fabs(oy) < 1e-9, "image centre maps to (%g,%g)", ox, oy);
}
