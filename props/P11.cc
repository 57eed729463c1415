#include "files.h"
extern "C" {
#include "image_processing.h"
}
struct Img { int w, h; std::vector<unsigned char> p; size_t n() const { return p.size(); } };
static void gen_img(Src& s, Img& im, int big = 14) { im.w = (int)s.i(1, s.chance(1, 10) ? 60 : big); im.h = (int)s.i(1, s.chance(1, 10) ? 60 : big); im.p.resize((size_t)im.w * im.h); int st = (int)s.draw(4); static const char* nm[] = {"img:random", "img:constant", "img:black+white", "img:dark", "img:bright"}; s.label(nm[st]); int c = (int)s.i(0, 255); for (auto& v : im.p) v = (unsigned char)(st == 0 ? s.i(0, 255) : st == 1 ? c : st == 2 ? (s.b() ? 255 : 0) : st == 3 ? s.i(0, 20) : s.i(235, 255)); }
static void fill(Src& s, std::vector<unsigned char>& v) { int c = (int)s.i(0, 255); for (auto& x : v) x = (unsigned char)(c + (&x - &v[0]) * 37); }
struct Ctl : CPar { Ctl(const Img& im, int ch = 0) : CPar(1) { c.imx = im.w; c.imy = im.h; c.pix_x = c.pix_y = .01; c.chfield = ch; } };
static void dump(Src& s, const char* t, const Img& im) { if (!s.want_desc) return; s.note(" %s %dx%d", t, im.w, im.h); if (im.n() <= 300) for (int y = 0; y < im.h; y++) { s.note("\n "); for (int x = 0; x < im.w; x++) s.note(" %3d", im.p[(size_t)y * im.w + x]); } }
typedef double Filt[3][3];
static void gen_filt(Src& s, Filt f) { int st = (int)s.draw(4); for (int i = 0; i < 9; i++) { double v; switch (st) { case 0: v = 1; break; case 1: v = (double)s.i0(-9, 9); break; case 2: v = s.r(0, 1); break; case 3: v = (double)s.i(0, 2000); break; default: v = s.r0(-2, 2); } f[i / 3][i % 3] = v; } if (s.chance(1, 12)) for (int i = 0; i < 9; i++) f[i / 3][i % 3] = 0; static const char* nm[] = {"filter:ones", "filter:signed integers", "filter:fractions", "filter:large", "filter:signed fractions"}; s.label(nm[st]); }
// range of values the 3x3 filter may give in linear position k (rounding of the sums allowed for)
static void filt_range(const Img& im, const Filt f, size_t k, int& lo, int& hi) { double acc = 0, sum = 0, mag = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = f[i][j] * im.p[k + (long)(i - 1) * im.w + j - 1]; acc += v; mag += fabs(v); sum += f[i][j]; } double e = (mag + 1) * 1e-12 / fabs(sum) + fabs(acc / sum) * 1e-12, v = acc / sum; auto q = [](double x) { return x > 255 ? 255 : x < 8 ? 8 : (int)floor(x); }; lo = q(v - e); hi = q(v + e); }
static bool zero_sum(const Filt f) { double s = 0; for (int i = 0; i < 9; i++) s += f[i / 3][i % 3]; return s == 0; }
static bool near_zero_sum(const Filt f) { double s = 0, m = 0; for (int i = 0; i < 9; i++) { s += f[i / 3][i % 3]; m += fabs(f[i / 3][i % 3]); } return fabs(s) < 1e-6 * m; }
static void check_filter(const Img& in, const std::vector<unsigned char>& before, const std::vector<unsigned char>& out, const Filt f, const char* what) { size_t N = in.n(); long end = (long)N - in.w - 1; for (size_t k = 0; k < N; k++) { if ((long)k < in.w + 1 || (long)k >= end) { PBT_CHECK(out[k] == before[k], "%s: pixel %zu outside the processed lines was changed", what, k); continue; } int lo, hi; filt_range(in, f, k, lo, hi); PBT_CHECK(out[k] >= lo && out[k] <= hi, "%s: pixel %zu (x %zu, y %zu) is %d, expected %d", what, k, k % in.w, k / in.w, out[k], lo); } }

PBT_SUB(filter3, 250000, 6000000) {
  Img im; gen_img(s, im); Filt f; gen_filt(s, f); Ctl c(im); if (!zero_sum(f) && near_zero_sum(f)) s.discard(); s.note("filter %g %g %g / %g %g %g / %g %g %g;", f[0][0], f[0][1], f[0][2], f[1][0], f[1][1], f[1][2], f[2][0], f[2][1], f[2][2]); dump(s, "image", im);
  std::vector<unsigned char> out(im.n()); fill(s, out); auto b = out; auto in = im.p; int r = filter_3(in.data(), out.data(), f, &c.c); PBT_CHECK(in == im.p, "the input image was changed"); if (zero_sum(f)) { PBT_CHECK(r == 0, "an all-zero filter is accepted"); PBT_CHECK(out == b, "a bad filter wrote into the output"); s.label("zero filter"); return; }
  PBT_CHECK(r == 1, "result %d", r); check_filter(im, b, out, f, "3x3 filter"); if (im.w > 2 && im.h > 2) s.nontrivial();
}
PBT_SUB(lowpass, 200000, 5000000) {
  Img im; gen_img(s, im); Ctl c(im); dump(s, "image", im); std::vector<unsigned char> out(im.n()); fill(s, out); auto b = out; auto in = im.p; lowpass_3(in.data(), out.data(), &c.c); PBT_CHECK(in == im.p, "the input image was changed"); long end = (long)im.n() - im.w - 1; if (im.w > 2 && im.h > 2) s.nontrivial();
  for (long k = 0; k < (long)im.n(); k++) { if (k < im.w + 1 || k >= end) { PBT_CHECK(out[k] == b[k], "pixel %ld outside the processed lines was changed", k); continue; } int sum = 0; for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) sum += im.p[k + (long)i * im.w + j]; PBT_CHECK(out[k] == sum / 9, "pixel %ld is %d, the mean of its neighbourhood is %d/9", k, out[k], sum); }
}
// exact mean over the symmetric window that fits; interior pixels exact, border pixels lose at most the rounding of the row sums
static void blur_bounds(const Img& im, int span, int x, int y, int& lo, int& hi) { int ax = std::min({span, x, im.w - 1 - x}), ay = std::min({span, y, im.h - 1 - y}); long sum = 0; for (int j = y - ay; j <= y + ay; j++) for (int i = x - ax; i <= x + ax; i++) sum += im.p[(size_t)j * im.w + i]; long cnt = (2 * ax + 1) * (2 * ay + 1); hi = (int)(sum / cnt); int full = std::min(span, (im.w - 1) / 2); lo = hi; if (ax < full) { double v = (double)sum / cnt - 1. / (2 * full + 1); lo = v < 0 ? 0 : (int)floor(v + 1e-12); } }
static int gen_span(Src& s, const Img& im) { int m = std::min(im.w, im.h); int r = s.chance(1, 5) ? (int)s.i(0, 70) : (int)s.i(0, std::max(0, (m - 1) / 2)); s.label(2 * r + 1 > m ? "span larger than the image" : r ? "span fits" : "span zero"); return r; }
PBT_SUB(blur, 200000, 5000000) {
  Img im; gen_img(s, im); Ctl c(im); int span = gen_span(s, im); s.note("span %d;", span); dump(s, "image", im); std::vector<unsigned char> out(im.n()); fill(s, out); auto in = im.p; int r = fast_box_blur(span, in.data(), out.data(), &c.c); PBT_CHECK(r == 1, "result %d", r); PBT_CHECK(in == im.p, "the input image was changed"); if (span && im.w > 2 && im.h > 2) s.nontrivial();
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) { int lo, hi; blur_bounds(im, span, x, y, lo, hi); int v = out[(size_t)y * im.w + x]; PBT_CHECK(v >= lo && v <= hi, "pixel (%d,%d) is %d, expected %d%s", x, y, v, hi, lo < hi ? " or one less" : ""); }
}
PBT_SUB(arithmetic, 200000, 5000000) {
  Img a, b; gen_img(s, a); b.w = a.w; b.h = a.h; b.p.resize(a.n()); int st = (int)s.draw(2); for (size_t k = 0; k < b.n(); k++) b.p[k] = (unsigned char)(st == 0 ? s.i(0, 255) : st == 1 ? (s.b() ? 0 : s.i(1, 255)) : a.p[k]); Ctl c(a); dump(s, "a", a); dump(s, "b", b); if (a.n() > 4) s.nontrivial(); int alias = (int)s.draw(2); if (alias) s.label("in place");
  auto A = a.p, B = b.p; std::vector<unsigned char> O(a.n()); unsigned char* o = alias == 0 ? O.data() : alias == 1 ? A.data() : B.data();
  subtract_img(A.data(), B.data(), o, &c.c); for (size_t k = 0; k < a.n(); k++) PBT_CHECK(o[k] == std::max(0, a.p[k] - b.p[k]), "difference of %d and %d is %d", a.p[k], b.p[k], o[k]); PBT_CHECK((alias == 1 || A == a.p) && (alias == 2 || B == b.p), "an input was changed");
  A = a.p; B = b.p; o = alias == 0 ? O.data() : alias == 1 ? A.data() : B.data(); subtract_mask(A.data(), B.data(), o, &c.c); for (size_t k = 0; k < a.n(); k++) PBT_CHECK(o[k] == (b.p[k] ? a.p[k] : 0), "pixel %d under mask %d is %d", a.p[k], b.p[k], o[k]); PBT_CHECK((alias == 1 || A == a.p) && (alias == 2 || B == b.p), "an input was changed");
  A = a.p; copy_images(A.data(), O.data(), &c.c); PBT_CHECK(O == a.p && A == a.p, "the copy differs");
  int half = (int)s.i(0, 2); A = a.p; split(A.data(), half, &c.c); s.label("field:" + std::to_string(half)); if (!half) { PBT_CHECK(A == a.p, "full frame was changed"); return; } int rows = a.h / 2; for (int y = 0; y < rows; y++) for (int x = 0; x < a.w; x++) PBT_CHECK(A[(size_t)y * a.w + x] == a.p[(size_t)(2 * y + (half == 1)) * a.w + x], "field row %d col %d is %d", y, x, A[(size_t)y * a.w + x]); for (size_t k = a.n() / 2; k < a.n(); k++) PBT_CHECK(A[k] == 2, "pixel %zu of the erased half is %d", k, A[k]);
}
PBT_SUB(prepare, 200000, 4000000) {
  Locale L(s); Img im; gen_img(s, im); int span = gen_span(s, im), ch = (int)s.i(0, 2), hp = (int)s.i(0, 2); Ctl c(im, ch); Filt f; gen_filt(s, f); if (hp == 2 && near_zero_sum(f) && !zero_sum(f)) s.discard(); std::string file = pbt::scratch() + "/filter.par", txt; for (int i = 0; i < 9; i++) { char b[60]; snprintf(b, 60, "%.17g%s", f[i / 3][i % 3], i % 3 == 2 ? "\n" : " "); txt += b; } int fault = hp == 2 ? (int)s.draw(7) : 0;
  if (hp == 2) { if (fault == 6) { unlink(file.c_str()); s.label("filter file missing"); } else { if (fault == 7) { int cut = (int)s.i(0, 8); size_t p = 0; for (int k = 0; k < cut; k++) p = txt.find_first_of(" \n", p) + 1; txt.resize(p); if (s.b()) txt += "x"; s.label("filter file truncated"); } pbt::spew(file, txt); } }
  s.note("span %d field %d second filter %d %s;", span, ch, hp, hp == 2 ? txt.c_str() : ""); dump(s, "image", im); std::vector<unsigned char> out(im.n()); fill(s, out); auto in = im.p; int r = LOC(prepare_image, in.data(), out.data(), span, hp, (char*)file.c_str(), &c.c); PBT_CHECK(in == im.p, "the source image was changed");
  if (fault >= 6) { PBT_CHECK(r == 0, "a bad filter file is reported as success"); return; } PBT_CHECK(r == 1, "result %d", r); if (span && im.w > 2 && im.h > 2) s.nontrivial(); s.label("second filter:" + std::to_string(hp));
  // expected high-pass image: from the library's own blur (decided by the blur check), then field split, then the second filter
  Img e = im; std::vector<unsigned char> lp(im.n()); fast_box_blur(span, in.data(), lp.data(), &c.c); for (size_t k = 0; k < im.n(); k++) e.p[k] = (unsigned char)std::max(0, im.p[k] - lp[k]);
  if (ch) { auto t = e.p; for (int y = 0; y < im.h / 2; y++) for (int x = 0; x < im.w; x++) e.p[(size_t)y * im.w + x] = t[(size_t)(2 * y + (ch == 1)) * im.w + x]; for (size_t k = im.n() / 2; k < im.n(); k++) e.p[k] = 2; }
  if (hp == 0) for (size_t k = 0; k < im.n(); k++) PBT_CHECK(out[k] == e.p[k], "pixel %zu (x %zu, y %zu) is %d, expected %d", k, k % im.w, k / im.w, out[k], e.p[k]); 
  else if (hp == 1) { long end = (long)im.n() - im.w - 1; for (long k = 0; k < (long)im.n(); k++) { if (k < im.w + 1 || k >= end) { PBT_CHECK(out[k] == e.p[k], "pixel %ld outside the second filter was changed", k); continue; } int sum = 0; for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) sum += e.p[k + (long)i * im.w + j]; PBT_CHECK(out[k] == sum / 9, "pixel %ld is %d, the low-pass of the high-pass image is %d/9", k, out[k], sum); } }
  else if (zero_sum(f)) PBT_CHECK(out == e.p, "a zero filter changed the image"); else check_filter(e, e.p, out, f, "second filter");
}
