#include "common.h"
extern "C" {
#include "segmentation.h"
}
struct Blob { int n, nx, ny, sumg; double x, y; int x0, x1, y0, y1; bool operator<(const Blob& o) const { return std::tie(y0, x0, x1, y1, n, sumg) < std::tie(o.y0, o.x0, o.x1, o.y1, o.n, o.sumg); } };
struct Img { int w, h; std::vector<unsigned char> p; unsigned char at(int x, int y) const { return p[(size_t)y * w + x]; } };
// Reference: seeds are found in raster order among the pixels not yet taken; a blob is everything reachable from its seed.
static std::vector<Blob> model(const Img& im, const target_par& tp, int thres, int x0, int x1, int y0, int y1, long* dropped, long* stopped) {
  x0 = std::max(x0, 1); y0 = std::max(y0, 1); x1 = std::min(x1, im.w - 1); y1 = std::min(y1, im.h - 1); std::vector<char> taken(im.p.size()); std::vector<Blob> out;
  auto val = [&](int x, int y) { return taken[(size_t)y * im.w + x] ? 0 : (int)im.at(x, y); };
  for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) { int g = val(x, y); if (g <= thres) continue; bool peak = true; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) if (val(x + dx, y + dy) > g) peak = false; if (!peak) continue;
    std::vector<std::pair<int, int>> st{{x, y}}, all; taken[(size_t)y * im.w + x] = 1;
    while (st.size()) { auto q = st.back(); st.pop_back(); all.push_back(q); int lim = im.at(q.first, q.second) + tp.discont; for (int k = 0; k < 4; k++) { int nx = q.first + (k == 0) - (k == 1), ny = q.second + (k == 2) - (k == 3); if (nx < x0 || nx >= x1 || ny < y0 || ny >= y1 || val(nx, ny) <= thres) continue;
        if (im.at(nx, ny) > lim || im.at(nx + 1, ny) > lim || im.at(nx - 1, ny) > lim || im.at(nx, ny + 1) > lim || im.at(nx, ny - 1) > lim) { if (stopped) ++*stopped; continue; } taken[(size_t)ny * im.w + nx] = 1; st.push_back({nx, ny}); } }
    Blob b; b.n = (int)all.size(); b.sumg = 0; b.x0 = b.x1 = x; b.y0 = b.y1 = y; LD sx = 0, sy = 0, sw = 0; for (auto& q : all) { int g2 = im.at(q.first, q.second); b.sumg += g2; b.x0 = std::min(b.x0, q.first); b.x1 = std::max(b.x1, q.first); b.y0 = std::min(b.y0, q.second); b.y1 = std::max(b.y1, q.second); LD w = g2 - thres; sx += w * q.first; sy += w * q.second; sw += w; }
    b.nx = b.x1 - b.x0 + 1; b.ny = b.y1 - b.y0 + 1; b.x = (double)(sx / sw + .5L); b.y = (double)(sy / sw + .5L);
    if (b.n < tp.nnmin || b.n > tp.nnmax || b.nx < tp.nxmin || b.nx > tp.nxmax || b.ny < tp.nymin || b.ny > tp.nymax || b.sumg <= tp.sumg_min) { if (dropped) ++*dropped; continue; } out.push_back(b); }
  return out;
}
static std::vector<target> recognise(Src& s, const Img& im, const target_par& tp0, int cam, int x0, int x1, int y0, int y1, size_t cap) {
  Img copy = im; target_par tp = tp0; CPar cp(4); cp.c.imx = im.w; cp.c.imy = im.h; cp.c.pix_x = cp.c.pix_y = .01; std::vector<target> pix(cap); memset((void*)pix.data(), 0x5a, sizeof(target) * cap); target guard = pix[0];
  int n = targ_rec(copy.p.data(), &tp, x0, x1, y0, y1, &cp.c, cam, pix.data()); PBT_CHECK(n >= 0 && (size_t)n <= cap, "%d targets", n); PBT_CHECK(copy.p == im.p, "the image was changed"); PBT_CHECK(!memcmp(&tp, &tp0, sizeof tp), "the parameters were changed");
  for (size_t k = n; k < cap; k++) PBT_CHECK(!memcmp(&pix[k], &guard, sizeof guard), "target slot %zu was written, %d targets are reported", k, n); pix.resize(n); return pix; }
static void compare(const std::vector<target>& got, std::vector<Blob> want) {
  std::vector<bool> used(want.size()); for (size_t k = 0; k < got.size(); k++) { const target& t = got[k]; PBT_CHECK(t.tnr == CORRES_NONE, "target %zu is labelled %d", k, t.tnr); PBT_CHECK(t.pnr == (int)k, "target %zu has number %d", k, t.pnr); bool ok = false;
    for (size_t j = 0; j < want.size() && !ok; j++) if (!used[j] && want[j].n == t.n && want[j].nx == t.nx && want[j].ny == t.ny && want[j].sumg == t.sumg && close(want[j].x, t.x, 1e-8) && close(want[j].y, t.y, 1e-8)) ok = used[j] = true;
    PBT_CHECK(ok, "target %zu of %zu: n=%d %dx%d sumg=%d at (%.10g,%.10g) is not in the image (%zu blobs)", k, got.size(), t.n, t.nx, t.ny, t.sumg, t.x, t.y, want.size()); }
  for (size_t j = 0; j < want.size(); j++) PBT_CHECK(used[j], "blob n=%d %dx%d sumg=%d at (%.10g,%.10g) was not found (%zu targets)", want[j].n, want[j].nx, want[j].ny, want[j].sumg, want[j].x, want[j].y, got.size()); }
static void dump(Src& s, const Img& im) { if (!s.want_desc || im.p.size() > 700) return; for (int y = 0; y < im.h; y++) { s.note("\n "); for (int x = 0; x < im.w; x++) s.note(" %3d", im.at(x, y)); } }
static void gen_img(Src& s, Img& im) {
  int style = (int)s.draw(5); static const char* nm[] = {"style:blank+dots", "style:few levels", "style:noise", "style:spots", "style:slopes", "style:bright+holes"}; s.label(nm[style]); size_t N = im.p.size();
  std::vector<int> lv; if (style == 1) { int m = (int)s.i(2, 6); for (int k = 0; k < m; k++) lv.push_back((int)s.i(0, 255)); }
  int base = (int)s.i(0, 80), amp = (int)s.i(0, 60);
  if (style == 0) { for (auto& v : im.p) v = (unsigned char)(s.chance(1, 6) ? s.i(0, 255) : 0); return; } if (style == 1) { for (auto& v : im.p) v = (unsigned char)s.pick(lv); return; } if (style == 2) { for (auto& v : im.p) v = (unsigned char)s.i(0, 255); return; } if (style == 5) { for (auto& v : im.p) v = (unsigned char)(s.chance(1, 8) ? s.i(0, 255) : s.i(240, 255)); return; }
  std::vector<double> f(N); int spots = (int)s.i(0, 1 + (int)N / 60); for (int k = 0; k < spots; k++) { double cx = s.r(-1, im.w), cy = s.r(-1, im.h), sg = s.r(.4, style == 4 ? 6 : 2), a = s.r(20, 400); for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) f[(size_t)y * im.w + x] += a * exp(-(pow(x - cx, 2) + pow(y - cy, 2)) / (2 * sg * sg)); }
  for (size_t k = 0; k < N; k++) { double v = f[k] + base + (amp && s.b() ? s.r(0, amp) : 0); im.p[k] = (unsigned char)(v > 255 ? 255 : v); } (void)base;
}
static target_par gen_tp(Src& s, int cam, int thres) { target_par t; memset(&t, 0, sizeof t); for (int k = 0; k < 4; k++) t.gvthres[k] = (int)s.i(0, 255); t.gvthres[cam] = thres; t.discont = s.chance(1, 4) ? 0 : (int)s.i(0, s.b() ? 30 : 255); bool loose = s.b();
  t.nnmin = loose ? 1 : (int)s.i(0, 6); t.nnmax = loose ? 10000 : (int)s.i(1, 60); t.nxmin = loose ? 1 : (int)s.i(0, 3); t.nxmax = loose ? 10000 : (int)s.i(1, 12); t.nymin = loose ? 1 : (int)s.i(0, 3); t.nymax = loose ? 10000 : (int)s.i(1, 12); t.sumg_min = loose ? 0 : (int)s.i(0, 900); t.cr_sz = (int)s.i(0, 5); return t; }
static std::string show(const target_par& t, int cam) { char b[300]; snprintf(b, 300, "camera %d thresholds %d,%d,%d,%d disco %d n %d-%d nx %d-%d ny %d-%d sumg>%d", cam, t.gvthres[0], t.gvthres[1], t.gvthres[2], t.gvthres[3], t.discont, t.nnmin, t.nnmax, t.nxmin, t.nxmax, t.nymin, t.nymax, t.sumg_min); return b; }

PBT_SUB(images, 500000, 12000000) {
  Img im; int big = s.chance(1, 12) ? 90 : 16; im.w = (int)s.i(1, big); im.h = (int)s.i(1, big); im.p.resize((size_t)im.w * im.h); gen_img(s, im); int cam = (int)s.i(0, 3), thres = s.chance(1, 5) ? (int)s.i(0, 3) : (int)s.i(0, s.b() ? 60 : 255); target_par tp = gen_tp(s, cam, thres);
  int x0 = 0, x1 = im.w, y0 = 0, y1 = im.h; if (s.b()) { x0 = (int)s.i(-3, im.w); x1 = (int)s.i(-1, im.w + 5); y0 = (int)s.i(-3, im.h); y1 = (int)s.i(-1, im.h + 5); s.label("window"); }
  s.note("%dx%d image, window x %d..%d y %d..%d, %s", im.w, im.h, x0, x1, y0, y1, show(tp, cam).c_str()); dump(s, im); long dropped = 0, stopped = 0; auto want = model(im, tp, thres, x0, x1, y0, y1, &dropped, &stopped); auto got = recognise(s, im, tp, cam, x0, x1, y0, y1, im.p.size() + 2);
  compare(got, want); if (want.size()) { s.nontrivial(); s.label(want.size() > 3 ? "targets:4+" : "targets:1-3"); } else s.label("targets:0"); if (dropped) s.label("size limits reject"); if (stopped) s.label("discontinuity stops"); for (auto& b : want) if (b.n > 4) { s.label("larger blob"); break; }
  // no pixel is counted twice: the sums over the targets cannot exceed the window
  long n = 0; for (auto& t : got) n += t.n; PBT_CHECK(n <= (long)im.p.size(), "%ld pixels in targets of an image with %zu", n, im.p.size());
}
// isolated unimodal spots are found once each, at their centroid, by both methods, and shift with the image
PBT_SUB(spots, 150000, 3000000) {
  Img im; im.w = (int)s.i(12, 70); im.h = (int)s.i(12, 70); im.p.assign((size_t)im.w * im.h, 0); int cam = (int)s.i(0, 3), thres = (int)s.i(1, 80), bg = (int)s.i(0, thres); for (auto& v : im.p) v = (unsigned char)(s.chance(1, 10) ? s.i(0, bg) : bg); target_par tp; memset(&tp, 0, sizeof tp); for (int k = 0; k < 4; k++) tp.gvthres[k] = 250; tp.gvthres[cam] = thres; tp.discont = (int)s.i(0, 255); tp.nnmin = tp.nxmin = tp.nymin = 1; tp.nnmax = tp.nxmax = tp.nymax = 100000;
  std::vector<Blob> want; int m = (int)s.i(1, 8); struct Box { int x0, y0, x1, y1; }; std::vector<Box> boxes; bool edge = s.b();
  for (int k = 0; k < m; k++) { int hw = (int)s.i(0, 4), hh = (int)s.i(0, 4), mg = edge ? 1 : 2, lo = 1 + mg - 1; int cx = (int)s.i(lo + hw, std::max(lo + hw, im.w - 1 - mg - hw)), cy = (int)s.i(lo + hh, std::max(lo + hh, im.h - 1 - mg - hh)); Box b{cx - hw, cy - hh, cx + hw, cy + hh}; if (b.x0 < lo || b.y0 < lo || b.x1 > im.w - 1 - mg || b.y1 > im.h - 1 - mg) continue; bool clash = false; for (auto& o : boxes) if (b.x0 <= o.x1 + 2 && o.x0 <= b.x1 + 2 && b.y0 <= o.y1 + 2 && o.y0 <= b.y1 + 2) clash = true; if (clash) continue; boxes.push_back(b);
    int peak = (int)s.i(thres + 1, 255); int ax = (int)s.i(1, std::max(1, (peak - thres) / (hw + 1))), ay = (int)s.i(1, std::max(1, (peak - thres) / (hh + 1))); Blob w; w.n = 0; w.sumg = 0; w.x0 = w.y0 = 1 << 20; w.x1 = w.y1 = -1; LD sx = 0, sy = 0, sw = 0;
    for (int y = b.y0; y <= b.y1; y++) for (int x = b.x0; x <= b.x1; x++) { int v = peak - ax * abs(x - cx) - ay * abs(y - cy); /* falls off strictly: no second local maximum */ if (v <= thres) { im.p[(size_t)y * im.w + x] = (unsigned char)std::max(0, std::min(v, bg)); continue; } im.p[(size_t)y * im.w + x] = (unsigned char)v; w.n++; w.sumg += v; w.x0 = std::min(w.x0, x); w.x1 = std::max(w.x1, x); w.y0 = std::min(w.y0, y); w.y1 = std::max(w.y1, y); LD q = v - thres; sx += q * x; sy += q * y; sw += q; }
    w.nx = w.x1 - w.x0 + 1; w.ny = w.y1 - w.y0 + 1; w.x = (double)(sx / sw + .5L); w.y = (double)(sy / sw + .5L); want.push_back(w); }
  s.note("%dx%d image with %zu spots, %s", im.w, im.h, want.size(), show(tp, cam).c_str()); for (auto& w : want) s.note(" [%d..%d,%d..%d n=%d]", w.x0, w.x1, w.y0, w.y1, w.n); if (want.size() > 1) s.nontrivial(); if (edge) s.label("spots at the window's edge");
  auto got = recognise(s, im, tp, cam, 0, im.w, 0, im.h, im.p.size() + 2); compare(got, want);
  // the second method (peak fitting): same spots away from the window's edges, centroids weighted with the full grey value
  if (edge) return; for (auto& w : want) if (w.x0 < 2 || w.y0 < 2 || w.x1 > im.w - 3 || w.y1 > im.h - 4) return;
  auto w2 = want; for (auto& w : w2) { LD sx = 0, sy = 0; for (int y = w.y0; y <= w.y1; y++) for (int x = w.x0; x <= w.x1; x++) if (im.at(x, y) > thres) { sx += (LD)im.at(x, y) * x; sy += (LD)im.at(x, y) * y; } w.x = (double)(sx / w.sumg + .5L); w.y = (double)(sy / w.sumg + .5L); }
  CPar cp(4); cp.c.imx = im.w; cp.c.imy = im.h; std::vector<target> pix(want.size() + 20); Img copy = im; int n = peak_fit(copy.p.data(), &tp, 1, im.w - 1, 1, im.h - 1, &cp.c, cam, pix.data()); PBT_CHECK(n >= 0 && n <= (int)want.size() + 20, "%d targets", n); PBT_CHECK(copy.p == im.p, "the image was changed"); pix.resize(n); s.label("peak fitting"); compare(pix, w2);
}
// The peak fitting detector on any image, against a model that follows its rules: regions grown from local maxima in raster order, each pixel in the first region that
// reaches it; touching regions are united (one into another, once) when no pixel between their centroids lies more than the discontinuity below the profile.
struct Region { int seed, n = 0, sumg = 0, x0, x1, y0, y1, into = -1; std::vector<int> touch; LD x = 0, y = 0; };
static std::vector<Blob> peak_model(const Img& im, const target_par& tp, int thres, int x0, int x1, int y0, int y1, bool& vague, int& united) {
  x0 = std::max(x0, 0); y0 = std::max(y0, 0); x1 = std::min(x1, im.w); y1 = std::min(y1, im.h); auto g = [&](int x, int y) { return x < 0 || y < 0 || x >= im.w || y >= im.h ? 0 : (int)im.at(x, y); };
  std::vector<int> lab(im.p.size(), -1); std::vector<Region> R; vague = false; united = 0;
  for (int y = y0; y < y1 - 1; y++) for (int x = x0; x < x1; x++) { int v = g(x, y); if (v <= thres || lab[(size_t)y * im.w + x] >= 0) continue; bool top = true; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) if (g(x + dx, y + dy) > v) top = false; if (!top) continue;
    Region r; r.seed = v; r.x0 = r.x1 = x; r.y0 = r.y1 = y; int id = (int)R.size(); lab[(size_t)y * im.w + x] = id; std::vector<std::pair<int, int>> st{{x, y}};
    while (st.size()) { auto q = st.back(); st.pop_back(); int lim = g(q.first, q.second) + tp.discont; for (int k = 0; k < 4; k++) { int nx = q.first + (k == 0) - (k == 1), ny = q.second + (k == 2) - (k == 3); if (nx < x0 || nx >= x1 || ny < y0 || ny >= y1 - 1 || lab[(size_t)ny * im.w + nx] >= 0 || g(nx, ny) <= thres) continue;
        if (g(nx, ny) > lim || g(nx + 1, ny) > lim || g(nx - 1, ny) > lim || g(nx, ny + 1) > lim || g(nx, ny - 1) > lim) continue; lab[(size_t)ny * im.w + nx] = id; st.push_back({nx, ny}); } }
    R.push_back(r); }
  for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) { int id = lab[(size_t)y * im.w + x]; if (id < 0) continue; Region& r = R[id]; int v = g(x, y); r.n++; r.sumg += v; r.x += (LD)x * v; r.y += (LD)y * v; r.x0 = std::min(r.x0, x); r.x1 = std::max(r.x1, x); r.y0 = std::min(r.y0, y); r.y1 = std::max(r.y1, y);
    for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) { int xx = x + dx, yy = y + dy; if (xx < 0 || yy < 0 || xx >= im.w || yy >= im.h) continue; int o = lab[(size_t)yy * im.w + xx]; if (o < 0 || o == id) continue; if (std::find(r.touch.begin(), r.touch.end(), o) == r.touch.end()) r.touch.push_back(o); } }
  for (size_t i = 0; i < R.size(); i++) { Region& a = R[i]; if (a.into >= 0) continue; if (a.touch.size() > 3) vague = true;   // only the first ones are looked at
    for (size_t j = 0; j < a.touch.size() && a.into < 0; j++) { Region& b = R[a.touch[j]]; if (b.into >= 0) continue; LD ax = a.x / a.sumg, ay = a.y / a.sumg, bx = b.x / b.sumg, by = b.y / b.sumg, d = hypotl(ax - bx, ay - by); bool one = true; if (fabsl(d - 2) < 1e-6L) vague = true;
      if (d >= 2) for (int l = 1; l < d; l++) { if (fabsl(l - d) < 1e-6L) { vague = true; break; } LD px = ax + l * (bx - ax) / d, py = ay + l * (by - ay) / d; for (LD t : {px, py}) if (fabsl(t - roundl(t)) < 1e-6L && bx != ax && by != ay) vague = true; auto whole = [](LD t) { return fabsl(t - roundl(t)) < 1e-6L ? (int)roundl(t) : (int)t; }; if ((bx == ax && fabsl(py - roundl(py)) < 1e-6L && ay != roundl(ay)) || (by == ay && fabsl(px - roundl(px)) < 1e-6L && ax != roundl(ax))) vague = true;
          LD line = a.seed + l * (LD)(b.seed - a.seed) / d; int v = g(whole(px), whole(py)) + tp.discont; if (fabsl(v - line) < 1e-6L && a.seed != b.seed) vague = true; if (v < line - 1e-7L || v < a.seed || v < b.seed) { one = false; break; } }
      if (!one) continue; united++; a.into = a.touch[j]; b.x += a.x; b.y += a.y; b.sumg += a.sumg; b.n += a.n; b.x0 = std::min(b.x0, a.x0); b.x1 = std::max(b.x1, a.x1); b.y0 = std::min(b.y0, a.y0); b.y1 = std::max(b.y1, a.y1); } }
  std::vector<Blob> out; bool wide = x1 - x0 > 32; for (auto& r : R) { if (r.into >= 0) continue; if (wide && (r.x0 == x0 || r.y0 == y0 || r.x1 == x1 - 1 || r.y1 == y1 - 1)) continue; Blob b; b.n = r.n; b.sumg = r.sumg; b.x0 = r.x0; b.x1 = r.x1; b.y0 = r.y0; b.y1 = r.y1; b.nx = r.x1 - r.x0 + 1; b.ny = r.y1 - r.y0 + 1; b.x = (double)(r.x / r.sumg + .5L); b.y = (double)(r.y / r.sumg + .5L);
    if (b.n < tp.nnmin || b.n > tp.nnmax || b.nx < tp.nxmin || b.nx > tp.nxmax || b.ny < tp.nymin || b.ny > tp.nymax || b.sumg <= tp.sumg_min) continue; out.push_back(b); }
  return out;
}
PBT_SUB(peaks, 300000, 8000000) {
  Img im; int big = s.chance(1, 12) ? 90 : 16; im.w = (int)s.i(1, big); im.h = (int)s.i(1, big); im.p.resize((size_t)im.w * im.h); gen_img(s, im); int cam = (int)s.i(0, 3), thres = s.chance(1, 5) ? (int)s.i(0, 3) : (int)s.i(0, s.b() ? 60 : 255); target_par tp = gen_tp(s, cam, thres), tp0 = tp;
  int x0 = 0, x1 = im.w, y0 = 0, y1 = im.h; if (s.b()) { x0 = (int)s.i(-3, im.w); x1 = (int)s.i(-1, im.w + 5); y0 = (int)s.i(-3, im.h); y1 = (int)s.i(-1, im.h + 5); s.label("window"); }
  s.note("%dx%d image, window x %d..%d y %d..%d, %s", im.w, im.h, x0, x1, y0, y1, show(tp, cam).c_str()); dump(s, im); bool vague; int united; auto want = peak_model(im, tp, thres, x0, x1, y0, y1, vague, united);
  CPar cp(4); cp.c.imx = im.w; cp.c.imy = im.h; std::vector<target> pix(im.p.size() + 2); Img copy = im; int n = peak_fit(copy.p.data(), &tp, x0, x1, y0, y1, &cp.c, cam, pix.data()); PBT_CHECK(copy.p == im.p, "the image was changed"); PBT_CHECK(!memcmp(&tp, &tp0, sizeof tp), "the parameters were changed"); PBT_CHECK(n >= 0 && n <= (int)im.p.size(), "%d targets", n); pix.resize(n);
  long sum = 0, tot = 0; for (auto& t : pix) { sum += t.sumg; PBT_CHECK(t.n >= 1 && t.n <= t.nx * t.ny, "a target of %d pixels in %dx%d", t.n, t.nx, t.ny); } for (auto v : im.p) tot += v; PBT_CHECK(sum <= tot, "the targets hold %ld grey values, the image %ld: some are counted twice", sum, tot);
  if (vague) { s.label("vague: only counts checked"); return; } compare(pix, want); if (want.size()) s.nontrivial(); if (united) s.label("united"); s.label(want.size() > 3 ? "targets:4+" : want.size() ? "targets:1-3" : "targets:0");
}
// very large targets: their pixels fan out into a front of more than two thousand
PBT_SUB(huge, 4, 40) {
  int D = (int)s.i(1030, 1150), T = 64; Img im; im.w = 2 * D + 3; im.h = D + 4; im.p.assign((size_t)im.w * im.h, 0); int cx = D + 1, v = (int)s.i(60, 255); long n = 0; auto set = [&](int x, int y) { if (!im.p[(size_t)y * im.w + x]) { im.p[(size_t)y * im.w + x] = (unsigned char)v; n++; } };
  set(cx, 1); for (int x = -D + 1; x <= D - 1; x++) { set(cx + x, 2); for (int y = 1; y <= D; y++) { int l = abs(x) + y; if (l > D) break; if (l >= D - T || x % T == 0) set(cx + x, y + 1 < 2 ? 2 : y + 1); } }
  target_par tp; memset(&tp, 0, sizeof tp); tp.gvthres[0] = 20; tp.nnmin = tp.nxmin = tp.nymin = 1; tp.nnmax = 100000000; tp.nxmax = tp.nymax = 100000; s.note("target of %ld pixels in a %dx%d image", n, im.w, im.h); s.nontrivial();
  auto want = model(im, tp, 20, 0, im.w, 0, im.h, nullptr, nullptr); auto got = recognise(s, im, tp, 0, 0, im.w, 0, im.h, 1000); compare(got, want); PBT_CHECK(got.size() == 1, "%zu targets for one connected shape", got.size());
  // the peak fitting detector on a flat area (everything is queued) and on very many dots
  bool dots = s.b(); im.w = (int)s.i(140, 160); im.h = (int)s.i(140, 160); im.p.assign((size_t)im.w * im.h, 0); if (dots) { for (int y = 1; y < im.h; y += 2) for (int x = 1; x < im.w; x += 2) im.p[(size_t)y * im.w + x] = (unsigned char)v; } else for (int y = 2; y < im.h - 3; y++) for (int x = 2; x < im.w - 3; x++) im.p[(size_t)y * im.w + x] = (unsigned char)v;
  CPar cp(4); cp.c.imx = im.w; cp.c.imy = im.h; std::vector<target> pix(im.p.size()); bool vague; int united; want = peak_model(im, tp, 20, 0, im.w, 0, im.h, vague, united); int m = peak_fit(im.p.data(), &tp, 0, im.w, 0, im.h, &cp.c, 0, pix.data()); pix.resize(m); compare(pix, want); s.label(dots ? "thousands of peaks" : "flat area of thousands of pixels"); PBT_CHECK(dots ? m > 4096 : m == 1, "%d targets", m);
}
