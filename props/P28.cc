// P28: the whole chain from images to particles (and paths).  Particles are rendered as spots into the images of a rig by the reference
// camera; what preprocessing, recognition, matching and triangulation make of them is compared with the truth.
#include "frames.h"
extern "C" {
#include "image_processing.h"
#include "segmentation.h"
#include "correspondences.h"
#include "orientation.h"
#include "track.h"
#include "tracking_run.h"
}
typedef std::array<double, 2> V2;
static char* cs(const std::string& a) { return (char*)a.c_str(); }
struct View { bool on = false; V2 px{}, flat{}; };                       // full-frame pixel and flat sensor coordinates
struct Optics { double sigma = 1.2, amp = 150; int bg = 0, noise = 0, span = 8, hp = 0; bool raw = false, files = false; int thres = 30; double margin = 0, loc = .3, locy = .3; };
struct World { Rig r; Optics o; target_par tp; bool peak = false; World(int n) : r(n) { memset(&tp, 0, sizeof tp); } };

static void gen_world(Src& s, World& w, bool field, double apart = .12) {
  Rig& r = w.r; RigSpec sp; sp.vr_lo = 8; sp.dist = .015; sp.chfield = false; sp.mintilt_sep = apart; gen_rig(s, r, sp); control_par& c = r.cp.c;
  // a smaller sensor of the same extent
  double sw = c.imx * c.pix_x, sh = c.imy * c.pix_y, asp = s.one({1., .8, 1.25}); c.imx = (int)s.i(140, 360); c.imy = (int)std::min(400., std::max(120., c.imx * sh / sw * asp)); c.pix_x = sw / c.imx; c.pix_y = sh / c.imy; if (c.imy % 2) { c.imy++; c.pix_y = sh / c.imy; }
  c.chfield = field && s.chance(1, 4) ? (int)s.i(1, 2) : 0; Optics& o = w.o; o.sigma = c.chfield ? s.r(1.6, 2.4) : s.r(.8, 2); o.amp = s.r(110, 200); o.bg = (int)s.i(0, 30); o.noise = (int)s.i(0, 3); o.raw = s.chance(1, 5); o.span = (int)s.i(8, 16) + (int)o.sigma; o.hp = (int)s.i(0, 1); o.files = s.b();
  o.thres = o.raw ? o.bg + o.noise + 2 + (int)(o.amp * .2) : (int)(o.amp * s.r(.1, .2)); o.margin = 3 * o.sigma + 4 + (o.raw ? 0 : o.span); 
  target_par& t = w.tp; for (int& g : t.gvthres) g = o.thres; t.discont = (int)s.i(200, 400); t.nnmin = 1; t.nnmax = 500; t.nxmin = t.nymin = 1; t.nxmax = t.nymax = 40; t.sumg_min = (int)s.i(0, 60); t.cr_sz = 3;
  o.loc = .2; o.locy = c.chfield ? .8 : .2; 
  volume_par& v = r.vp; double pm = std::max(c.pix_x, c.pix_y); v.eps0 = pm * s.r(2, 3) * (c.chfield ? 2 : 1); v.cn = v.cnx = v.cny = v.csumg = s.b() ? 0 : .02; v.corrmin = 0; c.allCam_flag = r.n() > 2 && s.chance(1, 5); s.label("cams:" + std::to_string(r.n())); if (c.chfield) s.label("half field"); if (o.raw) s.label("no preprocessing"); if (o.files) s.label("through target files"); if (c.allCam_flag) s.label("full sets only"); }
// images of X; false when it is too near the edge of one of them
static bool views(const World& w, const V3& X, std::vector<View>& v) {
  const Rig& r = w.r; v.assign(r.n(), View()); int ch = r.cp.c.chfield; Rig& q = (Rig&)r; q.cp.c.chfield = 0; bool ok = true;
  for (int c = 0; c < r.n() && ok; c++) { View& a = v[c]; double x, y; a.on = ref_pixel(r, c, X, x, y); a.px = {x, y}; double fx, fy, sa; if (!ref_project(X, &r.cal[c], &r.cp.mm, fx, fy, &sa) || sa > .8) { ok = false; break; } a.flat = {fx, fy};
    double m = w.o.margin, W = r.cp.c.imx, H = r.cp.c.imy; bool in = x > m && x < W - m && y > m && y < H - m, out = x < -m || x > W + m || y < -m || y > H + m; if (!in && !out) ok = false; a.on = in; }
  q.cp.c.chfield = ch; return ok; }
static double seg(const V2& p, const V2& a, const V2& b) { double dx = b[0] - a[0], dy = b[1] - a[1], l = dx * dx + dy * dy, t = l > 0 ? ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l : 0; t = std::max(0., std::min(1., t)); return std::hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy); }
// the part of the line of sight of flat point f of camera a between the limits of the volume, seen by camera b
static bool chord(const Rig& r, int a, const V2& f, int b, V2& p, V2& q) {
  V3 X, d; if (!ref_ray(f[0], f[1], &r.cal[a], &r.cp.mm, X, d) || fabs(d[2]) < .05) return false; V2* o[2] = {&p, &q}; double z[2] = {r.vp.Zmin_lay[0], r.vp.Zmax_lay[0]}; for (int k = 0; k < 2; k++) { V3 P = X + d * ((z[k] - X[2]) / d[2]); double x, y, sa; if (!ref_project(P, &r.cal[b], &r.cp.mm, x, y, &sa) || sa > .85) return false; *o[k] = {x, y}; } return true; }
// does the new particle stay clear of the others in every image and along every line of sight?
static bool clear_of(const World& w, const std::vector<View>& v, const std::vector<std::vector<View>>& all) {
  const Rig& r = w.r; const control_par& c = r.cp.c; double pm = std::max(c.pix_x, c.pix_y), far = r.vp.eps0 + 4 * pm, sep = 8 * w.o.sigma + 4; V2 p, q;
  for (auto& o : all) for (int k = 0; k < r.n(); k++) if (v[k].on && o[k].on && std::hypot(v[k].px[0] - o[k].px[0], v[k].px[1] - o[k].px[1]) < sep) return false;
  for (int a = 0; a < r.n(); a++) for (int b = a + 1; b < r.n(); b++) {
    if (v[a].on) { if (!chord(r, a, v[a].flat, b, p, q)) return false; if (seg(v[b].flat, p, q) > .3 * r.vp.eps0) return false; for (auto& o : all) if (o[b].on && seg(o[b].flat, p, q) < far) return false; }
    if (v[b].on) for (auto& o : all) if (o[a].on) { if (!chord(r, a, o[a].flat, b, p, q)) return false; if (seg(v[b].flat, p, q) < far) return false; } }
  return true; }
static void render(Src& s, const World& w, int cam, const std::vector<std::vector<View>>& all, const std::vector<double>& bright, std::vector<unsigned char>& im) {
  int W = w.r.cp.c.imx, H = w.r.cp.c.imy; std::vector<double> f((size_t)W * H, w.o.bg); double sg = w.o.sigma; uint64_t z = s.draw(1u << 30) * 2654435761u + 12345;
  for (size_t k = 0; k < all.size(); k++) if (all[k][cam].on) { double x = all[k][cam].px[0], y = all[k][cam].px[1]; int R = (int)(5 * sg) + 2; for (int j = std::max(0, (int)y - R); j < std::min(H, (int)y + R + 1); j++) for (int i = std::max(0, (int)x - R); i < std::min(W, (int)x + R + 1); i++) f[(size_t)j * W + i] += w.o.amp * bright[k] * exp(-(pow(i + .5 - x, 2) + pow(j + .5 - y, 2)) / (2 * sg * sg)); }
  im.resize(f.size()); for (size_t k = 0; k < f.size(); k++) { double n = 0; if (w.o.noise) { z = z * 6364136223846793005ull + 1442695040888963407ull; n = (double)((z >> 33) % (w.o.noise + 1)); } im[k] = (unsigned char)std::max(0., std::min(255., floor(f[k] + n + .5))); } }
// midpoints of the pairs of lines of sight, averaged
static V3 midpoint(const Rig& r, const std::vector<V2>& flat, const std::vector<int>& cams) {
  V3 sum = v3(0, 0, 0); int n = 0; for (size_t i = 0; i < cams.size(); i++) for (size_t j = 0; j < i; j++) { V3 A, a, B, b; ref_ray(flat[i][0], flat[i][1], &r.cal[cams[i]], &r.cp.mm, A, a); ref_ray(flat[j][0], flat[j][1], &r.cal[cams[j]], &r.cp.mm, B, b); V3 d = B - A; double aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), ad = dot(a, d), bd = dot(b, d), det = aa * bb - ab * ab; double t = (ad * bb - bd * ab) / det, u = (ad * ab - bd * aa) / det; sum = sum + (A + a * t + B + b * u) * .5; n++; } return sum * (1. / n); }
// how far the reconstruction may be off when every image is off by the localisation error
static double tolerance(const World& w, const std::vector<View>& v, const V3& X) {
  const Rig& r = w.r; std::vector<V2> f; std::vector<int> c; for (int k = 0; k < r.n(); k++) if (v[k].on) { f.push_back(v[k].flat); c.push_back(k); } V3 X0 = midpoint(r, f, c); double t = len(X0 - X); 
  for (size_t k = 0; k < f.size(); k++) for (int i = 0; i < 2; i++) { double d = i ? w.o.locy * r.cp.c.pix_y : w.o.loc * r.cp.c.pix_x; auto g = f; g[k][i] += d; t += len(midpoint(r, g, c) - X0); } return t * 1.2 + 1e-4; }

struct Result { std::vector<std::vector<target>> targ; struct Hit { V3 x; int p[4]; }; std::vector<Hit> hits; int counts[4]; };
static void run(Src& s, World& w, const std::vector<std::vector<unsigned char>>& im, Result& res, int num) {
  Rig& r = w.r; control_par& c = r.cp.c; int n = r.n(); res.targ.assign(n, {}); std::vector<std::vector<coord_2d>> crd(n);
  for (int k = 0; k < n; k++) { Exact<unsigned char> in(im[k].size()), out(im[k].size()); memcpy(in.p, im[k].data(), im[k].size()); if (w.o.raw) { memcpy(out.p, in.p, im[k].size()); if (c.chfield) split(out.p, c.chfield, &c); } else { int ok = prepare_image(in.p, out.p, w.o.span, w.o.hp, cs("none"), &c); PBT_CHECK(ok == 1, "preprocessing of camera %d fails", k); }
    std::vector<target> t(4000); int H = c.chfield ? c.imy / 2 : c.imy; int got = w.peak ? peak_fit(out.p, &w.tp, 0, c.imx, 0, H, &c, k, t.data()) : targ_rec(out.p, &w.tp, 0, c.imx, 0, H, &c, k, t.data()); PBT_CHECK(got >= 0 && got < 4000, "%d targets in camera %d", got, k); t.resize(got);
    if (w.o.files) { std::string b = pbt::scratch() + "/cam" + std::to_string(k) + "."; PBT_CHECK(write_targets(t.data(), got, cs(b), num), "writing targets fails"); Exact<target> u(got); int q = read_targets(u.p, cs(b), num); PBT_CHECK(q == got, "%d targets written, %d read", got, q); for (int j = 0; j < got; j++) t[j] = u[j]; }
    res.targ[k] = t; for (int j = 0; j < got; j++) { coord_2d q; pixel_to_metric(&q.x, &q.y, t[j].x, t[j].y, &c); dist_to_flat(q.x, q.y, r.cals[k], &q.x, &q.y, 1e-6); q.pnr = j; crd[k].push_back(q); } if (got) quicksort_coord2d_x(crd[k].data(), got); }
  frame f; memset(&f, 0, sizeof f); f.num_cams = n; std::vector<target*> tp; std::vector<coord_2d*> cp; std::vector<int> nt; for (int k = 0; k < n; k++) { tp.push_back(res.targ[k].data()); cp.push_back(crd[k].data()); nt.push_back((int)res.targ[k].size()); } f.targets = tp.data(); f.num_targets = nt.data();
  n_tupel* con = correspondences(&f, cp.data(), &r.vp, &c, r.cals.data(), res.counts); PBT_CHECK(con, "no matches are returned"); std::unique_ptr<n_tupel, void (*)(void*)> own(con, free); PBT_CHECK(res.counts[3] >= 0 && res.counts[3] == res.counts[0] + res.counts[1] + res.counts[2], "counts %d %d %d %d", res.counts[0], res.counts[1], res.counts[2], res.counts[3]);
  for (int i = 0; i < res.counts[3]; i++) { Result::Hit h; std::vector<V2> xy(n); for (int k = 0; k < 4; k++) h.p[k] = -1; for (int k = 0; k < n; k++) { int q = con[i].p[k]; if (q >= 0) { PBT_CHECK(q < nt[k], "set %d names target %d of camera %d, which has %d", i, q, k, nt[k]); xy[k] = {crd[k][q].x, crd[k][q].y}; h.p[k] = crd[k][q].pnr; } else xy[k] = {COORD_UNUSED, COORD_UNUSED}; }
    vec3d x; point_position((vec2d*)xy.data(), n, c.mm, r.cals.data(), x); h.x = v3(x[0], x[1], x[2]); res.hits.push_back(h); } }

// which particle each hit is; -1 for none
static void compare(Src& s, World& w, const std::vector<V3>& X, const std::vector<std::vector<View>>& v, Result& R, std::vector<int>& who, const char* when) {
  Rig& r = w.r; control_par& c = r.cp.c; int n = r.n(); 
  // images
  std::vector<std::vector<int>> id(n, std::vector<int>()); for (int k = 0; k < n; k++) { std::vector<int> seen(X.size()); for (auto& t : R.targ[k]) { double x = t.x, y = c.chfield ? 2 * t.y + (c.chfield == 1) : t.y; int best = -1; for (size_t p = 0; p < X.size(); p++) if (v[p][k].on && fabs(x - v[p][k].px[0]) < w.o.loc && fabs(y - v[p][k].px[1]) < w.o.locy) best = (int)p; PBT_CHECK(best >= 0, "%scamera %d: target (%.4f,%.4f) of %d pixels is not the image of any particle", when, k, t.x, t.y, t.n); PBT_CHECK(!seen[best]++, "%scamera %d: two targets for particle %d", when, k, best); id[k].push_back(best); }
    for (size_t p = 0; p < X.size(); p++) PBT_CHECK(seen[p] || !v[p][k].on, "%scamera %d: particle %zu at (%.3f,%.3f) was not found", when, k, p, v[p][k].px[0], v[p][k].px[1]); }
  // particles
  std::vector<int> found(X.size()); int expect = 0; for (size_t p = 0; p < X.size(); p++) { int m = 0; for (int k = 0; k < n; k++) m += v[p][k].on; if (m >= 2 && (!c.allCam_flag || m == n)) expect++; else found[p] = -1; }
  for (auto& h : R.hits) { int p = -1; for (int k = 0; k < n; k++) if (h.p[k] >= 0) { int q = id[k][h.p[k]]; if (p < 0) p = q; PBT_CHECK(p == q, "%sa set joins the images of particles %d and %d", when, p, q); } PBT_CHECK(p >= 0 && found[p] >= 0, "%sparticle %d cannot be reconstructed, but is", when, p); PBT_CHECK(!found[p]++, "%sparticle %d was found twice", when, p); for (int k = 0; k < n; k++) PBT_CHECK((h.p[k] >= 0) == v[p][k].on, "%sparticle %d: camera %d %s", when, p, k, v[p][k].on ? "was left out" : "does not see it"); 
    double tol = tolerance(w, v[p], X[p]), e = len(h.x - X[p]); PBT_CHECK(e <= tol, "%sparticle %d at (%.5f,%.5f,%.5f) was found at (%.5f,%.5f,%.5f), off by %g; the localisation error explains %g", when, p, X[p][0], X[p][1], X[p][2], h.x[0], h.x[1], h.x[2], e, tol); who.push_back(p); }
  for (size_t p = 0; p < X.size(); p++) PBT_CHECK(found[p] != 0, "%sparticle %zu at (%.5f,%.5f,%.5f) was not found (%d of %d were)", when, p, X[p][0], X[p][1], X[p][2], (int)R.hits.size(), expect); if (expect) s.nontrivial(); }
static std::string show(const World& w) { char b[300]; const Optics& o = w.o; snprintf(b, 300, "; spots sigma %g amp %g background %d noise %d, %s span %d hp %d, threshold %d, eps %g corr %g allCam %d", o.sigma, o.amp, o.bg, o.noise, o.raw ? "raw" : "filtered", o.span, o.hp, o.thres, w.r.vp.eps0, w.r.vp.cn, w.r.cp.c.allCam_flag); return show(w.r) + b; }
static void scene(Src& s, World& w, int want, double spread) {
  std::vector<V3> X; std::vector<std::vector<View>> v; std::vector<double> br; for (int t = 0; t < want * 6 && (int)X.size() < want; t++) { V3 x = gen_in_ball(s, w.r.target, w.r.vr * spread); std::vector<View> q; if (!views(w, x, q)) continue; bool in = fabs(x[2] - w.r.target[2]) < .98 * w.r.vr && fabs(x[0] - w.r.target[0]) < .98 * w.r.vr; if (!in || !clear_of(w, q, v)) continue; X.push_back(x); v.push_back(q); br.push_back(s.r(.75, 1)); }
  s.note("%s;", show(w).c_str()); for (size_t k = 0; k < X.size(); k++) { s.note(" particle %zu (%.6f,%.6f,%.6f)", k, X[k][0], X[k][1], X[k][2]); for (auto& q : v[k]) if (q.on) s.note(" %.3f,%.3f", q.px[0], q.px[1]); else s.note(" -"); s.note(";"); }
  std::vector<std::vector<unsigned char>> im(w.r.n()); for (int k = 0; k < w.r.n(); k++) render(s, w, k, v, br, im[k]); Result R; run(s, w, im, R, 1); std::vector<int> who; compare(s, w, X, v, R, who, ""); s.label("particles:" + std::to_string(X.size() / 3 * 3) + "+"); bool part = false; for (auto& q : v) for (auto& a : q) part |= !a.on; if (part) s.label("particle out of view of a camera"); if (R.counts[0]) s.label("quadruplets"); if (R.counts[1]) s.label("triplets"); if (R.counts[2]) s.label("pairs"); }

PBT_SUB(chain, 6000, 200000) { World w((int)s.i(2, 4)); gen_world(s, w, true); scene(s, w, (int)s.i(0, s.chance(1, 4) ? 25 : 10), s.one({.5, .9, 1., 1.3})); }
PBT_SUB(peaks, 3000, 100000) { World w((int)s.i(2, 4)); gen_world(s, w, true); w.peak = true; w.o.loc = .45; w.o.locy = w.r.cp.c.chfield ? 1.2 : .45; scene(s, w, (int)s.i(0, 10), s.one({.5, .9, 1., 1.3})); }
// Moving particles: every frame goes through the chain, the results go into the files a tracking run reads, and the links it writes follow the particles.
PBT_SUB(paths, 1500, 50000) {
  World w((int)s.i(2, 4)); gen_world(s, w, false, .35); w.r.cp.c.allCam_flag = 0; Rig& r = w.r; control_par& c = r.cp.c; int n = r.n(), F = (int)s.i(4, 6), N = (int)s.i(1, 6), first = (int)s.i(1, 9000); double T = (F - 1) / 2., vr = r.vr; w.o.files = false;
  struct Path { V3 c, v, a; V3 at(double t) const { return c + v * t + a * (t * t / 2); } }; std::vector<Path> P; std::vector<std::vector<std::vector<View>>> v(F); double tol = 0, per = 1e9, mv[3] = {0, 0, 0}, ma = 0; V3 drift = v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (vr * .04 * s.u());
  for (int t = 0; t < 4 * N && (int)P.size() < N; t++) { Path p; p.c = gen_in_ball(s, r.target, vr * .8); p.v = drift + v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (vr * .03 * s.u()); p.a = v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (vr * .005 * s.u()); if (s.chance(1, 10)) p.v = p.a = v3(0, 0, 0); std::vector<std::vector<View>> q(F); bool ok = true; double t1 = 0; 
    for (int f = 0; f < F && ok; f++) { V3 x = p.at(f - T); int m = 0; ok = views(w, x, q[f]) && len(x - r.target) < .97 * vr && clear_of(w, q[f], v[f]); if (ok) { for (auto& a : q[f]) m += a.on; ok = m >= 2; } if (ok) t1 = std::max(t1, tolerance(w, q[f], x)); } if (!ok) continue; P.push_back(p); for (int f = 0; f < F; f++) v[f].push_back(q[f]); tol = std::max(tol, t1); ma = std::max(ma, len(p.a)); for (int f = 0; f + 1 < F; f++) for (int i = 0; i < 3; i++) mv[i] = std::max(mv[i], fabs((p.at(f + 1 - T) - p.at(f - T))[i])); }
  if (P.empty()) s.discard(); N = (int)P.size(); for (int k = 0; k < n; k++) { double x, y, u, z; if (!ref_pixel(r, k, r.target, x, y)) s.discard(); for (int i = 0; i < 3; i++) { V3 q = r.target; q[i] += vr * .01; if (!ref_pixel(r, k, q, u, z)) s.discard(); double g = std::hypot(u - x, z - y) / (vr * .01); if (g > 0) per = std::min(per, std::max(g, 2 / vr)); } } 
  track_par tp; memset(&tp, 0, sizeof tp); for (double& m : mv) m = (m + 6 * tol + 2 / per + ma) * s.r(1.1, 1.5); tp.dvxmin = -mv[0]; tp.dvxmax = mv[0]; tp.dvymin = -mv[1]; tp.dvymax = mv[1]; tp.dvzmin = -mv[2]; tp.dvzmax = mv[2]; tp.dacc = (2 * ma + 8 * tol) * s.r(1.2, 1.6); tp.dangle = 250; tp.add = s.b();
  double D = 2 * len(v3(mv[0], mv[1], mv[2])) + 2 * tp.dacc; for (int j = 1; j < N;) { bool ok = true; for (int k = 0; k < j && ok; k++) for (int f = 0; f < F; f++) for (int g = std::max(0, f - 1); g < std::min(F, f + 2); g++) if (len(P[j].at(f - T) - P[k].at(g - T)) < D) ok = false; if (ok) { j++; continue; } s.label("path too close to promise its links"); P.erase(P.begin() + j); for (auto& q : v) q.erase(q.begin() + j); N--; }
  s.note("%s; %d frames from %d, limits %g %g %g acc %g;", show(w).c_str(), F, first, mv[0], mv[1], mv[2], tp.dacc); for (auto& p : P) s.note(" path from (%.6f,%.6f,%.6f) step (%.4f,%.4f,%.4f);", p.at(-T)[0], p.at(-T)[1], p.at(-T)[2], p.v[0], p.v[1], p.v[2]);
  std::string rt = pbt::scratch() + "/rt", ptv = pbt::scratch() + "/ptv", pri = pbt::scratch() + "/added"; std::vector<std::string> base, made; for (int k = 0; k < n; k++) { base.push_back(pbt::scratch() + "/cam" + std::to_string(k) + "."); snprintf(r.cp.b1[k].data(), 239, "%s", base[k].c_str()); }
  std::vector<std::vector<int>> who(F); std::vector<Result> R(F); for (int f = 0; f < F; f++) { std::vector<V3> X; std::vector<double> br; for (auto& p : P) { X.push_back(p.at(f - T)); br.push_back(s.r(.75, 1)); } std::vector<std::vector<unsigned char>> im(n); for (int k = 0; k < n; k++) render(s, w, k, v[f], br, im[k]); run(s, w, im, R[f], first + f); compare(s, w, X, v[f], R[f], who[f], ("frame " + std::to_string(f) + ": ").c_str());
    size_t m = R[f].hits.size(); std::vector<corres> co(m); std::vector<::P> pp(m); for (size_t h = 0; h < m; h++) { memset(&pp[h], 0, sizeof pp[h]); for (int i = 0; i < 3; i++) pp[h].x[i] = R[f].hits[h].x[i]; pp[h].prev = PREV_NONE; pp[h].next = NEXT_NONE; co[h].nr = (int)h + 1; for (int i = 0; i < 4; i++) co[h].p[i] = R[f].hits[h].p[i]; }
    PBT_CHECK(write_path_frame(co.data(), pp.data(), (int)m, cs(rt), cs(ptv), nullptr, first + f), "writing frame %d fails", f); for (int k = 0; k < n; k++) PBT_CHECK(write_targets(R[f].targ[k].data(), (int)R[f].targ[k].size(), cs(base[k]), first + f), "writing targets fails"); }
  sequence_par sq; memset(&sq, 0, sizeof sq); sq.first = first; sq.last = first + F - 1; sq.num_cams = n; sq.img_base_name = c.img_base_name; volume_par vp = r.vp; tracking_run* tr = tr_new(&sq, &tp, &vp, &c, 4, 200, cs(rt), cs(ptv), cs(pri), r.cals.data(), 1e-6); track_forward_start(tr); for (int k = first; k < first + F - 1; k++) trackcorr_c_loop(tr, k); trackcorr_c_finish(tr, first + F - 1); if (s.b()) { trackback_c(tr); s.label("and backward"); } fb_free(tr->fb); free(tr->fb); free(tr);
  for (int f = 0; f < F; f++) { std::string name = frame_name(ptv, first + f); FILE* g = fopen(cs(name), "r"); PBT_CHECK(g, "no links of frame %d were written", f); int m = -1; std::vector<std::array<int, 2>> L; std::vector<V3> x; if (fscanf(g, "%d", &m) == 1) for (int h = 0; h < m; h++) { int a, b; V3 y; if (fscanf(g, "%d %d %lf %lf %lf", &a, &b, &y[0], &y[1], &y[2]) != 5) break; L.push_back({a, b}); x.push_back(y); } fclose(g); PBT_CHECK(m == (int)L.size() && m == (int)who[f].size(), "frame %d: %d particles of %zu in the file of links, %zu were matched", f, m, L.size(), who[f].size());
    for (int h = 0; h < m; h++) { int p = who[f][h], pv = L[h][0], nx = L[h][1]; for (int i = 0; i < 3; i++) PBT_CHECK(fabs(x[h][i] - R[f].hits[h].x[i]) <= .00051, "frame %d: particle %d was moved", f, h); int wp = f ? (pv >= 0 && pv < (int)who[f - 1].size() ? who[f - 1][pv] : -1) : p, wn = f + 1 < F ? (nx >= 0 && nx < (int)who[f + 1].size() ? who[f + 1][nx] : -1) : p; PBT_CHECK(f || pv == PREV_NONE, "a particle of the first frame comes from %d", pv); PBT_CHECK(f + 1 < F || nx == NEXT_NONE, "a particle of the last frame continues as %d", nx);
      PBT_CHECK(wp == p && wn == p, "path %d is broken in frame %d: the particle comes from %d (path %d) and continues as %d (path %d)", p, f, pv, wp, nx, wn); } if (N > 1) s.label("several paths"); }
  for (int f = 0; f < F; f++) { for (auto& b : {rt, ptv, pri}) unlink(cs(frame_name(b, first + f))); for (auto& b : base) unlink(cs(targets_name(b, first + f))); } }
