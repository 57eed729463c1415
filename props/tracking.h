// Frames in memory, scenes of moving particles and a reference tracker for the tracking properties.
#pragma once
#include "files.h"
extern "C" {
#include "track.h"
#include "tracking_run.h"
}
struct TP { V3 x; int prev = PREV_NONE, next = NEXT_NONE, p[4] = {-1, -1, -1, -1}; int truth = -1; };
struct TFrame { bool missing = false; int count = 0; std::vector<TP> parts; std::vector<std::vector<target>> targ; };  // count: the number of particles as the reader reports it
typedef std::map<int, TFrame> Store;
static inline bool same(const TP& a, const TP& b) { return a.x == b.x && a.prev == b.prev && a.next == b.next && !memcmp(a.p, b.p, sizeof a.p); }
// ---- a frame buffer over a Store (the library's frame buffer base class) -------------------------------------------
struct MemBuf { framebuf_base base; Store* st; int reads, writes; const char* bad; };
static void mb_free(framebuf_base* b) { fb_disk_free(b); }
static int mb_read(framebuf_base* b, int num, int links) {
  MemBuf* m = (MemBuf*)b; frame* f = b->buf[b->buf_len - 1]; m->reads++; auto it = m->st->find(num); if (it == m->st->end() || it->second.missing) { f->num_parts = -1; for (int c = 0; c < f->num_cams; c++) f->num_targets[c] = 0; return 0; }
  TFrame& t = it->second; f->num_parts = t.count; for (size_t k = 0; k < t.parts.size(); k++) { P& p = f->path_info[k]; vec_copy(p.x, t.parts[k].x.data()); p.prev = links ? t.parts[k].prev : PREV_NONE; p.next = links ? t.parts[k].next : NEXT_NONE; p.prio = 4; p.inlist = 0; p.finaldecis = 1000000.0; for (int a = 0; a < POSI; a++) { p.decis[a] = 0; p.linkdecis[a] = -999; } f->correspond[k].nr = (int)k + 1; memcpy(f->correspond[k].p, t.parts[k].p, sizeof t.parts[k].p); }
  for (int c = 0; c < f->num_cams; c++) { f->num_targets[c] = (int)t.targ[c].size(); if (f->num_targets[c]) memcpy(f->targets[c], t.targ[c].data(), t.targ[c].size() * sizeof(target)); }
  return t.count != -1; }
static int mb_write(framebuf_base* b, int num) {
  MemBuf* m = (MemBuf*)b; frame* f = b->buf[0]; m->writes++; TFrame t; t.count = f->num_parts; if (f->num_parts > f->max_targets) m->bad = "frame holds more particles than it has place for";
  for (int k = 0; k < f->num_parts; k++) { TP p; for (int i = 0; i < 3; i++) p.x[i] = f->path_info[k].x[i]; p.prev = f->path_info[k].prev; p.next = f->path_info[k].next; memcpy(p.p, f->correspond[k].p, sizeof p.p); t.parts.push_back(p); }
  for (int c = 0; c < f->num_cams; c++) t.targ.push_back(std::vector<target>(f->targets[c], f->targets[c] + std::max(0, f->num_targets[c]))); (*m->st)[num] = t; return 1; }
// ---- a scene --------------------------------------------------------------------------------------------------------
struct Scene { Rig r; track_par tp; sequence_par sp; Store st; int max_targets = 0; double flat_tol = 1e-4; Scene(int n) : r(n) { memset(&tp, 0, sizeof tp); memset(&sp, 0, sizeof sp); sp.num_cams = n; sp.img_base_name = r.cp.c.img_base_name; } };
static inline int cap(const Scene& S) { int m = 1; for (auto& f : S.st) { m = std::max(m, (int)f.second.parts.size()); for (auto& t : f.second.targ) m = std::max(m, (int)t.size()); } return m; }
static inline bool pixel(const Rig& r, int cam, const V3& P, double& px, double& py) { return ref_pixel(r, cam, P, px, py, 0); }
static inline std::string show(const track_par& t) { char b[300]; snprintf(b, 300, "limits x %g..%g y %g..%g z %g..%g acc %g angle %g add %d", t.dvxmin, t.dvxmax, t.dvymin, t.dvymax, t.dvzmin, t.dvzmax, t.dacc, t.dangle, t.add); return b; }
static inline std::string show(const Store& st) { std::string o; char b[200]; for (auto& f : st) { snprintf(b, 200, "\n frame %d%s count %d:", f.first, f.second.missing ? " MISSING" : "", f.second.count); o += b; for (size_t k = 0; k < f.second.parts.size() && k < 30; k++) { auto& q = f.second.parts[k]; snprintf(b, 200, " %zu:(%.9g %.9g %.9g) %d>%d p %d %d %d %d%s;", k, q.x[0], q.x[1], q.x[2], q.prev, q.next, q.p[0], q.p[1], q.p[2], q.p[3], q.truth >= 0 ? (" #" + std::to_string(q.truth)).c_str() : ""); o += b; }
    for (size_t c = 0; c < f.second.targ.size(); c++) { o += " cam" + std::to_string(c); for (size_t k = 0; k < f.second.targ[c].size() && k < 30; k++) { auto& t = f.second.targ[c][k]; snprintf(b, 200, " %.8g,%.8g/%d", t.x, t.y, t.tnr); o += b; } } } return o; }
// adds the frame holding `pts` (already in the order of the list), seen[k][c]: image of point k in camera c; in3d[k]: in the particle list; stray targets
struct Seen { bool on; double x, y; };
static inline TFrame make_frame(int nc, const std::vector<V3>& pts, const std::vector<std::vector<Seen>>& seen, const std::vector<int>& in3d, const std::vector<std::vector<std::array<double, 2>>>& stray) {
  TFrame f; f.targ.resize(nc); std::vector<int> idx(pts.size(), -1); for (size_t k = 0; k < pts.size(); k++) if (in3d[k]) { idx[k] = (int)f.parts.size(); TP q; q.x = pts[k]; q.truth = (int)k; f.parts.push_back(q); } f.count = (int)f.parts.size();
  for (int c = 0; c < nc; c++) { struct E { double x, y; int k; }; std::vector<E> e; for (size_t k = 0; k < pts.size(); k++) if (seen[k][c].on) e.push_back({seen[k][c].x, seen[k][c].y, (int)k}); for (auto& z : stray[c]) e.push_back({z[0], z[1], -1}); std::stable_sort(e.begin(), e.end(), [](const E& a, const E& b) { return a.y < b.y; });
    for (size_t j = 0; j < e.size(); j++) { target t; memset(&t, 0, sizeof t); t.pnr = (int)j; t.x = e[j].x; t.y = e[j].y; t.n = 9; t.nx = t.ny = 3; t.sumg = 900; t.tnr = e[j].k >= 0 ? idx[e[j].k] : -1; f.targ[c].push_back(t); if (e[j].k >= 0 && idx[e[j].k] >= 0) f.parts[idx[e[j].k]].p[c] = (int)j; } }
  return f; }
static inline int frame_bound(Store& s) { int m = 0; for (auto& f : s) m = std::max(m, f.first); return m; }
// ---- running the library --------------------------------------------------------------------------------------------
struct Runner { tracking_run* tr; MemBuf mb; framebuf_base* disk; volume_par vp; bool ok = true;
  Runner(Scene& S, Store& st) { vp = S.r.vp; static char n1[] = "rt", n2[] = "ptv", n3[] = "add"; tr = tr_new(&S.sp, &S.tp, &vp, &S.r.cp.c, 4, 1, n1, n2, n3, S.r.cals.data(), S.flat_tol); disk = tr->fb; memset(&mb, 0, sizeof mb); fb_base_init(&mb.base, 4, S.r.n(), S.max_targets); mb.base._vptr->free = mb_free; mb.base._vptr->read_frame_at_end = mb_read; mb.base._vptr->write_frame_from_start = mb_write; mb.st = &st; tr->fb = &mb.base;
    // the library allocates cleared frames; dirt in unused places must not matter
    for (int k = 0; k < 4; k++) { frame* f = mb.base.buf[k]; for (int i = 0; i < S.max_targets; i++) { P& p = f->path_info[i]; p.inlist = 3; p.next = p.prev = 0; p.finaldecis = -5; for (int a = 0; a < 3; a++) { p.decis[a] = -1; p.linkdecis[a] = a; } for (int a = 0; a < 4; a++) f->correspond[i].p[a] = a; } } }
  void forward() { track_forward_start(tr); for (int s = tr->seq_par->first; s < tr->seq_par->last; s++) trackcorr_c_loop(tr, s); trackcorr_c_finish(tr, tr->seq_par->last); }
  double backward() { return trackback_c(tr); }
  ~Runner() { fb_free(disk); free(disk); fb_free(&mb.base); free(tr); } };
// ---- the reference ---------------------------------------------------------------------------------------------------
struct Model {
  Scene& S; track_par tp; double xmin, xmax, ymin, ymax, zmin, zmax, lmax; int nc; bool close_call = false;
  Model(Scene& S) : S(S), tp(S.tp), nc(S.r.n()) { volume_par v = S.r.vp; xmin = v.X_lay[0]; xmax = v.X_lay[1]; ymin = ymax = 0; volumedimension(&xmax, &xmin, &ymax, &ymin, &zmax, &zmin, &v, &S.r.cp.c, S.r.cals.data()); lmax = len(v3(tp.dvxmax - tp.dvxmin, tp.dvymax - tp.dvymin, tp.dvzmax - tp.dvzmin)); }
  // comparisons that decide something; a case with two values too near to tell apart is discarded
  bool less(double a, double b) { if (fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b))) close_call = true; return a < b; }
  std::array<double, 2> proj(int c, const V3& X) { vec2d v; V3 y = X; point_to_pixel(v, y.data(), S.r.cals[c], &S.r.cp.c); return {v[0], v[1]}; }
  void motion(const V3& s, const V3& p, const V3& c, double& ang, double& acc) { V3 a = p - s, b = c - s; acc = len(b - a); if (len(a) == 0 || len(b) == 0 || a == b) { ang = 0; return; } ang = atan2(len(cross(a, b)), dot(a, b)) * 200 / M_PI; }
  bool bounds(const V3& d) { return less(tp.dvxmin, d[0]) && less(d[0], tp.dvxmax) && less(tp.dvymin, d[1]) && less(d[1], tp.dvymax) && less(tp.dvzmin, d[2]) && less(d[2], tp.dvzmax); }
  bool admissible(double acc, double ang) { return (less(acc, tp.dacc) && less(ang, tp.dangle)) || less(acc, tp.dacc / 10); }
  struct Cand { int id, freq; };
  std::vector<Cand> candidates(const V3& X, const std::vector<std::array<double, 2>>& at, TFrame& f) {
    std::vector<std::pair<int, int>> found; int W = S.r.cp.c.imx, H = S.r.cp.c.imy;
    for (int c = 0; c < nc; c++) { double x0 = W, x1 = 0, y0 = H, y1 = 0; for (int q = 0; q < 8; q++) { auto v = proj(c, X + v3(q & 1 ? tp.dvxmax : tp.dvxmin, q & 2 ? tp.dvymax : tp.dvymin, q & 4 ? tp.dvzmax : tp.dvzmin)); x0 = std::min(x0, v[0]); x1 = std::max(x1, v[0]); y0 = std::min(y0, v[1]); y1 = std::max(y1, v[1]); }
      auto cen = proj(c, X); auto cl = [](double v, double m) { return v < 0 ? 0 : v > m ? m : v; }; x0 = cl(x0, W); x1 = cl(x1, W); y0 = cl(y0, H); y1 = cl(y1, H);
      // the window is applied around the given centre, which may differ from the projection of X
      double ax = at[c][0], ay = at[c][1]; x0 = cl(ax - (cen[0] - x0), W); x1 = cl(ax + (x1 - cen[0]), W); y0 = cl(ay - (cen[1] - y0), H); y1 = cl(ay + (y1 - cen[1]), H); if (!(ax >= 0 && ax <= W && ay >= 0 && ay <= H)) continue;
      std::vector<std::pair<double, int>> d; for (auto& t : f.targ[c]) if (t.tnr != -1 && less(x0, t.x) && less(t.x, x1) && less(y0, t.y) && less(t.y, y1)) d.push_back({std::hypot(ax - t.x, ay - t.y), t.tnr}); std::stable_sort(d.begin(), d.end(), [](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first < b.first; });
      for (size_t k = 0; k + 1 < d.size() && k < 4; k++) less(d[k].first, d[k + 1].first);
      for (size_t k = 0; k < d.size() && k < 4; k++) if (d[k].second >= 0 && d[k].second < f.count) found.push_back({d[k].second, c}); }
    std::vector<Cand> r; for (auto& q : found) { bool dup = false; for (auto& z : r) dup |= z.id == q.first; if (dup) continue; std::set<int> cams; for (auto& z : found) if (z.first == q.first) cams.insert(z.second); r.push_back({q.first, (int)cams.size()}); }
    std::stable_sort(r.begin(), r.end(), [](const Cand& a, const Cand& b) { return a.freq > b.freq; }); for (size_t k = r.size(); k-- > 1;) if (r[k].freq < 2) r.erase(r.begin() + k); return r; }
  int assess(const V3& X, TFrame& f, std::vector<std::array<double, 2>>& t, int* ix) {
    int n = 0, W = S.r.cp.c.imx, H = S.r.cp.c.imy; t.assign(4, {COORD_UNUSED, COORD_UNUSED}); for (int c = 0; c < nc; c++) { auto v = proj(c, X); ix[c] = -1; if (!(v[0] >= 0 && v[0] <= W && v[1] >= 0 && v[1] <= H)) continue; double best = 1e9; for (size_t k = 0; k < f.targ[c].size(); k++) { auto& q = f.targ[c][k]; if (q.tnr != -1) continue; if (!(less(v[0] - 3, q.x) && less(q.x, v[0] + 3) && less(v[1] - 3, q.y) && less(q.y, v[1] + 3) && q.x > 0 && q.x < W && q.y > 0 && q.y < H)) continue; double d = std::hypot(v[0] - q.x, v[1] - q.y); if (less(d, best)) { best = d; ix[c] = (int)k; } }
      if (ix[c] >= 0) { auto& q = f.targ[c][ix[c]]; pixel_to_metric(&t[c][0], &t[c][1], q.x, q.y, &S.r.cp.c); dist_to_flat(t[c][0], t[c][1], S.r.cals[c], &t[c][0], &t[c][1], S.flat_tol); n++; } } return n; }
  bool inside(const V3& x) { return less(xmin, x[0]) && less(x[0], xmax) && less(ymin, x[1]) && less(x[1], ymax) && less(zmin, x[2]) && less(x[2], zmax); }
  int add(TFrame& f, const V3& x, int* ix) { if (f.count < 0) f.count = 0; if (f.count >= S.max_targets) return -1; TP q; q.x = x; for (int c = 0; c < nc; c++) if (ix[c] >= 0) { q.p[c] = ix[c]; f.targ[c][ix[c]].tnr = f.count; } f.parts.push_back(q); return f.count++; }
  struct Link { float rr; int id; };
  TFrame frame_or_empty(Store& st, int k) { auto it = st.find(k); TFrame e; if (it == st.end() || it->second.missing) { e.targ.resize(nc); e.count = -1; return e; } return it->second; }
  void forward(Store& st, bool empty_at_end) {     // leaves the result in st
    int f0 = S.sp.first, f1 = S.sp.last; std::map<int, TFrame> F; for (int k = f0; k <= std::max(f1, f0 + 2); k++) { F[k] = frame_or_empty(st, k); for (auto& q : F[k].parts) { q.prev = PREV_NONE; q.next = NEXT_NONE; } } TFrame nothing, stale; nothing.targ.resize(nc); nothing.count = 0;
    for (int s = f0; s < f1; s++) { TFrame &A = s > f0 ? F[s - 1] : nothing, &B = F[s], &C = F[s + 1]; TFrame* D = F.count(s + 2) ? &F[s + 2] : nullptr; if (!D) { stale = (empty_at_end || !F.count(s - 2)) ? nothing : F[s - 2]; D = &stale; } std::vector<std::vector<Link>> L(std::max(0, B.count)); int orig = B.count;
      for (int h = 0; h < orig; h++) { TP& q = B.parts[h]; V3 X1 = q.x, X0 = v3(0, 0, 0), X2 = X1; bool prev = q.prev >= 0; std::vector<std::array<double, 2>> at(nc); if (prev) { X0 = A.parts[q.prev].x; X2 = X1 * 2 - X0; }
        for (int c = 0; c < nc; c++) if (!prev && q.p[c] >= 0 && q.p[c] < (int)B.targ[c].size()) at[c] = {B.targ[c][q.p[c]].x, B.targ[c][q.p[c]].y}; else at[c] = proj(c, X2);
        auto w = candidates(X2, at, C); if (w.empty()) continue; double ang, acc; 
        for (auto& m : w) { V3 X3 = C.parts[m.id].x, X5 = prev ? (X3 * 5 - X1 * 4 + X0) * .5 : X3 * 2 - X1; std::vector<std::array<double, 2>> a5(nc); for (int c = 0; c < nc; c++) a5[c] = proj(c, X5);
          for (auto& k : candidates(X5, a5, *D)) { V3 X4 = D->parts[k.id].x; if (!bounds(X4 - X3)) continue; double an1, ac1, an0, ac0; motion(X3, X4, X5, an1, ac1); if (prev) motion(X1, X2, X3, an0, ac0); else { an0 = an1; ac0 = ac1; } acc = (ac0 + ac1) / 2; ang = (an0 + an1) / 2; if (admissible(acc, ang)) L[h].push_back({(float)(((len(X1 - X3) + len(X4 - X3)) / 2 / lmax + acc / tp.dacc + ang / tp.dangle) / (k.freq + m.freq)), m.id}); }
          std::vector<std::array<double, 2>> t; int ix[4], nq = assess(X5, *D, t, ix); if (nq >= 2) { vec3d x; point_position((vec2d*)t.data(), nc, S.r.cp.c.mm, S.r.cals.data(), x); V3 X4 = v3(x[0], x[1], x[2]); if (inside(X4) && bounds(X4 - X3)) { motion(X3, X4, X5, ang, acc); if (admissible(acc, ang)) { L[h].push_back({(float)(((len(X1 - X3) + len(X4 - X3)) / 2 / lmax + acc / tp.dacc + ang / tp.dangle) / (nq + m.freq)), m.id}); if (tp.add) add(*D, X4, ix); } } }
          if (L[h].empty() && prev && bounds(X3 - X1)) { motion(X1, X2, X3, ang, acc); if (admissible(acc, ang)) L[h].push_back({(float)(((len(X1 - X3) + len(X0 - X1)) / 2 / lmax + acc / tp.dacc + ang / tp.dangle) / m.freq), m.id}); } }
        if (tp.add && L[h].empty() && prev) { std::vector<std::array<double, 2>> t; int ix[4], nq = assess(X2, C, t, ix); if (nq >= 2) { vec3d x; point_position((vec2d*)t.data(), nc, S.r.cp.c.mm, S.r.cals.data(), x); V3 X3 = v3(x[0], x[1], x[2]); if (inside(X3) && bounds(X3 - X1)) { motion(X1, X2, X3, ang, acc); if (admissible(acc, ang)) { float rr = (float)(((len(X1 - X3) + len(X0 - X1)) / 2 / lmax + acc / tp.dacc + ang / tp.dangle) / nq); int id = add(C, X3, ix); if (id >= 0) L[h].push_back({rr, id}); } } } } }
      resolve(L, B, C); }
    for (int k = f0; k <= f1; k++) st[k] = F[k]; }
  bool lessf(float a, float b) { if (a != b && fabs(a - b) <= 3e-6 * (fabs(a) + fabs(b))) close_call = true; return a < b; }
  // every particle claims its best candidate; of several claims the best is granted
  void resolve(std::vector<std::vector<Link>>& L, TFrame& B, TFrame& C) { std::map<int, int> win; std::vector<Link> best(L.size()); for (size_t h = 0; h < L.size(); h++) { if (L[h].empty()) continue; best[h] = L[h][0]; for (auto& l : L[h]) { if (l.id != best[h].id && l.rr == best[h].rr) close_call = true; if (lessf(l.rr, best[h].rr)) best[h] = l; } int c = best[h].id; if (!win.count(c) || lessf(best[h].rr, best[win[c]].rr)) win[c] = (int)h; }
    for (auto& w : win) { B.parts[w.second].next = w.first; C.parts[w.first].prev = w.second; } }
  void backward(Store& st) {
    int f0 = S.sp.first, f1 = S.sp.last; std::map<int, TFrame> F; for (int k = std::min(f0, f1 - 3); k <= f1; k++) F[k] = frame_or_empty(st, k);
    for (int s = f1 - 1; s > f0; s--) { TFrame &N = F[s + 1], &B = F[s], &C = F[s - 1]; TFrame* E = F.count(s - 2) ? &F[s - 2] : nullptr; int num = B.count; std::vector<int> best(std::max(0, num), -1);
      for (int h = 0; h < num; h++) { TP& q = B.parts[h]; if (q.next < 0 || q.prev != -1 || q.next >= N.count) continue; V3 X1 = q.x, X0 = N.parts[q.next].x, X2 = X1 * 2 - X0; std::vector<std::array<double, 2>> at(nc); for (int c = 0; c < nc; c++) at[c] = proj(c, X2); std::vector<Link> L; double ang, acc;
        for (auto& m : candidates(X2, at, C)) { V3 X3 = C.parts[m.id].x; if (!bounds(X1 - X3)) continue; motion(X1, X2, X3, ang, acc); if (admissible(acc, ang)) L.push_back({(float)(((len(X1 - X3) + len(X0 - X1)) / 2 / lmax + acc / tp.dacc + ang / tp.dangle) / m.freq), m.id}); }
        if (tp.add && L.empty()) { std::vector<std::array<double, 2>> t; int ix[4], nq = assess(X2, C, t, ix); if (nq >= 2) { vec3d x; point_position((vec2d*)t.data(), nc, S.r.cp.c.mm, S.r.cals.data(), x); V3 X3 = v3(x[0], x[1], x[2]); if (inside(X3) && bounds(X1 - X3)) { motion(X1, X2, X3, ang, acc); if (admissible(acc, ang)) { int id = add(C, X3, ix); if (id >= 0) L.push_back({0, id}); } } } }
        if (L.empty()) continue; Link b = L[0]; for (auto& l : L) { if (l.id != b.id && l.rr == b.rr) close_call = true; if (lessf(l.rr, b.rr)) b = l; } best[h] = b.id; }
      for (int h = 0; h < num; h++) { if (best[h] < 0) continue; TP &q = B.parts[h], &c = C.parts[best[h]]; if (c.next != NEXT_NONE) continue; bool ok = c.prev == PREV_NONE; if (!ok && E && c.prev >= 0 && c.prev < E->count) { V3 X0 = N.parts[q.next].x, X3 = c.x, X4 = E->parts[c.prev].x, X5 = (X3 * 5 - q.x * 4 + X0) * .5; double ang, acc; motion(X3, X4, X5, ang, acc); ok = admissible(acc, ang); }
        if (ok) { q.prev = best[h]; c.next = h; } } }
    for (int k = f0; k < f1; k++) st[k] = F[k]; }
};
// ---- properties of a result ------------------------------------------------------------------------------------------
static inline void check_links(const Store& st, int f0, int f1, const char* when) {
  for (int k = f0; k <= f1; k++) { auto it = st.find(k); PBT_CHECK(it != st.end(), "%s: frame %d was not written", when, k); const TFrame& f = it->second; const TFrame* nx = k < f1 && st.count(k + 1) ? &st.at(k + 1) : nullptr; const TFrame* pv = k > f0 && st.count(k - 1) ? &st.at(k - 1) : nullptr; std::set<int> un, up;
    PBT_CHECK((int)f.parts.size() == std::max(0, f.count), "%s: frame %d holds %zu particles, count %d", when, k, f.parts.size(), f.count);
    for (size_t h = 0; h < f.parts.size(); h++) { int n = f.parts[h].next, p = f.parts[h].prev; if (n != NEXT_NONE) { PBT_CHECK(nx && n >= 0 && n < (int)nx->parts.size(), "%s: frame %d particle %zu continues as %d, which does not exist", when, k, h, n); PBT_CHECK(nx->parts[n].prev == (int)h, "%s: frame %d particle %zu continues as %d, but that comes from %d", when, k, h, n, nx->parts[n].prev); PBT_CHECK(un.insert(n).second, "%s: two particles of frame %d continue as %d", when, k, n); }
      if (p != PREV_NONE) { PBT_CHECK(pv && p >= 0 && p < (int)pv->parts.size(), "%s: frame %d particle %zu comes from %d, which does not exist", when, k, h, p); PBT_CHECK(pv->parts[p].next == (int)h, "%s: frame %d particle %zu comes from %d, but that continues as %d", when, k, h, p, pv->parts[p].next); PBT_CHECK(up.insert(p).second, "%s: two particles of frame %d come from %d", when, k, p); } } } }
static inline void check_kept(const Store& in, const Store& out, int f0, int f1, bool add, const char* when) {
  for (int k = f0; k <= f1; k++) { TFrame a; if (in.count(k) && !in.at(k).missing) a = in.at(k); else a.targ.resize(out.at(k).targ.size()); const TFrame& b = out.at(k); size_t n0 = a.parts.size(), n = b.parts.size(); PBT_CHECK(n >= n0, "%s: frame %d lost particles, %zu of %zu left", when, k, n, n0); PBT_CHECK(add || n == n0, "%s: frame %d grew from %zu to %zu particles although none are to be added", when, k, n0, n);
    for (size_t h = 0; h < n0; h++) PBT_CHECK(a.parts[h].x == b.parts[h].x && !memcmp(a.parts[h].p, b.parts[h].p, sizeof a.parts[h].p), "%s: frame %d particle %zu was changed", when, k, h);
    for (size_t c = 0; c < a.targ.size(); c++) { PBT_CHECK(a.targ[c].size() == b.targ[c].size(), "%s: frame %d camera %zu holds %zu targets instead of %zu", when, k, c, b.targ[c].size(), a.targ[c].size()); for (size_t j = 0; j < a.targ[c].size(); j++) { target x = a.targ[c][j], y = b.targ[c][j]; int l = y.tnr; y.tnr = x.tnr; PBT_CHECK(same(x, y), "%s: frame %d camera %zu target %zu was changed", when, k, c, j); if (l != x.tnr) { PBT_CHECK(x.tnr == -1 && l >= (int)n0 && l < (int)n && b.parts[l].p[c] == (int)j, "%s: frame %d camera %zu target %zu was relabelled from %d to %d, which is not an added particle that uses it", when, k, c, j, x.tnr, l); } } }
    for (size_t h = n0; h < n; h++) { int used = 0; for (int c = 0; c < 4; c++) { int j = b.parts[h].p[c]; if (c >= (int)b.targ.size() || j == CORRES_NONE) { PBT_CHECK(j == CORRES_NONE, "%s: frame %d added particle %zu names target %d of camera %d, which does not exist", when, k, h, j, c); continue; } PBT_CHECK(j >= 0 && j < (int)b.targ[c].size() && b.targ[c][j].tnr == (int)h && a.targ[c][j].tnr == -1, "%s: frame %d added particle %zu names target %d of camera %d, which is not its own", when, k, h, j, c); used++; } PBT_CHECK(used >= 2, "%s: frame %d added particle %zu uses %d targets", when, k, h, used); } } }
static inline int count_links(const Store& st) { int n = 0; for (auto& f : st) for (auto& q : f.second.parts) if (q.next >= 0) n++; return n; }
static inline int count_parts(const Store& st) { int n = 0; for (auto& f : st) n += (int)f.second.parts.size(); return n; }
// ---- a scene full of doubtful matches ----------------------------------------------------------------------------------
static inline void gen_dense(Src& s, Scene& S) {
  RigSpec sp; sp.vr_lo = 8; sp.dist = .01; gen_rig(s, S.r, sp); int nc = S.r.n(), N = s.chance(1, 6) ? (int)s.i(8, 16) : (int)s.i(1, 7), F = (int)s.i(3, 6); double vr = S.r.vr, step = vr * s.one({.03, .1, .2}), tight = s.one({1., .5, .25}); S.sp.first = (int)s.i(1, 10000); S.sp.last = S.sp.first + F - 1;
  V3 drift = v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (step * s.one({0., .5, 1.})); std::vector<V3> x(N), v(N); for (int k = 0; k < N; k++) { x[k] = gen_in_ball(s, S.r.target, vr * .6 * tight); v[k] = drift + v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * (step * .5); if (s.chance(1, 12)) v[k] = v3(0, 0, 0); }
  double jit = step * s.one({0., .05, .3}), noise = s.one({0., .1, .8}), see = s.one({1., .9, .6}), in3 = s.one({1., .85, .6}); bool asym = s.chance(1, 4); auto lim = [&](double& a, double& b) { double m = step * s.r(.6, 3); a = -m; b = m; if (asym) b = step * s.r(.3, 3); }; lim(S.tp.dvxmin, S.tp.dvxmax); lim(S.tp.dvymin, S.tp.dvymax); lim(S.tp.dvzmin, S.tp.dvzmax); S.tp.dacc = step * s.r(.1, 3); S.tp.dangle = s.r(5, 200); S.tp.add = s.b();
  for (int f = 0; f < F + 2; f++) { std::vector<V3> p(N); std::vector<std::vector<Seen>> se(N, std::vector<Seen>(nc)); std::vector<int> in(N); std::vector<std::vector<std::array<double, 2>>> st(nc);
    for (int k = 0; k < N; k++) { int n = 0; p[k] = x[k] + v3(s.r0(-1, 1), s.r0(-1, 1), s.r0(-1, 1)) * jit; for (int c = 0; c < nc; c++) { Seen q; q.on = ref_pixel(S.r, c, p[k], q.x, q.y, .5) && s.u() < see; q.x += s.r0(-noise, noise); q.y += s.r0(-noise, noise); se[k][c] = q; n += q.on; } in[k] = n >= 2 && s.u() < in3; x[k] = x[k] + v[k]; if (in[k] && s.b()) for (int i = 0; i < 3; i++) p[k][i] = rounded(p[k][i], "%.3f"); }
    for (int c = 0; c < nc; c++) { int m = s.chance(1, 4) ? (int)s.i(1, 3) : 0; for (int j = 0; j < m; j++) st[c].push_back({s.r(0, S.r.cp.c.imx), s.r(0, S.r.cp.c.imy)}); }
    // the order of the particle list is arbitrary
    std::vector<int> o(N); for (int k = 0; k < N; k++) o[k] = k; for (int k = N - 1; k > 0; k--) std::swap(o[k], o[s.draw(k)]); std::vector<V3> p2(N); auto se2 = se; auto in2 = in; for (int k = 0; k < N; k++) { p2[k] = p[o[k]]; se2[k] = se[o[k]]; in2[k] = in[o[k]]; }
    TFrame T = make_frame(nc, p2, se2, in2, st); for (auto& q : T.parts) q.truth = o[q.truth]; if (T.count == 0 && s.b()) T.count = -1; if (s.chance(1, 25)) { T = TFrame(); T.missing = true; T.count = -1; T.targ.resize(nc); s.label("missing frame"); }
    if (f < F || s.b()) S.st[S.sp.first + f] = T; }
  S.max_targets = cap(S) + (int)s.one({0, 1, 30}); s.note("%s; %s; %d frames from %d, place for %d; %s", show(S.r).c_str(), show(S.tp).c_str(), F, S.sp.first, S.max_targets, show(S.st).c_str()); }
static inline std::string diff(const Store& a, const Store& b, int f0, int f1) { char m[300]; for (int k = f0; k <= f1; k++) { const TFrame &x = a.at(k), &y = b.at(k); if (x.count != y.count) { snprintf(m, 300, "frame %d holds %d particles, expected %d", k, y.count, x.count); return m; } for (size_t h = 0; h < x.parts.size(); h++) { auto &p = x.parts[h], &q = y.parts[h]; if (p.prev != q.prev || p.next != q.next) { snprintf(m, 300, "frame %d particle %zu is linked %d>%d, expected %d>%d", k, h, q.prev, q.next, p.prev, p.next); return m; } if (memcmp(p.p, q.p, sizeof p.p)) { snprintf(m, 300, "frame %d particle %zu uses other targets", k, h); return m; } if (len(p.x - q.x) > 1e-9 * (1 + len(p.x))) { snprintf(m, 300, "frame %d particle %zu is elsewhere", k, h); return m; } } for (size_t c = 0; c < x.targ.size(); c++) for (size_t j = 0; j < x.targ[c].size(); j++) if (!same(x.targ[c][j], y.targ[c][j])) { snprintf(m, 300, "frame %d camera %zu target %zu differs", k, c, j); return m; } } return ""; }
