#include "common.h"
extern "C" {
#include "correspondences.h"
}
// A scene: one frame of targets per camera and its flat, x-sorted coordinates.
struct Scene { frame f; std::vector<std::vector<target>> t; std::vector<std::vector<coord_2d>> c; std::vector<target*> tp; std::vector<coord_2d*> cp; std::vector<int> nt;
  void finish() { memset(&f, 0, sizeof f); f.num_cams = (int)t.size(); tp.clear(); cp.clear(); nt.clear(); for (size_t k = 0; k < t.size(); k++) { tp.push_back(t[k].data()); cp.push_back(c[k].data()); nt.push_back((int)t[k].size()); } f.targets = tp.data(); f.num_targets = nt.data(); } };
struct Adj { int n = 0; std::vector<int> p; std::vector<double> corr, dist; int find(int q) const { for (int k = 0; k < (int)p.size(); k++) if (p[k] == q) return k; return -1; } };
struct Clique { int p[4]; double score; int size; };
typedef std::vector<Adj> AdjList;
static void adjacency(const Rig& r, Scene& sc, AdjList A[4][4]) {
  for (int a = 0; a < r.n(); a++) for (int b = a + 1; b < r.n(); b++) { A[a][b].resize(sc.c[a].size());
    for (size_t i = 0; i < sc.c[a].size(); i++) { if (sc.c[a][i].x == PT_UNUSED) continue; double xa, ya, xb, yb; epi_mm(sc.c[a][i].x, sc.c[a][i].y, r.cals[a], r.cals[b], r.cp.c.mm, (volume_par*)&r.vp, &xa, &ya, &xb, &yb);
      const target& t = sc.t[a][sc.c[a][i].pnr]; candidate cand[MAXCAND]; int n = find_candidate(sc.c[b].data(), sc.t[b].data(), (int)sc.c[b].size(), xa, ya, xb, yb, t.n, t.nx, t.ny, t.sumg, cand, (volume_par*)&r.vp, (control_par*)&r.cp.c, r.cals[b]);
      for (int k = 0; k < n; k++) { A[a][b][i].p.push_back(cand[k].pnr); A[a][b][i].corr.push_back(cand[k].corr); A[a][b][i].dist.push_back(cand[k].tol); } A[a][b][i].n = n; } } }
static void sort_x(std::vector<coord_2d>& v) { std::stable_sort(v.begin(), v.end(), [](const coord_2d& a, const coord_2d& b) { return a.x < b.x; }); }
// score of a set of targets, or false when some pair is not adjacent
static bool score(const AdjList A[4][4], const int p[4], int n, double& sc, double& scale) { double c = 0, d = 0; scale = 0; for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { if (p[a] < 0 || p[b] < 0) continue; int k = A[a][b][p[a]].find(p[b]); if (k < 0) return false; c += A[a][b][p[a]].corr[k]; d += A[a][b][p[a]].dist[k]; } sc = c / d; return true; }
static void verify(Src& s, const Rig& r, Scene& sc, bool complete) {
  int n = r.n(); Scene before = sc; before.finish(); std::unique_ptr<AdjList[][4]> Ah(new AdjList[4][4]); AdjList(*A)[4] = Ah.get(); adjacency(r, sc, A);
  std::vector<int> mc(4, 12345); n_tupel* con = correspondences(&sc.f, sc.cp.data(), (volume_par*)&r.vp, (control_par*)&r.cp.c, (Calibration**)r.cals.data(), mc.data());
  PBT_CHECK(con != nullptr, "no result"); std::unique_ptr<n_tupel, void (*)(void*)> own(con, free);
  PBT_CHECK(mc[0] >= 0 && mc[1] >= 0 && mc[2] >= 0 && mc[3] == mc[0] + mc[1] + mc[2], "match counts %d %d %d, total %d", mc[0], mc[1], mc[2], mc[3]);
  if (n < 4) PBT_CHECK(mc[0] == 0, "%d quadruplets with %d cameras", mc[0], n); if (n < 3) PBT_CHECK(mc[1] == 0, "%d triplets with %d cameras", mc[1], n);
  for (int k = 0; k < n; k++) PBT_CHECK((sc.c[k].empty() || !memcmp(sc.c[k].data(), before.c[k].data(), sizeof(coord_2d) * sc.c[k].size())) && sc.f.num_targets[k] == (int)before.t[k].size(), "coordinates of camera %d were changed", k);
  // soundness
  std::vector<std::map<int, int>> used(4); std::vector<Clique> res;
  for (int i = 0; i < mc[3]; i++) { int want = i < mc[0] ? 4 : i < mc[0] + mc[1] ? 3 : 2, have = 0; Clique q; for (int k = 0; k < 4; k++) q.p[k] = -1;
    for (int k = 0; k < n; k++) if (con[i].p[k] >= 0) { int p = con[i].p[k]; PBT_CHECK(p < (int)sc.c[k].size(), "set %d names target %d of camera %d, which has %zu", i, p, k, sc.c[k].size()); PBT_CHECK(!used[k].count(p), "target %d of camera %d is in sets %d and %d", p, k, used[k][p], i); used[k][p] = i; q.p[k] = p; have++; }
    PBT_CHECK(have == want, "set %d has %d targets, its place says %d", i, have, want); double sc1, scale; PBT_CHECK(score(A, q.p, n, sc1, scale), "set %d (%d,%d,%d,%d) has a pair of targets that are not candidates for each other", i, q.p[0], q.p[1], q.p[2], q.p[3]);
    PBT_CHECK(close(con[i].corr, sc1, 0, 1e-11) || con[i].corr == sc1, "set %d has score %.15g, expected %.15g", i, con[i].corr, sc1); PBT_CHECK(con[i].corr > r.vp.corrmin, "set %d has score %g, not above the limit %g", i, con[i].corr, r.vp.corrmin);
    if (want == 2) { int a = -1; for (int k = 0; k < n; k++) if (q.p[k] >= 0) { if (a < 0) a = k; else PBT_CHECK(A[a][k][q.p[a]].n == 1, "pair %d of target %d in cameras %d and %d was taken although it has %d candidates", i, q.p[a], a, k, A[a][k][q.p[a]].n); } }
    q.score = con[i].corr; q.size = want; if (res.size() && res.back().size == want) PBT_CHECK(res.back().score >= q.score, "sets %d and %d are not in order of quality", i - 1, i); res.push_back(q); }
  if (r.cp.c.allCam_flag) { PBT_CHECK(mc[2] == 0, "pairs although only full sets are wanted"); if (n == 4) PBT_CHECK(mc[1] == 0, "triplets although only full sets are wanted"); }
  // labels
  for (int k = 0; k < n; k++) { std::vector<int> want(sc.t[k].size(), -1); for (auto& u : used[k]) want[sc.c[k][u.first].pnr] = u.second;
    for (size_t j = 0; j < sc.t[k].size(); j++) { target a = sc.t[k][j]; PBT_CHECK(a.tnr == want[j], "target %zu of camera %d is labelled %d, expected %d", j, k, a.tnr, want[j]); a.tnr = -1; PBT_CHECK(!memcmp(&a, &before.t[k][j], sizeof a), "target %zu of camera %d was changed beyond its label", j, k); } }
  if (mc[0]) s.label("quadruplets"); if (mc[1]) s.label("triplets"); if (mc[2]) s.label("pairs"); if (mc[3]) s.nontrivial();
  if (!complete) return;
  { double all = 0; for (size_t a = 0; a < sc.c[0].size(); a++) all += (double)A[0][1][a].p.size() * (n > 2 ? A[0][2][a].p.size() : 1) * (n > 3 ? A[0][3][a].p.size() : 1); if (all > 4. * nmax) { s.label("over capacity"); return; } }
  // completeness: a candidate that was not taken meets a used target of a larger set or of a set of its size at least as good
  long conflicts = 0; auto check = [&](const int p[4], int size, double v) { if (v <= r.vp.corrmin * (1 + 1e-12)) return; for (int k = 0; k < n; k++) if (p[k] >= 0) { auto u = used[k].find(p[k]); if (u == used[k].end()) continue; const Clique& q = res[u->second]; if (q.size > size || (q.size == size && q.score >= v * (1 - 1e-11))) { if (memcmp(q.p, p, sizeof q.p)) conflicts++; return; } }
    fail("candidate set (%d,%d,%d,%d) of %d targets with score %.12g was passed over (counts %d %d %d)", p[0], p[1], p[2], p[3], size, v, mc[0], mc[1], mc[2]); };
  auto targets = [&](int k) { return (int)sc.c[k].size(); }; double v, scl;
  if (n == 4) for (int a = 0; a < targets(0); a++) for (int b : A[0][1][a].p) for (int c : A[0][2][a].p) for (int d : A[0][3][a].p) { int p[4] = {a, b, c, d}; if (score(A, p, n, v, scl)) check(p, 4, v); }
  if (n == 3 || (n == 4 && !r.cp.c.allCam_flag)) for (int x = 0; x < n; x++) for (int y = x + 1; y < n; y++) for (int z = y + 1; z < n; z++) for (int a = 0; a < targets(x); a++) for (int b : A[x][y][a].p) for (int c : A[x][z][a].p) { int p[4] = {-1, -1, -1, -1}; p[x] = a; p[y] = b; p[z] = c; if (score(A, p, n, v, scl)) check(p, 3, v); }
  if (!r.cp.c.allCam_flag) for (int x = 0; x < n; x++) for (int y = x + 1; y < n; y++) for (int a = 0; a < targets(x); a++) if (A[x][y][a].n == 1) { int p[4] = {-1, -1, -1, -1}; p[x] = a; p[y] = A[x][y][a].p[0]; if (score(A, p, n, v, scl)) check(p, 2, v); }
  if (conflicts) s.label("competing candidates");
}
static void gen_limits(Src& s, volume_par& v, double eps) { v.eps0 = eps; auto q = [&] { return s.chance(1, 2) ? 0. : s.r(0, .8); }; v.cn = q(); v.cnx = q(); v.cny = q(); v.csumg = q(); v.corrmin = s.chance(1, 2) ? 0 : s.logr(1, 1e8); }
static target gen_t(Src& s) { target t; memset(&t, 0, sizeof t); t.n = (int)s.i(1, 40); t.nx = (int)s.i(1, 8); t.ny = (int)s.i(1, 8); t.sumg = (int)s.i(1, 4000); t.tnr = -1; return t; }
static void add(Scene& sc, int k, double x, double y, target t) { coord_2d c; c.pnr = (int)sc.t[k].size(); c.x = x; c.y = y; t.pnr = c.pnr; t.x = x; t.y = y; sc.t[k].push_back(t); sc.c[k].push_back(c); }
static void permute(Src& s, Scene& sc) { for (size_t k = 0; k < sc.t.size(); k++) { size_t m = sc.t[k].size(); std::vector<int> perm(m); for (size_t j = 0; j < m; j++) perm[j] = (int)j; for (size_t j = m; j-- > 1;) std::swap(perm[j], perm[s.draw(j)]); auto old = sc.t[k]; for (size_t j = 0; j < m; j++) { sc.t[k][perm[j]] = old[j]; sc.t[k][perm[j]].pnr = perm[j]; } for (auto& c : sc.c[k]) c.pnr = perm[c.pnr]; sort_x(sc.c[k]); } }

PBT_SUB(scene, 25000, 900000) {
  int n = (int)s.i(2, 4); Rig r(n); RigSpec sp; gen_rig(s, r, sp); r.cp.c.allCam_flag = n > 2 && s.chance(1, 4); double sx = r.cp.c.imx * r.cp.c.pix_x; gen_limits(s, r.vp, sx * (s.b() ? s.r(.0005, .005) : s.r(.005, .05))); bool wide = r.vp.eps0 > .005 * sx;
  Scene sc; sc.t.resize(n); sc.c.resize(n); int np = (int)s.i(0, s.chance(1, 5) ? (wide ? 25 : 60) : 12), ns = (int)s.i(0, 6); double spread = s.chance(1, 3) ? s.r(wide || np > 25 ? .3 : .02, .3) : .9, noise = r.vp.eps0 * (s.b() ? s.r(0, .4) : 0); bool vary = s.b(); V3 cc = spread < .9 ? gen_in_ball(s, r.target, r.vr * (.9 - spread)) : r.target; int see = (int)s.i(1, 4);
  for (int i = 0; i < np; i++) { V3 P = gen_in_ball(s, cc, spread * r.vr); target t = gen_t(s); for (int k = 0; k < n; k++) { if (!s.chance(see, 4) && s.b()) continue; double x, y, px, py; if (!ref_project(P, &r.cal[k], &r.cp.mm, x, y) || !ref_pixel(r, k, P, px, py)) continue; target u = t; if (vary) { u.n = std::max(1L, u.n + s.i0(-3, 3)); u.sumg = std::max(1L, u.sumg + s.i0(-300, 300)); u.nx = std::max(1L, u.nx + s.i0(-1, 1)); } add(sc, k, x + s.r0(-noise, noise), y + s.r0(-noise, noise), u); } }
  for (int k = 0; k < n; k++) for (int i = 0; i < ns; i++) if (s.b()) add(sc, k, s.r0(-.5, .5) * sx, s.r0(-.5, .5) * sx, gen_t(s));
  if (s.chance(1, 12)) { int k = (int)s.draw(n - 1); sc.t[k].clear(); sc.c[k].clear(); s.label("camera without targets"); }
  if (s.chance(1, 10)) { int k = (int)s.draw(n - 1); add(sc, k, PT_UNUSED, PT_UNUSED, gen_t(s)); s.label("unusable target"); }
  if (s.chance(1, 15) && sc.t[0].size()) { for (int k = 0; k < n; k++) if (sc.t[k].size()) { auto t = sc.t[k][0]; add(sc, k, t.x, t.y, t); } s.label("twin targets"); }
  permute(s, sc); sc.finish(); s.label("cams:" + std::to_string(n)); std::string cnt; for (auto& t : sc.t) cnt += " " + std::to_string(t.size());
  s.note("%s; targets%s, eps %g limits %g %g %g %g corrmin %g allCam %d", show(r).c_str(), cnt.c_str(), r.vp.eps0, r.vp.cn, r.vp.cnx, r.vp.cny, r.vp.csumg, r.vp.corrmin, r.cp.c.allCam_flag); if (s.want_desc && s.desc.size() < 3500) for (int k = 0; k < n; k++) for (auto& c : sc.c[k]) { auto& t = sc.t[k][c.pnr]; s.note(" [%d: %.9g,%.9g #%d n%d %dx%d g%d]", k, c.x, c.y, c.pnr, t.n, t.nx, t.ny, t.sumg); }
  verify(s, r, sc, true);
}
// wide tolerance: very many candidate sets (the search may stop at its capacity, what it returns must still be sound)
PBT_SUB(dense, 60, 2500) {
  int n = (int)s.i(2, 4); Rig r(n); RigSpec sp; gen_rig(s, r, sp); double sx = r.cp.c.imx * r.cp.c.pix_x, sy = r.cp.c.imy * r.cp.c.pix_y; gen_limits(s, r.vp, 4 * sx); r.vp.cn = r.vp.cnx = r.vp.cny = r.vp.csumg = 0; r.vp.corrmin = 0; Scene sc; sc.t.resize(n); sc.c.resize(n);
  int m = n == 4 ? (int)s.i(5, 32) : n == 3 ? (int)s.i(20, 98) : (int)s.i(20, 190); for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) add(sc, k, s.r0(-.3, .3) * sx, s.r0(-.3, .3) * sy, gen_t(s)); permute(s, sc); sc.finish(); s.note("%s; %d targets per camera, all candidates for each other", show(r).c_str(), m); s.label("cams:" + std::to_string(n)); verify(s, r, sc, n == 4 && m <= 12);
}
// the sorting helpers order any list, and keep its elements
PBT_SUB(sorting, 200000, 4000000) {
  int m = (int)s.i(0, s.chance(1, 5) ? 200 : 12); std::vector<target> t(m); std::vector<coord_2d> c(m); std::vector<n_tupel> q(m); int rng = s.b() ? 3 : 1000000;
  for (int k = 0; k < m; k++) { memset(&t[k], 0, sizeof(target)); memset(&c[k], 0, sizeof(coord_2d)); memset(&q[k], 0, sizeof(n_tupel)); t[k].y = (double)s.i0(-rng, rng); t[k].x = k; t[k].pnr = k; c[k].x = (double)s.i0(-rng, rng); c[k].y = k; c[k].pnr = k; q[k].corr = (double)s.i0(-rng, rng); q[k].p[0] = k; }
  s.note("%d elements, keys up to %d", m, rng); if (m > 2) s.nontrivial(); auto t0 = t; auto c0 = c; auto q0 = q; quicksort_target_y(t.data(), m); quicksort_coord2d_x(c.data(), m); quicksort_con(q.data(), m);
  for (int k = 1; k < m; k++) { PBT_CHECK(t[k-1].y <= t[k].y, "targets not sorted along y at %d", k); PBT_CHECK(c[k-1].x <= c[k].x, "coordinates not sorted along x at %d", k); PBT_CHECK(q[k-1].corr >= q[k].corr, "sets not sorted by quality at %d", k); }
  std::vector<char> a(m), b(m), d(m); for (int k = 0; k < m; k++) { int i = t[k].pnr, j = c[k].pnr, l = q[k].p[0]; PBT_CHECK(i >= 0 && i < m && !a[i]++ && !memcmp(&t[k], &t0[i], sizeof(target)), "target lost in sorting"); PBT_CHECK(j >= 0 && j < m && !b[j]++ && !memcmp(&c[k], &c0[j], sizeof(coord_2d)), "coordinate lost in sorting"); PBT_CHECK(l >= 0 && l < m && !d[l]++ && !memcmp(&q[k], &q0[l], sizeof(n_tupel)), "set lost in sorting"); }
}
