#include "common.h"
extern "C" {
#include "track.h"
}
static bool pixel(const Rig& r, int cam, const V3& P, double& px, double& py) { double fx, fy, sa; if (!ref_project(P, &r.cal[cam], &r.cp.mm, fx, fy, &sa) || sa > .7) return false; LD dx, dy; ref_distort(fx + r.cal[cam].int_par.xh, fy + r.cal[cam].int_par.yh, r.cal[cam].added_par, dx, dy);
  px = (double)(dx / r.cp.c.pix_x + r.cp.c.imx / (LD)2); LD ey = r.cp.c.imy / (LD)2 - dy / r.cp.c.pix_y; if (r.cp.c.chfield == 1) ey = (ey - 1) / 2; else if (r.cp.c.chfield == 2) ey /= 2; py = (double)ey; return fabs(px) < 1e5 && fabs(py) < 1e5; }
static track_par gen_limits(Src& s, double sc) { track_par t; memset(&t, 0, sizeof t); double* m[6] = {&t.dvxmin, &t.dvxmax, &t.dvymin, &t.dvymax, &t.dvzmin, &t.dvzmax}; for (int k = 0; k < 3; k++) { if (s.chance(1, 5)) { double a = s.r0(-sc, sc); *m[2 * k] = a; *m[2 * k + 1] = a + s.r(0, sc); } else { *m[2 * k] = -s.r(0, sc); *m[2 * k + 1] = s.b() ? -*m[2 * k] : s.r(0, sc); } } t.dacc = s.r(.01, sc); t.dangle = s.r(1, 150); return t; }

PBT_SUB(window, 60000, 2000000) {
  Rig r((int)s.i(1, 4)); RigSpec sp; gen_rig(s, r, sp); V3 P = gen_in_ball(s, r.target, r.vr * (s.b() ? .9 : 1.5)); track_par tp = gen_limits(s, r.vr * s.one({.02, .2, .6})); int n = r.n(), W = r.cp.c.imx, H = r.cp.c.imy; bool out = false;
  std::vector<std::array<double, 4>> ex; for (int k = 0; k < n; k++) { double cx, cy, x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; if (!pixel(r, k, P, cx, cy)) s.discard(); if (cx < 0 || cy < 0 || cx > W || cy > H) out = true;
    for (int q = 0; q < 8; q++) { V3 Q = P + v3(q & 1 ? tp.dvxmax : tp.dvxmin, q & 2 ? tp.dvymax : tp.dvymin, q & 4 ? tp.dvzmax : tp.dvzmin); double x, y; if (!pixel(r, k, Q, x, y)) s.discard(); x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); }
    auto clip = [](double v, double m) { return v < 0 ? 0 : v > m ? m : v; }; if (x0 < 0 || y0 < 0 || x1 > W || y1 > H) s.label("clipped"); ex.push_back({clip(x1, W) - cx, cx - clip(x0, W), clip(y1, H) - cy, cy - clip(y0, H)}); }
  s.nontrivial(); if (out) s.label("centre outside"); s.note("%s; point (%.12g,%.12g,%.12g) limits x %.9g..%.9g y %.9g..%.9g z %.9g..%.9g", show(r).c_str(), P[0], P[1], P[2], tp.dvxmin, tp.dvxmax, tp.dvymin, tp.dvymax, tp.dvzmin, tp.dvzmax);
  double xr[4] = {7, 7, 7, 7}, xl[4] = {7, 7, 7, 7}, yd[4] = {7, 7, 7, 7}, yu[4] = {7, 7, 7, 7}; V3 p = P; track_par t0 = tp; searchquader(p.data(), xr, xl, yd, yu, &tp, &r.cp.c, r.cals.data()); PBT_CHECK(p == P && !memcmp(&t0, &tp, sizeof tp), "inputs changed");
  // the projection solves for the refraction point to about a micrometre on the glass
  auto tolerance = [&](int k) { const Calibration& c = r.cal[k]; V3 C = campos(c); M3 rm = ref_rotation(c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa); double D = fabs(dot(P - C, col(rm, 2))), l = len(P - C); return 1e-6 * (W + H) / 2000 + .006 * c.int_par.cc * l / (D * D) / std::min(r.cp.c.pix_x, r.cp.c.pix_y); };
  for (int k = 0; k < n; k++) { double tol = tolerance(k), g[4] = {xr[k], xl[k], yd[k], yu[k]}; for (int q = 0; q < 4; q++) PBT_CHECK(close(g[q], ex[k][q], 2 * tol), "camera %d: distance to the %s border is %.9g pixel, got %.9g", k, (const char*[]){"right", "left", "lower", "upper"}[q], ex[k][q], g[q]); }
  for (int k = n; k < 4; k++) PBT_CHECK(xr[k] == 7 && xl[k] == 7 && yd[k] == 7 && yu[k] == 7, "window of camera %d of %d written", k, n);
  for (int k = 0; k < n; k++) { vec2d v; double x, y, tol = tolerance(k); pixel(r, k, P, x, y); point_to_pixel(v, p.data(), r.cals[k], &r.cp.c); PBT_CHECK(close(v[0], x, tol) && close(v[1], y, tol), "camera %d sees the point at (%.9g,%.9g), got (%.9g,%.9g)", k, x, y, v[0], v[1]); }
}
PBT_SUB(nearest, 150000, 5000000) {
  CPar cp(1); gen_sensor(s, cp.c); int W = cp.c.imx, H = cp.c.imy, n = s.chance(1, 12) ? (int)s.i(100, 3000) : (int)s.i(0, 40); bool grid = s.b(); double unm = s.one({.1, .5, .9, 0., 1.}); std::vector<target> t(n); double cx, cy, R = s.b() ? s.r(0, 30) : s.r(0, W);
  if (s.chance(1, 8)) { cx = s.one({0., (double)W, -1e-9, W + 1e-9, -5., W + 5.}); cy = s.r(0, H); } else if (s.chance(1, 8)) { cy = s.one({0., (double)H, -1e-9, H + 1e-9, -5., H + 5.}); cx = s.r(0, W); } else { cx = grid && s.b() ? (double)s.i(0, W) : s.r(0, W); cy = grid && s.b() ? (double)s.i(0, H) : s.r(0, H); }
  bool band = s.chance(1, 3); for (int k = 0; k < n; k++) { bool far = s.draw(2) == 0; double x = far ? s.u() * W : cx + (s.u() * 2 - 1) * 1.3 * R, y = far ? s.u() * H : cy + (s.u() * 2 - 1) * 1.3 * R; if (band) y = cy - R - 20 + s.u() * 60; if (grid) { x = floor(x); y = floor(y); } memset(&t[k], 0, sizeof(target)); t[k].x = x; t[k].y = y; t[k].tnr = s.u() < unm ? -1 : (int)s.draw(4999); t[k].pnr = k; }
  std::stable_sort(t.begin(), t.end(), [](const target& a, const target& b) { return a.y < b.y; });
  double dl = R * s.one({1., .5, 0., 1.3}), dr = R * s.one({1., .5, 0., 1.3}), du = R * s.one({1., .5, 0., 1.3}), dd = R * s.one({1., .5, 0., 1.3}); if (grid && s.b()) { dl = floor(dl); dr = floor(dr); du = floor(du); dd = floor(dd); }
  s.note("sensor %dx%d, %d targets%s, centre (%.12g,%.12g), window left %.12g right %.12g up %.12g down %.12g;", W, H, n, grid ? " on a grid" : "", cx, cy, dl, dr, du, dd);
  double x0 = std::max(cx - dl, 0.), x1 = std::min(cx + dr, (double)W), y0 = std::max(cy - du, 0.), y1 = std::min(cy + dd, (double)H); bool in = cx >= 0 && cx <= W && cy >= 0 && cy <= H; if (!in) s.label("centre outside"); if (n > 60) s.label("long list");
  std::vector<target> t0 = t; auto same_t = [&] { return n == 0 || !memcmp(t.data(), t0.data(), n * sizeof(target)); };
  for (int rest = 0; rest < 2; rest++) { std::vector<double> d; for (auto& q : t) if ((q.tnr == -1) == (rest == 1) && in && q.x > x0 && q.x < x1 && q.y > y0 && q.y < y1) d.push_back(std::hypot(cx - q.x, cy - q.y)); std::sort(d.begin(), d.end()); size_t most = rest ? 1 : 4; if (d.size() > most) s.label("more than fit"); if (d.size()) s.nontrivial();
    for (size_t k = 1; k < d.size() && k < 5; k++) if (d[k] == d[k - 1]) s.label("ties");
    int p[4] = {77777, 77777, 77777, 77777}, c = rest ? candsearch_in_pix_rest(t.data(), n, cx, cy, dl, dr, du, dd, p, &cp.c) : candsearch_in_pix(t.data(), n, cx, cy, dl, dr, du, dd, p, &cp.c); PBT_CHECK(same_t(), "targets changed");
    PBT_CHECK(c == (int)std::min(most, d.size()), "%s: %d targets found, %zu are in the window", rest ? "unmatched" : "matched", c, d.size());
    for (int k = 0; k < (rest ? 1 : 4); k++) { if (k >= c) { PBT_CHECK(p[k] == PT_UNUSED, "entry %d behind %d found is %d", k, c, p[k]); continue; } PBT_CHECK(p[k] >= 0 && p[k] < n, "index %d of %d", p[k], n); target& q = t[p[k]]; PBT_CHECK((q.tnr == -1) == (rest == 1) && q.x > x0 && q.x < x1 && q.y > y0 && q.y < y1, "found target (%.9g,%.9g) label %d does not belong to the window", q.x, q.y, q.tnr);
      PBT_CHECK(close(std::hypot(cx - q.x, cy - q.y), d[k], 1e-9), "%s: entry %d is at distance %.12g, the %d. nearest at %.12g", rest ? "unmatched" : "matched", k, std::hypot(cx - q.x, cy - q.y), k + 1, d[k]); for (int j = 0; j < k; j++) PBT_CHECK(p[j] != p[k], "target %d found twice", p[k]); } }
}
PBT_SUB(ranking, 200000, 5000000) {
  int nc = (int)s.i(1, 4), pool = (int)s.i(1, 12), N = nc * MAX_CANDS; std::vector<foundpix> it(N); memset(it.data(), 0, N * sizeof(foundpix)); reset_foundpix_array(it.data(), N, nc); for (auto& q : it) { PBT_CHECK(q.ftnr == -1 && q.freq == 0, "reset leaves particle %d, count %d", q.ftnr, q.freq); for (int k = 0; k < nc; k++) PBT_CHECK(q.whichcam[k] == 0, "reset leaves camera flags"); }
  std::map<int, std::set<int>> seen; std::string o; for (int c = 0; c < nc; c++) { int k = 0, m = (int)s.i(0, 4); std::set<int> u; for (int j = 0; j < m; j++) { int f = (int)s.i(0, pool - 1); if (!u.insert(f).second) continue; it[c * 4 + k].ftnr = f; it[c * 4 + k].whichcam[c] = 1; k++; seen[f].insert(c); o += std::to_string(f) + " "; } o += "| "; }
  s.note("%s", o.c_str()); size_t top = 0; for (auto& q : seen) top = std::max(top, q.second.size()); if (top > 1) s.nontrivial(); std::map<int, int> ex; for (auto& q : seen) if (q.second.size() > 1) ex[q.first] = (int)q.second.size();
  auto copy = it; std::vector<foundpix> cc(N); copy_foundpix_array(cc.data(), copy.data(), N, nc); for (int k = 0; k < N; k++) { PBT_CHECK(cc[k].ftnr == it[k].ftnr && cc[k].freq == it[k].freq && !memcmp(cc[k].whichcam, it[k].whichcam, nc * sizeof(int)), "copied entry %d differs", k); }
  int got = sort_candidates_by_freq(it.data(), nc); if (top == 1) { s.label("seen once only"); PBT_CHECK(got == 1 && seen.count(it[0].ftnr), "best of candidates seen once: %d kept, first is %d", got, it[0].ftnr); return; }
  PBT_CHECK(got == (int)ex.size(), "%d candidates kept, %zu are seen more than once", got, ex.size()); std::set<int> u; for (int k = 0; k < N; k++) { if (k >= got) { PBT_CHECK(it[k].freq == 0, "entry %d behind %d candidates has count %d", k, got, it[k].freq); continue; } PBT_CHECK(ex.count(it[k].ftnr) && u.insert(it[k].ftnr).second, "entry %d names particle %d", k, it[k].ftnr); PBT_CHECK(it[k].freq == ex[it[k].ftnr], "particle %d is seen by %d cameras, count says %d", it[k].ftnr, ex[it[k].ftnr], it[k].freq); PBT_CHECK(!k || it[k - 1].freq >= it[k].freq, "candidate %d ranks above one seen more often", k - 1); }
}
PBT_SUB(criteria, 300000, 10000000) {
  double sc = s.one({1., 1e-4, 100.}); auto rnd = [&] { return v3(s.rs(-1, 1), s.rs(-1, 1), s.rs(-1, 1)) * sc; }; V3 S = rnd(), v0 = rnd(), v1; switch (s.draw(6)) { case 0: v1 = v0; break; case 1: v1 = v0 * -1; break; case 2: v1 = v0 * s.r(.01, 3); s.label("parallel"); break; case 3: v1 = v0 + rnd() * s.one({1e-3, 1e-7, 1e-12}); s.label("almost parallel"); break; case 4: v1 = v3(0, 0, 0); s.label("at rest"); if (s.b()) std::swap(v0, v1); if (s.chance(1, 4)) v0 = v1 = v3(0, 0, 0); break; default: v1 = rnd(); }
  V3 P = S + v0, C = S + v1; v0 = P - S; v1 = C - S; s.nontrivial(); s.note("from (%.17g,%.17g,%.17g) predicted (%.17g,%.17g,%.17g) found (%.17g,%.17g,%.17g)", S[0], S[1], S[2], P[0], P[1], P[2], C[0], C[1], C[2]);
  double an = -7, ac = -7; V3 a = S, b = P, c = C; angle_acc(a.data(), b.data(), c.data(), &an, &ac); PBT_CHECK(a == S && b == P && c == C, "inputs changed"); PBT_CHECK(close(ac, len(v1 - v0), 1e-15 * sc, 1e-13), "acceleration is %.15g, got %.15g", len(v1 - v0), ac);
  LD l0 = 0, l1 = 0, d = 0; for (int k = 0; k < 3; k++) { l0 += (LD)v0[k] * v0[k]; l1 += (LD)v1[k] * v1[k]; d += (LD)v0[k] * v1[k]; } LD cr[3], cl = 0; for (int k = 0; k < 3; k++) { int i = (k + 1) % 3, j = (k + 2) % 3; cr[k] = (LD)v0[i] * v1[j] - (LD)v0[j] * v1[i]; cl += cr[k] * cr[k]; } double e = l0 == 0 || l1 == 0 ? 0 : (double)(atan2l(sqrtl(cl), d) * 200 / M_PIl);
  double st = std::min(e, 200 - e); PBT_CHECK(an >= 0 && an <= 200 + 1e-9 && close(an, e, st < 1 ? 4e-6 : 1e-10 / st * 100), "angle is %.12g gon, got %.12g", e, an); if (v0 == v1) PBT_CHECK(an == 0, "equal velocities have angle %g", an);
  V3 o; search_volume_center_moving(a.data(), b.data(), o.data()); for (int k = 0; k < 3; k++) PBT_CHECK(close(o[k], 2 * P[k] - S[k], 1e-14 * sc, 1e-14), "centre of search: coordinate %d is %.15g, got %.15g", k, 2 * P[k] - S[k], o[k]); PBT_CHECK(a == S && b == P, "inputs changed");
  double q[2]; predict(a.data(), b.data(), q); for (int k = 0; k < 2; k++) PBT_CHECK(close(q[k], 2 * P[k] - S[k], 1e-14 * sc, 1e-14), "predicted coordinate %d is %.15g, got %.15g", k, 2 * P[k] - S[k], q[k]);
  track_par tp = gen_limits(s, sc); V3 w = rnd(); if (s.chance(1, 4)) w[s.draw(2)] = s.b() ? tp.dvxmin : tp.dvxmax; if (s.chance(1, 8)) w = v3(s.b() ? tp.dvxmin : tp.dvxmax, (tp.dvymin + tp.dvymax) / 2, (tp.dvzmin + tp.dvzmax) / 2); bool in = w[0] > tp.dvxmin && w[0] < tp.dvxmax && w[1] > tp.dvymin && w[1] < tp.dvymax && w[2] > tp.dvzmin && w[2] < tp.dvzmax; if (in) s.label("within limits"); PBT_CHECK(!!pos3d_in_bounds(w.data(), &tp) == in, "(%.12g,%.12g,%.12g) in limits x %.12g..%.12g y %.12g..%.12g z %.12g..%.12g: %d", w[0], w[1], w[2], tp.dvxmin, tp.dvxmax, tp.dvymin, tp.dvymax, tp.dvzmin, tp.dvzmax, !in);
}
PBT_SUB(decisions, 200000, 5000000) {
  int n = (int)s.i(0, 80); std::vector<float> f(n); std::vector<int> id(n); bool few = s.b(); for (int k = 0; k < n; k++) { f[k] = few ? (float)s.i0(-3, 3) : (float)s.rs(-1e3, 1e3); id[k] = k * 3 + 1; } if (s.b()) for (int k = n - 1; k > 0; k--) std::swap(id[k], id[s.draw(k)]); if (n > 1) s.nontrivial(); s.note("%d values", n); std::multiset<std::pair<float, int>> a, b; for (int k = 0; k < n; k++) a.insert({f[k], id[k]});
  sort(n, f.data(), id.data()); for (int k = 0; k < n; k++) { b.insert({f[k], id[k]}); PBT_CHECK(!k || f[k - 1] <= f[k], "value %g before %g", f[k - 1], f[k]); } PBT_CHECK(a == b, "sorting separated values from their numbers");
}
