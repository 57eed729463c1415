#include "common.h"
extern "C" {
#include "epi.h"
}
struct Pt { double x, y; target t; };
static double ratio(double a, double b) { return a < b ? a / b : b / a; }
PBT_SUB(search, 1500000, 30000000) {
  control_par cp; memset(&cp, 0, sizeof cp); gen_sensor(s, cp, false); if (cp.imx < 60) cp.imx = 100; if (cp.imy < 60) cp.imy = 100; mm_np mm; memset(&mm, 0, sizeof mm); cp.mm = &mm;
  Calibration cal; memset(&cal, 0, sizeof cal); double sx = cp.imx * cp.pix_x, sy = cp.imy * cp.pix_y; cal.int_par.cc = sx; bool plain = s.b(); cal.added_par.scx = 1;
  if (!plain) { cal.int_par.xh = s.r0(-.2, .2) * sx; cal.int_par.yh = s.r0(-.2, .2) * sy; cal.added_par = gen_ap(s, hypot(sx, sy) / 2, .01); s.label("shifted sensor"); }
  // sensor corners in flat coordinates (exact inverse of the distortion, then the shift)
  double bx[2], by[2], out[4] = {1e9, -1e9, 1e9, -1e9}, R = hypot(sx, sy) / 2, mg; { const ap_52& a = cal.added_par; double r2 = R * R, q = 3 * fabs(a.k1) * r2 + 5 * fabs(a.k2) * r2 * r2 + 7 * fabs(a.k3) * r2 * r2 * r2 + 6 * (fabs(a.p1) + fabs(a.p2)) * R; mg = 3 * q * q * (q + .03) * R + 1e-9;
    // corners and middles of the sides: the one that goes furthest bounds the sensor
    for (int k = 0; k < 9; k++) { double x = (k % 3 - 1) * sx / 2, y = (k / 3 - 1) * sy / 2; LD ux = x, uy = y; for (int i = 0; i < 60; i++) { LD ox, oy; ref_distort(ux, uy, a, ox, oy); ux -= ox - x; uy -= oy - y; } double fx = (double)ux - cal.int_par.xh, fy = (double)uy - cal.int_par.yh; if (k == 0) bx[0] = fx, by[0] = fy; if (k == 8) bx[1] = fx, by[1] = fy;
      out[0] = std::min(out[0], fx); out[1] = std::max(out[1], fx); out[2] = std::min(out[2], fy); out[3] = std::max(out[3], fy); } }
  int n; bool big = s.chance(1, 400); if (big) { n = s.one({127, 255, 511, 1023, 2047, 4095, 8191, 16383}) + (int)s.i0(-1, 1); s.label("long list"); } else n = (int)s.i(0, s.chance(1, 10) ? 300 : 40);
  volume_par vp; memset(&vp, 0, sizeof vp); vp.eps0 = big ? s.r(1e-4, 3e-3) * sx : s.r(.002, .2) * sx; vp.cn = s.chance(1, 3) ? 0 : s.r(0, .9); vp.cnx = s.chance(1, 3) ? 0 : s.r(0, .9); vp.cny = s.chance(1, 3) ? 0 : s.r(0, .9); vp.csumg = s.chance(1, 3) ? 0 : s.r(0, .9);
  // segment
  double xa = s.rs(-.7, .7) * sx, ya = s.rs(-.7, .7) * sy, xb, yb; switch (s.draw(6)) { case 0: xb = xa; yb = s.rs(-.7, .7) * sy; s.label("seg:vertical"); break; case 1: xb = s.rs(-.7, .7) * sx; yb = ya; s.label("seg:horizontal"); break; case 2: xb = xa; yb = ya; s.label("seg:point"); break;
    case 3: xb = xa + s.r0(-1e-6, 1e-6); yb = s.rs(-.7, .7) * sy; s.label("seg:nearly vertical"); break; default: xb = s.rs(-.7, .7) * sx; yb = s.rs(-.7, .7) * sy; s.label("seg:oblique"); }
  if (big && s.b()) { double w = s.r(0, .02) * sx; xa = s.b() ? bx[0] + w : bx[1] - w; xb = xa + s.r0(-.01, .01) * sx; }
  if (hypot(xb - xa, yb - ya) < 1e-4 * sx) { xb = xa; yb = ya; s.label("seg:point"); }
  // targets: near the segment (and near its band edges), its ends, or anywhere
  int rn = (int)s.i(1, 60), rnx = (int)s.i(1, 10), rny = (int)s.i(1, 10), rs = (int)s.i(1, 5000); std::vector<Pt> P(n); double L = hypot(xb - xa, yb - ya), ux = L > 0 ? (xb - xa) / L : 1, uy = L > 0 ? (yb - ya) / L : 0;
  pbt::Rng lr(big ? s.draw(1u << 30) : 0); auto U = [&] { return big ? (lr.next() >> 11) * (1. / 9007199254740992.) : s.u(); };
  for (auto& p : P) { int k = (int)(U() * 5); if (big && U() < .97) k = 4; if (k < 2) { double t = U() * 1.2 - .1, off = (U() * 2.4 - 1.2) * vp.eps0; p.x = xa + ux * t * L - uy * off; p.y = ya + uy * t * L + ux * off; } else if (k == 2) { bool e = U() < .5; p.x = (e ? xb : xa) + (U() * 3 - 1.5) * vp.eps0; p.y = (e ? yb : ya) + (U() * 3 - 1.5) * vp.eps0; } else { p.x = (U() - .5) * 1.2 * sx; p.y = (U() - .5) * 1.2 * sy; }
    memset(&p.t, 0, sizeof p.t); auto v = [&](int ref, int max) { double u = U(); int r = u < .4 ? ref : 1 + (int)(U() * max); return r; }; p.t.n = v(rn, 80); p.t.nx = v(rnx, 12); p.t.ny = v(rny, 12); p.t.sumg = v(rs, 6000); p.t.tnr = -1; }
  if (big && s.b()) { double x0 = std::min(xa, xb); for (size_t k = 0; k < P.size(); k++) { if (k < 3) { double t = L > 0 ? U() * .2 : 0; bool a = xa <= xb; P[k].x = (a ? xa + t * (xb - xa) : xb + t * (xa - xb)); P[k].y = (a ? ya + t * (yb - ya) : yb + t * (ya - yb)); P[k].t.n = rn; P[k].t.nx = rnx; P[k].t.ny = rny; P[k].t.sumg = rs; } else { double f = fabs(P[k].x - x0); P[k].x = std::max(xa, xb) + f; } } s.label("long list: segment at the start"); }
  std::sort(P.begin(), P.end(), [](const Pt& a, const Pt& b) { return a.x < b.x; });
  std::vector<int> perm(n); for (int k = 0; k < n; k++) perm[k] = k; for (int k = n - 1; k > 0; k--) std::swap(perm[k], perm[big ? lr.next() % (k + 1) : s.draw(k)]);
  std::vector<coord_2d> crd(n); std::vector<target> pix(n); for (int k = 0; k < n; k++) { crd[k].x = P[k].x; crd[k].y = P[k].y; crd[k].pnr = perm[k]; pix[perm[k]] = P[k].t; pix[perm[k]].pnr = perm[k]; }
  s.note("%s shift (%g,%g); segment (%.9g,%.9g)-(%.9g,%.9g) eps %g, limits cn=%g cnx=%g cny=%g csumg=%g, reference n=%d nx=%d ny=%d sumg=%d, %d targets", show(cp).c_str(), cal.int_par.xh, cal.int_par.yh, xa, ya, xb, yb, vp.eps0, vp.cn, vp.cnx, vp.cny, vp.csumg, rn, rnx, rny, rs, n);
  auto kc = crd; auto kp = pix; std::vector<candidate> cand(MAXCAND); for (auto& c : cand) { c.pnr = -77; c.tol = c.corr = -7e7; }
  int got = find_candidate(crd.data(), pix.data(), n, xa, ya, xb, yb, rn, rnx, rny, rs, cand.data(), &vp, &cp, &cal);
  PBT_CHECK((!n || !memcmp(kc.data(), crd.data(), sizeof(coord_2d) * n)) && (!n || !memcmp(kp.data(), pix.data(), sizeof(target) * n)), "target lists were changed");
  double lx = std::min(xa, xb), hx = std::max(xa, xb), ly = std::min(ya, yb), hy = std::max(ya, yb);
  double l0 = out[0], h0 = out[1], l1 = out[2], h1 = out[3];
  bool off = hx < l0 - mg || lx > h0 + mg || hy < l1 - mg || ly > h1 + mg, border = !off && !(hx > l0 + mg && lx < h0 - mg && hy > l1 + mg && ly < h1 - mg);
  if (off) { s.label("segment off the sensor"); PBT_CHECK(got == -1, "segment (%g,%g)-(%g,%g) misses the sensor [%g,%g]x[%g,%g] but %d candidates are reported", xa, ya, xb, yb, l0, h0, l1, h1, got); return; }
  if (border && got == -1) s.discard();
  PBT_CHECK(got >= 0 && got <= MAXCAND, "segment (%g,%g)-(%g,%g) meets the sensor [%g,%g]x[%g,%g] but the result is %d", xa, ya, xb, yb, l0, h0, l1, h1, got);
  // oracle
  double eps = 1e-9 * (sx + sy) + (xa == xb && L > 0 ? 2e-10 / L * (sx + sy) : 0), qe = 1e-12; /* vertical lines are tilted by 1e-10 mm */ std::map<int, double> must; std::set<int> may;
  for (int k = 0; k < n; k++) { double d = L > 0 ? fabs((P[k].x - xa) * uy - (P[k].y - ya) * ux) : hypot(P[k].x - xa, P[k].y - ya), w = vp.eps0; double qn = ratio(rn, P[k].t.n), qx = ratio(rnx, P[k].t.nx), qy = ratio(rny, P[k].t.ny), qs = ratio(rs, P[k].t.sumg);
    auto in = [&](double e) { return (d < w + e || (L == 0 && e > 0)) && P[k].x > lx - w - e && P[k].x < hx + w + e && P[k].y > ly - w - e && P[k].y < hy + w + e; };
    bool q1 = qn >= vp.cn + qe && qx >= vp.cnx + qe && qy >= vp.cny + qe && qs > vp.csumg + qe, q2 = qn >= vp.cn - qe && qx >= vp.cnx - qe && qy >= vp.cny - qe && qs > vp.csumg - qe;
    if (in(-eps) && q1) must[k] = d; if (in(eps) && q2) may.insert(k); }
  if (may.size() > MAXCAND) { s.label("over capacity"); s.discard(); }
  if (must.size()) { s.nontrivial(); s.label("has candidates"); } if (must.size() < may.size()) s.label("boundary target");
  std::set<int> have; for (int k = 0; k < got; k++) { int j = cand[k].pnr; PBT_CHECK(j >= 0 && j < n && have.insert(j).second, "candidate %d of %d has list position %d (%d targets) or repeats", k, got, j, n);
    PBT_CHECK(may.count(j), "target %d at (%.9g,%.9g) n=%d nx=%d ny=%d sumg=%d is reported but does not qualify", j, P[j].x, P[j].y, P[j].t.n, P[j].t.nx, P[j].t.ny, P[j].t.sumg);
    double d = L > 0 ? fabs((P[j].x - xa) * uy - (P[j].y - ya) * ux) : hypot(P[j].x - xa, P[j].y - ya); PBT_CHECK((L == 0 && cand[k].tol >= 0 && cand[k].tol <= d + eps) || close(cand[k].tol, d, 3 * eps), "candidate at (%g,%g) has distance %.9g, it is %.9g", P[j].x, P[j].y, cand[k].tol, d);
    double corr = (4 * ratio(rs, P[j].t.sumg) + 2 * ratio(rn, P[j].t.n) + ratio(rnx, P[j].t.nx) + ratio(rny, P[j].t.ny)) * ((double)rs + P[j].t.sumg); PBT_CHECK(close(cand[k].corr, corr, 0, 1e-12), "similarity score %.12g, expected %.12g", cand[k].corr, corr); }
  for (auto& m : must) PBT_CHECK(have.count(m.first), "target %d of %d at (%.9g,%.9g), %.3g from the line (tolerance %g), qualifies but is not among the %d candidates", m.first, n, P[m.first].x, P[m.first].y, m.second, vp.eps0, got);
  for (int k = got; k < MAXCAND; k++) PBT_CHECK(cand[k].pnr == -77, "entry %d beyond the %d candidates was written", k, got);
}
