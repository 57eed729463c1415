#include "common.h"
extern "C" {
#include "sortgrid.h"
}
static std::string show(const target& t) { char b[200]; snprintf(b, 200, "(%.9g,%.9g) pnr %d tnr %d n %d,%d,%d sum %d", t.x, t.y, t.pnr, t.tnr, t.n, t.nx, t.ny, t.sumg); return b; }
static target mk(Src& s, double x, double y) { target t; memset(&t, 0, sizeof t); t.x = x; t.y = y; t.pnr = (int)s.i(-999, 3000); t.n = (int)s.i(1, 500); t.nx = (int)s.i(1, 30); t.ny = (int)s.i(1, 30); t.sumg = (int)s.i(1, 100000); t.tnr = (int)s.i(-1, 3); return t; }

// against exhaustive search with the reference camera; decisions within `tol` pixels of a limit may go either way
PBT_SUB(search, 40000, 2000000) {
  Rig r(1); RigSpec sp; gen_rig(s, r, sp); int nf = (int)s.i(0, 25), eps = s.chance(1, 6) ? (int)s.i(0, 3) : (int)s.i(1, 60); const double tol = .05; std::vector<V3> P; std::vector<std::array<double, 2>> c; std::vector<target> pix;
  if (r.cp.c.chfield == 0 && s.b()) s.label("full frame"); double W = r.cp.c.imx, H = r.cp.c.imy;
  for (int i = 0; i < nf; i++) { V3 p; double x, y; for (int t = 0;; t++) { if (t == 10) s.discard(); p = gen_in_ball(s, r.target, r.vr * s.one({.9, 1.3})); double fx, fy, sa; if (!ref_project(p, &r.cal[0], &r.cp.mm, fx, fy, &sa) || sa > .8) continue; ref_pixel(r, 0, p, x, y); if (hypot(x - W / 2, y - H / 2) < 1.1 * std::max(W, H)) break; } P.push_back(p); c.push_back({x, y}); if (x < 0 || y < 0 || x > W || y > H) s.label("point off the image"); }
  // detections: near a point, at the window's edges, anywhere
  int np = (int)s.i(0, 40); for (int k = 0; k < np; k++) { double x, y; if (nf && !s.chance(1, 4)) { auto& q = c[s.draw(nf - 1)]; double d = s.one({1., (double)eps, 1.5 * eps, .2}); x = q[0] + s.rs(-d, d); y = q[1] + s.rs(-d, d); } else { x = s.r(-20, W + 20); y = s.r(-20, H + 20); } pix.push_back(mk(s, x, y)); }
  s.note("%s; %d points, %d detections, radius %d", show(r).c_str(), nf, np, eps); auto pix0 = pix; auto P0 = P; Calibration cal = r.cal[0];
  target* o = sortgrid(&cal, &r.cp.c, nf, (vec3d*)P.data(), np, eps, pix.data()); std::vector<target> out(o, o + nf); free(o);
  PBT_CHECK(P == P0 && (!np || !memcmp(pix.data(), pix0.data(), np * sizeof(target))), "sortgrid() changed its inputs");
  for (int i = 0; i < nf; i++) { double x = c[i][0], y = c[i][1]; double edge = std::min(std::min(x, y) + eps, std::min(W - x, H - y) + eps); double dmin = 1e18; bool cand = false, sure = false;
    for (auto& p : pix) { double q = std::max(fabs(p.x - x), fabs(p.y - y)), d = hypot(p.x - x, p.y - y); if (q < eps + tol) cand = true; if (q < eps - tol) { sure = true; dmin = std::min(dmin, d); } }
    if (edge < -tol) cand = sure = false; else if (edge < tol) sure = false; if (cand) s.nontrivial();
    if (out[i].pnr == -999) { PBT_CHECK(!sure, "point %d at pixel (%.6g,%.6g) is left unpaired although a detection is %g px away (radius %d)", i, x, y, dmin, eps); s.label("unpaired"); continue; }
    PBT_CHECK(out[i].pnr == i, "detection paired with point %d carries number %d", i, out[i].pnr); PBT_CHECK(cand, "point %d at pixel (%.6g,%.6g) is paired with %s although no detection is near", i, x, y, show(out[i]).c_str());
    bool member = false; for (auto& p : pix) { target q = p; q.pnr = i; if (!memcmp(&q, &out[i], sizeof q)) member = true; } PBT_CHECK(member, "point %d is paired with %s, which is none of the detections", i, show(out[i]).c_str());
    double q = std::max(fabs(out[i].x - x), fabs(out[i].y - y)), d = hypot(out[i].x - x, out[i].y - y); s.label("paired"); PBT_CHECK(q < eps + tol && d < dmin + 2 * tol, "point %d at pixel (%.6g,%.6g) is paired with %s, %g px away; the nearest is at %g (radius %d)", i, x, y, show(out[i]).c_str(), d, dmin, eps); }
}
// every point whose own detection is closer than any other's gets it, whatever the order of the detections
PBT_SUB(recover, 15000, 500000) {
  Rig r(1); RigSpec sp; gen_rig(s, r, sp); int nf = (int)s.i(1, 60); std::vector<V3> P; std::vector<std::array<double, 2>> c; double x, y;
  for (int i = 0; i < nf; i++) { V3 p = gen_in_ball(s, r.target, r.vr * .95); if (!ref_pixel(r, 0, p, x, y, 1)) continue; bool ok = true; for (auto& q : c) if (hypot(q[0] - x, q[1] - y) < 4) ok = false; if (!ok) continue; P.push_back(p); c.push_back({x, y}); } nf = (int)P.size(); if (!nf) s.discard();
  std::vector<target> pix; std::vector<int> id; for (int i = 0; i < nf; i++) if (!s.chance(1, 8)) { target t = mk(s, c[i][0] + s.r0(-.9, .9), c[i][1] + s.r0(-.9, .9)); pix.push_back(t); id.push_back(i); } int np = (int)pix.size(); for (int k = np - 1; k > 0; k--) { int j = (int)s.draw(k); std::swap(pix[k], pix[j]); std::swap(id[k], id[j]); }
  int eps = (int)s.i(2, 100); s.nontrivial(); s.note("%s; %d points, %d detected, radius %d", show(r).c_str(), nf, np, eps); std::vector<int> of(nf, -1); for (int k = 0; k < np; k++) of[id[k]] = k;
  target* o = sortgrid(&r.cal[0], &r.cp.c, nf, (vec3d*)P.data(), np, eps, pix.data()); std::vector<target> out(o, o + nf); free(o);
  for (int i = 0; i < nf; i++) if (of[i] >= 0) { target q = pix[of[i]]; q.pnr = i; PBT_CHECK(!memcmp(&q, &out[i], sizeof q), "point %d at pixel (%.6g,%.6g) is paired with %s instead of its detection %s", i, c[i][0], c[i][1], show(out[i]).c_str(), show(q).c_str()); }
}
PBT_SUB(nearest, 150000, 6000000) {
  int n = (int)s.i(0, 30); bool grid = s.b(); double x = grid ? s.i(0, 20) : s.r(0, 50), y = grid ? s.i(0, 20) : s.r(0, 50), eps = grid ? s.i(0, 12) : s.r(0, 25); std::vector<target> p; for (int k = 0; k < n; k++) p.push_back(grid ? mk(s, s.i(-5, 25), s.i(-5, 25)) : mk(s, s.r(-20, 70), s.r(-20, 70)));
  s.note("(%g,%g) eps %g among %d", x, y, eps, n); auto p0 = p; int j = nearest_neighbour_pix(p.data(), n, x, y, eps); double best = 1e30; for (auto& t : p) if (fabs(t.x - x) < eps && fabs(t.y - y) < eps) best = std::min(best, (t.x - x) * (t.x - x) + (t.y - y) * (t.y - y));
  PBT_CHECK(!n || !memcmp(p.data(), p0.data(), n * sizeof(target)), "targets changed");
  if (best == 1e30) { PBT_CHECK(j == -999, "nothing within %g of (%g,%g), got number %d", eps, x, y, j); s.label("none"); return; } s.nontrivial(); s.label("found");
  PBT_CHECK(j >= 0 && j < n, "a detection lies within %g of (%g,%g), got number %d", eps, x, y, j); double d = (p[j].x - x) * (p[j].x - x) + (p[j].y - y) * (p[j].y - y); PBT_CHECK(fabs(p[j].x - x) < eps && fabs(p[j].y - y) < eps && d <= best * (1 + 1e-9), "number %d at distance %g of (%g,%g), nearest within %g is at %g", j, sqrt(d), x, y, eps, sqrt(best));
}
