// P15: calibrations survive saving and loading, with proper rotations.
#include "files.h"

static double gen_angle(Src& s) { switch (s.draw(5)) { case 0: return s.i0(-8, 8) * M_PI / 2; case 1: return s.r0(-1e-6, 1e-6); case 2: return s.r0(-50, 50); default: return s.r0(-M_PI, M_PI); } }
static double gen_val(Src& s, double m) { switch (s.draw(5)) { case 0: return 0; case 1: return (double)s.i0(-(long)std::max(1., m), (long)std::max(1., m)); case 2: return s.r0(-m, m) * 1e-4; case 3: return s.r0(-m, m) * 100; default: return s.r0(-m, m); } }
static Calibration gen_cal(Src& s) {
  Calibration c; memset(&c, 0, sizeof c); c.ext_par.x0 = gen_val(s, 1000); c.ext_par.y0 = gen_val(s, 1000); c.ext_par.z0 = gen_val(s, 1000); c.ext_par.omega = gen_angle(s); c.ext_par.phi = gen_angle(s); c.ext_par.kappa = gen_angle(s); rotation_matrix(&c.ext_par);
  c.int_par.xh = gen_val(s, 5); c.int_par.yh = gen_val(s, 5); c.int_par.cc = gen_val(s, 200); c.glass_par.vec_x = gen_val(s, 100); c.glass_par.vec_y = gen_val(s, 100); c.glass_par.vec_z = gen_val(s, 100);
  ap_52& a = c.added_par; a.k1 = gen_val(s, .1); a.k2 = gen_val(s, .01); a.k3 = gen_val(s, .001); a.p1 = gen_val(s, .1); a.p2 = gen_val(s, .1); a.scx = s.chance(1, 4) ? 1 : gen_val(s, 1.5); a.she = gen_val(s, .5); return c; }
static std::string showc(const Calibration& c) { char b[600]; snprintf(b, 600, "x0 %.12g %.12g %.12g angles %.12g %.12g %.12g interior %.8g %.8g %.8g glass %.17g %.17g %.17g added %.10g %.10g %.10g %.10g %.10g %.10g %.10g", c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa, c.int_par.xh, c.int_par.yh, c.int_par.cc, c.glass_par.vec_x, c.glass_par.vec_y, c.glass_par.vec_z, c.added_par.k1, c.added_par.k2, c.added_par.k3, c.added_par.p1, c.added_par.p2, c.added_par.scx, c.added_par.she); return b; }
static void same_ap(const ap_52& g, const ap_52& e, const char* what) { PBT_CHECK(g.k1 == e.k1 && g.k2 == e.k2 && g.k3 == e.k3 && g.p1 == e.p1 && g.p2 == e.p2 && g.scx == e.scx && g.she == e.she, "%s: distortion %.10g %.10g %.10g %.10g %.10g %.10g %.10g, expected %.10g %.10g %.10g %.10g %.10g %.10g %.10g", what, g.k1, g.k2, g.k3, g.p1, g.p2, g.scx, g.she, e.k1, e.k2, e.k3, e.p1, e.p2, e.scx, e.she); }
static ap_52 ap_file(ap_52 a) { for (double* p : {&a.k1, &a.k2, &a.k3, &a.p1, &a.p2, &a.scx, &a.she}) *p = rounded(*p, "%.8f"); return a; }
static ap_52 neutral() { ap_52 a; memset(&a, 0, sizeof a); a.scx = 1; return a; }
static void check_rot(const Exterior& e, double tol, const char* what) { M3 r = ref_rotation(e.omega, e.phi, e.kappa); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PBT_CHECK(fabsl(e.dm[i][j] - r.m[i][j]) <= tol, "%s: rotation [%d][%d] is %.17g, expected %.17Lg", what, i, j, e.dm[i][j], r.m[i][j]); }
static char* cs(const std::string& a) { return (char*)a.c_str(); }

PBT_SUB(rotation, 200000, 5000000) {
  Exterior e; memset(&e, 0x77, sizeof e); e.x0 = 1; e.y0 = 2; e.z0 = 3; e.omega = gen_angle(s); e.phi = gen_angle(s); e.kappa = gen_angle(s); Exterior was = e; s.note("angles %.17g %.17g %.17g", e.omega, e.phi, e.kappa); if (e.omega != 0 || e.phi != 0 || e.kappa != 0) s.nontrivial();
  rotation_matrix(&e); PBT_CHECK(e.x0 == was.x0 && e.y0 == was.y0 && e.z0 == was.z0 && e.omega == was.omega && e.phi == was.phi && e.kappa == was.kappa, "position or angles changed"); check_rot(e, 2e-15, "rotation"); 
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = 0; for (int k = 0; k < 3; k++) d += e.dm[i][k] * e.dm[j][k]; PBT_CHECK(fabs(d - (i == j)) < 8e-15, "rows %d and %d: product %.17g", i, j, d); }
  double det = 0; for (int i = 0; i < 3; i++) det += e.dm[0][i] * (e.dm[1][(i + 1) % 3] * e.dm[2][(i + 2) % 3] - e.dm[1][(i + 2) % 3] * e.dm[2][(i + 1) % 3]); PBT_CHECK(fabs(det - 1) < 1e-14, "determinant %.17g", det);
}

struct F { std::string ori, add, fb; void clean() { for (auto& f : {ori, add, fb}) { unlink(f.c_str()); rmdir(f.c_str()); } } };
static F names(Src& s) { F f; f.ori = gen_base(s, "cam") + "tif.ori"; f.add = gen_base(s, "cam") + "addpar"; f.fb = pbt::scratch() + "/fallback.raw"; f.clean(); return f; }

PBT_SUB(roundtrip, 40000, 1000000) {
  Locale L(s); Calibration c = gen_cal(s), was = c; F f = names(s); int fd = fdprobe(); s.note("%s;", showc(c).c_str()); s.nontrivial();
  int how = (int)s.draw(5);    // 0,1 add file; 2 add + fallback; 3 fallback only; 4 neither (missing); 5 no names at all
  const char* hows[] = {"distortion file", "distortion file", "distortion file and fallback", "fallback only", "files missing", "no distortion names"}; s.label(hows[how]); s.note(" %s", hows[how]);
  int r = write_calibration(&c, cs(f.ori), how == 5 ? nullptr : cs(f.add)); PBT_CHECK(r, "writing reports failure"); PBT_CHECK(!memcmp(&c, &was, sizeof c), "writing changed the calibration"); PBT_CHECK(access(cs(f.add), F_OK) == (how == 5 ? -1 : 0), "distortion file does not agree with the request");
  auto t = tokens(pbt::slurp(f.ori)); PBT_CHECK(t.size() == 21, "%zu values in the orientation file", t.size()); double want[21] = {c.ext_par.x0, c.ext_par.y0, c.ext_par.z0, c.ext_par.omega, c.ext_par.phi, c.ext_par.kappa}; for (int i = 0; i < 9; i++) want[6 + i] = c.ext_par.dm[i / 3][i % 3]; want[15] = c.int_par.xh; want[16] = c.int_par.yh; want[17] = c.int_par.cc; want[18] = c.glass_par.vec_x; want[19] = c.glass_par.vec_y; want[20] = c.glass_par.vec_z;
  for (int i = 0; i < 21; i++) { const char* fm = i < 6 ? "%.8f" : i < 15 ? "%.7f" : i < 18 ? "%.4f" : "%.15f"; want[i] = rounded(want[i], fm); PBT_CHECK(strtod(t[i].c_str(), 0) == want[i], "value %d of the orientation file is %s, expected %.17g", i, t[i].c_str(), want[i]); }
  ap_52 exp = ap_file(c.added_par); 
  if (how == 2 || how == 3) { Calibration o = gen_cal(s); PBT_CHECK(write_calibration(&o, cs(f.ori + ".x"), cs(f.fb)), "writing reports failure"); unlink(cs(f.ori + ".x")); if (how == 3) { unlink(cs(f.add)); exp = ap_file(o.added_par); } }
  if (how == 4) unlink(cs(f.add)); if (how >= 4) exp = neutral();
  Calibration* g = read_calibration(cs(f.ori), how == 5 ? nullptr : cs(f.add), how == 5 || (how < 2 && s.b()) ? nullptr : cs(f.fb)); PBT_CHECK(g, "reading reports failure");
  double got[21] = {g->ext_par.x0, g->ext_par.y0, g->ext_par.z0, g->ext_par.omega, g->ext_par.phi, g->ext_par.kappa, 0, 0, 0, 0, 0, 0, 0, 0, 0, g->int_par.xh, g->int_par.yh, g->int_par.cc, g->glass_par.vec_x, g->glass_par.vec_y, g->glass_par.vec_z};
  for (int i = 0; i < 21; i++) if (i < 6 || i > 14) PBT_CHECK(got[i] == want[i], "value %d read is %.17g, expected %.17g", i, got[i], want[i]);
  check_rot(g->ext_par, 2e-15, "rotation after reading"); for (int i = 0; i < 9; i++) PBT_CHECK(close(g->ext_par.dm[i / 3][i % 3], c.ext_par.dm[i / 3][i % 3], 2e-8), "rotation %d differs from the one saved", i); same_ap(g->added_par, exp, hows[how]); PBT_CHECK(g->mmlut.data == nullptr, "a loaded calibration has a refraction table");
  Exterior E; Interior I; Glass G; ap_52 A; PBT_CHECK(read_ori(&E, &I, &G, cs(f.ori), &A, how == 5 ? nullptr : cs(f.add), how >= 4 ? nullptr : how == 3 ? cs(f.fb) : nullptr), "read_ori reports failure"); for (int i = 0; i < 9; i++) PBT_CHECK(E.dm[i / 3][i % 3] == want[6 + i], "matrix element %d is %.17g, in the file %.17g", i, E.dm[i / 3][i % 3], want[6 + i]); same_ap(A, exp, "read_ori"); PBT_CHECK(E.x0 == want[0] && E.kappa == want[5] && I.cc == want[17] && G.vec_z == want[20], "read_ori differs from read_calibration");
  // a second trip changes nothing
  Calibration g2 = *g; PBT_CHECK(write_calibration(&g2, cs(f.ori), cs(f.add)), "writing reports failure"); Calibration* h = read_calibration(cs(f.ori), cs(f.add), nullptr); PBT_CHECK(h, "reading reports failure"); PBT_CHECK(!memcmp(&h->ext_par, &g->ext_par, sizeof h->ext_par) && !memcmp(&h->int_par, &g->int_par, sizeof h->int_par) && !memcmp(&h->glass_par, &g->glass_par, sizeof h->glass_par) && compare_calib(h, g), "saving and loading again changes the camera"); same_ap(h->added_par, g->added_par, "second trip");
  free(g); free(h); PBT_CHECK(fdprobe() == fd, "a file was left open"); f.clean();
}

PBT_SUB(faults, 40000, 1000000) {
  Locale L(s); Calibration c = gen_cal(s); F f = names(s); int fd = fdprobe(); s.nontrivial(); PBT_CHECK(write_calibration(&c, cs(f.ori), cs(f.add)), "writing reports failure"); pbt::spew(f.fb, pbt::slurp(f.add)); int kind = (int)s.draw(4);
  if (kind <= 2) {
    int which = (int)s.draw(2); const char* wn[] = {"orientation", "distortion", "fallback"}; std::string& name = which == 0 ? f.ori : which == 1 ? f.add : f.fb; if (which == 2) unlink(cs(f.add)); std::string txt = pbt::slurp(name); auto t = tokens(txt); bool must = true;
    if (kind == 0) { size_t cut = s.draw(txt.size() - 1); txt.resize(cut); auto u = tokens(txt); must = u.size() < t.size() || !is_num(u.back()); s.note("%s file cut at byte %zu", wn[which], cut); s.label(std::string("truncated ") + wn[which]); }
    else if (kind == 1) { size_t k = s.draw(t.size() - 1); t[k] = s.one({"x", "-", "#", "..", "a1", ","}); txt.clear(); for (auto& w : t) txt += w + "\n"; s.note("%s file: value %zu is '%s'", wn[which], k, t[k].c_str()); s.label(std::string("bad value ") + wn[which]); }
    else { if (which) { s.note("empty %s file", wn[which]); txt = ""; } else { s.note("no orientation file"); unlink(cs(f.ori)); Calibration* g = read_calibration(cs(f.ori), cs(f.add), cs(f.fb)); PBT_CHECK(!g, "a missing orientation file is read"); PBT_CHECK(fdprobe() == fd, "a file was left open"); f.clean(); return; } s.label("empty or missing"); }
    pbt::spew(name, txt); Calibration* g = read_calibration(cs(f.ori), cs(f.add), cs(f.fb)); if (must) PBT_CHECK(!g, "a malformed %s file gives a calibration", wn[which]); free(g);
  } else {
    bool which = s.b(), full = s.b(); std::string& name = which ? f.add : f.ori; f.clean(); if (full) PBT_CHECK(symlink("/dev/full", cs(name)) == 0, "machinery: symlink"); else mkdir(cs(name), 0700); s.note("%s file %s", which ? "distortion" : "orientation", full ? "on a full device" : "is a directory"); s.label(full ? "disk full" : "unwritable"); int r = write_calibration(&c, cs(f.ori), cs(f.add)); f.clean(); PBT_CHECK(!r, "a file that could not be written is reported as written");
  }
  PBT_CHECK(fdprobe() == fd, "a file was left open"); f.clean();
}
