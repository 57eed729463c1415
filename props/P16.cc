// P16: parameter files are read exactly or rejected.
extern "C" {
#include "orientation.h"
#include "sortgrid.h"
}
#include <functional>
#include "files.h"

// a parameter file as a list of values; each value knows what it should be read as
struct Val { char kind; std::string text; long i; double d; };           // kind: i integer, d number, s name
struct Doc { std::vector<Val> v; Src& s; Doc(Src& s) : s(s) {}
  int I(long lo, long hi) { long k; switch (s.draw(5)) { case 0: k = lo; break; case 1: k = hi; break; default: k = lo < 0 ? s.i0(lo, hi) : s.i(lo, hi); } char b[40]; snprintf(b, 40, s.chance(1, 12) ? "%+ld" : s.chance(1, 12) ? "%05ld" : "%ld", k); v.push_back({'i', b, k, 0}); return (int)k; }
  double D(double m) { double x; switch (s.draw(4)) { case 0: x = 0; break; case 1: x = (double)s.i0(-(long)m - 1, (long)m + 1); break; default: x = s.r0(-m, m); } char b[400]; snprintf(b, 400, s.one({"%.17g", "%g", "%.3f", "%.6e", "%.1f", "%f", "%+.4f"}), x); x = strtod(b, 0); v.push_back({'d', b, 0, x}); return x; }
  std::string S(int maxlen) { int n = s.chance(1, 8) ? maxlen : (int)s.i(1, std::min(maxlen, 30)); std::string t; static const char al[] = "abcXYZ0129_-./%#,:+~(){}'\"\\&nsd"; for (int k = 0; k < n; k++) t += al[s.draw(sizeof al - 2)]; v.push_back({'s', t, 0, 0}); return t; }
  // text in one of several layouts: one value per line is the norm, some with other white space
  std::string text(int per_line = 0) { std::string t; int st = (int)s.draw(5); for (size_t k = 0; k < v.size(); k++) { if (st == 1 && s.b()) t += "  "; t += v[k].text; bool last = k + 1 == v.size(); if (last && st == 2) break; if (per_line && (k + 1) % per_line) { t += ' '; continue; } t += st == 3 ? "\r\n" : st == 4 && s.b() ? "\n\n" : st == 5 && s.b() ? " \t" : st == 1 ? "  \n" : "\n"; } s.label(st == 0 ? "layout:plain" : st == 2 ? "layout:no final newline" : st == 3 ? "layout:crlf" : "layout:other"); return t; }
  // a text that lacks a needed value: ends before value k or has no number there
  std::string broken() { size_t k = s.draw(v.size() - 1); std::string t; bool cut = s.b(); int tail = (int)s.draw(2); if (!cut) { std::vector<size_t> num; for (size_t j = 0; j < v.size(); j++) if (v[j].kind != 's') num.push_back(j); if (num.empty()) cut = true; else k = num[s.draw(num.size() - 1)]; }
    for (size_t j = 0; j < v.size(); j++) { if (j == k) { if (cut) break; t += s.one({"x", "nil", "-", "#", "..", "a1", ",", "e5"}); } else t += v[j].text; t += "\n"; } if (cut && tail == 1) t += "\n \n"; if (cut && tail == 2 && t.size()) t.pop_back(); s.note("%s value %zu of %zu;", cut ? "ends before" : "no number for", k, v.size()); s.label(cut ? "truncated" : "bad value"); return t; }
};
static std::string fname(Src& s) { return gen_base(s, "par"); }
static char* cs(const std::string& a) { return (char*)a.c_str(); }
static void dump(Src& s, const std::string& t) { std::string u = t.substr(0, 700); for (auto& c : u) if (c == '\n') c = '|'; s.note(" %s", u.c_str()); }
// Runs one reader on a good file (checked by `good`) or on a broken/missing one (must give a failure result)
static void run(Src& s, Doc& d, std::function<void(char*)> good, std::function<void(char*)> bad, int per_line = 0) {
  Locale L(s); std::string f = fname(s); int fd = fdprobe(); int kind = (int)s.draw(5); 
  if (kind == 5) { unlink(cs(f)); s.note("missing file"); s.label("missing"); bad(cs(f)); }
  else if (kind == 4 || kind == 3) { if (d.v.empty()) s.discard(); std::string t = d.broken(); dump(s, t); pbt::spew(f, t); s.nontrivial(); bad(cs(f)); }
  else { std::string t = d.text(per_line); dump(s, t); pbt::spew(f, t); s.nontrivial(); s.label("well-formed"); good(cs(f)); PBT_CHECK(pbt::slurp(f) == t, "reading changed the file"); }
  unlink(cs(f)); PBT_CHECK(fdprobe() == fd, "a file was left open");
}
#define SAMEI(a, b) PBT_CHECK((a) == (b), "%s is %ld, in the file %ld", #a, (long)(a), (long)(b))
#define SAMED(a, b) PBT_CHECK((a) == (b), "%s is %.17g, in the file %.17g", #a, (double)(a), (double)(b))
#define SAMES(a, b) PBT_CHECK(!strcmp((a), (b).c_str()), "%s is '%s', in the file '%s'", #a, (a), (b).c_str())

PBT_SUB(sequence, 30000, 700000) {
  Doc d(s); int cams = (int)s.i(0, 5); std::vector<std::string> n; for (int k = 0; k < cams; k++) n.push_back(d.S(SEQ_FNAME_MAX_LEN - 1)); int first = d.I(-100, 1000000), last = d.I(-100, 2000000000); s.note("%d cameras;", cams);
  run(s, d, [&](char* f) { sequence_par* q = read_sequence_par(f, cams); PBT_CHECK(q, "a well-formed file is rejected"); SAMEI(q->num_cams, cams); for (int k = 0; k < cams; k++) SAMES(q->img_base_name[k], n[k]); SAMEI(q->first, first); SAMEI(q->last, last); free_sequence_par(q); }, [&](char* f) { sequence_par* q = read_sequence_par(f, cams); PBT_CHECK(!q, "a bad file gives parameters"); });
}
PBT_SUB(track, 30000, 700000) {
  Doc d(s); double v[8]; for (double& x : v) x = d.D(400); int add = d.I(0, 1);
  run(s, d, [&](char* f) { track_par* q = read_track_par(f); PBT_CHECK(q, "a well-formed file is rejected"); SAMED(q->dvxmin, v[0]); SAMED(q->dvxmax, v[1]); SAMED(q->dvymin, v[2]); SAMED(q->dvymax, v[3]); SAMED(q->dvzmin, v[4]); SAMED(q->dvzmax, v[5]); SAMED(q->dangle, v[6]); SAMED(q->dacc, v[7]); SAMEI(q->add, add); PBT_CHECK(!q->dsumg && !q->dn && !q->dnx && !q->dny, "values that are not in the file are not zero"); free(q); }, [&](char* f) { PBT_CHECK(!read_track_par(f), "a bad file gives parameters"); });
}
PBT_SUB(volume, 30000, 700000) {
  Doc d(s); double v[12]; for (double& x : v) x = d.D(100);
  run(s, d, [&](char* f) { volume_par* q = read_volume_par(f); PBT_CHECK(q, "a well-formed file is rejected"); double g[12] = {q->X_lay[0], q->Zmin_lay[0], q->Zmax_lay[0], q->X_lay[1], q->Zmin_lay[1], q->Zmax_lay[1], q->cnx, q->cny, q->cn, q->csumg, q->corrmin, q->eps0}; for (int k = 0; k < 12; k++) PBT_CHECK(g[k] == v[k], "value %d is %.17g, in the file %.17g", k, g[k], v[k]); free(q); }, [&](char* f) { PBT_CHECK(!read_volume_par(f), "a bad file gives parameters"); });
}
PBT_SUB(control, 30000, 700000) {
  Doc d(s); int cams = d.I(0, 5); std::vector<std::string> im, ca; for (int k = 0; k < cams; k++) { im.push_back(d.S(SEQ_FNAME_MAX_LEN - 1)); ca.push_back(d.S(SEQ_FNAME_MAX_LEN - 1)); } int hp = d.I(0, 1), all = d.I(0, 1), tiff = d.I(0, 1), imx = d.I(1, 4096), imy = d.I(1, 4096); double px = d.D(.1), py = d.D(.1); int ch = d.I(0, 2); double n1 = d.D(2), n2 = d.D(2), n3 = d.D(2), dd = d.D(20);
  run(s, d, [&](char* f) { control_par* q = read_control_par(f); PBT_CHECK(q, "a well-formed file is rejected"); SAMEI(q->num_cams, cams); for (int k = 0; k < cams; k++) { SAMES(q->img_base_name[k], im[k]); SAMES(q->cal_img_base_name[k], ca[k]); } SAMEI(q->hp_flag, hp); SAMEI(q->allCam_flag, all); SAMEI(q->tiff_flag, tiff); SAMEI(q->imx, imx); SAMEI(q->imy, imy); SAMED(q->pix_x, px); SAMED(q->pix_y, py); SAMEI(q->chfield, ch); SAMED(q->mm->n1, n1); SAMED(q->mm->n2[0], n2); SAMED(q->mm->n3, n3); SAMED(q->mm->d[0], dd); SAMEI(q->mm->nlay, 1); free_control_par(q); }, [&](char* f) { PBT_CHECK(!read_control_par(f), "a bad file gives parameters"); });
}
PBT_SUB(recognition, 30000, 700000) {
  Doc d(s); int v[13]; for (int& x : v) x = d.I(-10, 100000);
  auto cmp = [&](target_par* q) { int g[13] = {q->gvthres[0], q->gvthres[1], q->gvthres[2], q->gvthres[3], q->discont, q->nnmin, q->nnmax, q->nxmin, q->nxmax, q->nymin, q->nymax, q->sumg_min, q->cr_sz}; for (int k = 0; k < 13; k++) PBT_CHECK(g[k] == v[k], "value %d is %d, in the file %d", k, g[k], v[k]); };
  run(s, d, [&](char* f) { target_par* q = read_target_par(f); PBT_CHECK(q, "a well-formed file is rejected"); cmp(q); std::string o = pbt::scratch() + "/out.par"; unlink(cs(o)); target_par was = *q; write_target_par(q, cs(o)); PBT_CHECK(!memcmp(&was, q, sizeof was), "writing changed the parameters"); free(q); auto t = tokens(pbt::slurp(o)); PBT_CHECK(t.size() == 13, "%zu values written", t.size()); q = read_target_par(cs(o)); PBT_CHECK(q, "written parameters are rejected"); cmp(q); std::string bad = pbt::scratch() + "/none/out.par"; write_target_par(q, cs(bad)); free(q); unlink(cs(o)); }, [&](char* f) { PBT_CHECK(!read_target_par(f), "a bad file gives parameters"); });
}
PBT_SUB(flags, 30000, 700000) {
  Doc d(s); int v[12]; for (int& x : v) x = d.I(0, 2);
  run(s, d, [&](char* f) { orient_par* q = read_orient_par(f); PBT_CHECK(q, "a well-formed file is rejected"); unsigned g[12] = {q->useflag, q->ccflag, q->xhflag, q->yhflag, q->k1flag, q->k2flag, q->k3flag, q->p1flag, q->p2flag, q->scxflag, q->sheflag, q->interfflag}; for (int k = 0; k < 12; k++) PBT_CHECK(g[k] == (unsigned)v[k], "flag %d is %u, in the file %d", k, g[k], v[k]); free(q); }, [&](char* f) { PBT_CHECK(!read_orient_par(f), "a bad file gives parameters"); });
}
PBT_SUB(sortgrid_radius, 15000, 300000) {
  Doc d(s); int v = d.I(0, 1000); run(s, d, [&](char* f) { int q = read_sortgrid_par(f); SAMEI(q, v); }, [&](char* f) { int q = read_sortgrid_par(f); PBT_CHECK(q == 0, "a bad file gives radius %d", q); });
}
static std::vector<V3> gen_block(Doc& d, int n) { std::vector<V3> p; for (int k = 0; k < n; k++) { d.I(0, 5000); double x = d.D(100), y = d.D(100), z = d.D(100); p.push_back(v3(x, y, z)); } return p; }
PBT_SUB(block, 30000, 700000) {
  Doc d(s); int n = s.chance(1, 30) ? (int)s.i(100, 400) : (int)s.i(1, 12); auto p = gen_block(d, n);
  run(s, d, [&](char* f) { int k = -1; vec3d* q = read_calblock(&k, f); PBT_CHECK(q, "a well-formed file is rejected"); SAMEI(k, n); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) PBT_CHECK(q[i][j] == p[i][j], "point %d coordinate %d is %.17g, in the file %.17g", i, j, q[i][j], p[i][j]); free(q); },
      [&](char* f) { int k = -1; vec3d* q = read_calblock(&k, f); // a file that ends after a whole point is a shorter block
        size_t have = tokens(pbt::slurp(f)).size(); bool nums = true; for (auto& t : tokens(pbt::slurp(f))) nums &= is_num(t); if (nums && have && have % 4 == 0) { PBT_CHECK(q && k == (int)have / 4, "%d points of %zu values", k, have); free(q); return; }
        PBT_CHECK(!q && k == 0, "a bad file gives %d points", k); }, 4);
}
PBT_SUB(manual_orientation, 30000, 700000) {
  Doc d(s); int cams = (int)s.i(1, 4), cam = (int)s.i(0, cams - 1), n = s.chance(1, 8) ? (int)s.i(1, 3) : (int)s.i(4, 20); std::vector<std::array<int, 4>> nr(cams); for (auto& a : nr) for (int& x : a) x = d.I(1, n + (s.chance(1, 6) ? 3 : 0)); d.v.resize((cam + 1) * 4);    // what is needed for this camera; more lines may follow
  Doc b(s); auto p = gen_block(b, n); std::string bf = pbt::scratch() + "/block.txt"; bool bad_block = s.chance(1, 6); std::string bt = bad_block ? (s.b() ? "" : "x 1 2 3\n") : b.text(4); pbt::spew(bf, bt); if (bad_block && s.b()) unlink(cs(bf)); s.note("camera %d, %d points%s;", cam, n, bad_block ? ", bad block file" : ""); if (bad_block) s.label("bad block"); if (n < 4) s.label("too few points");
  vec3d fix[4]; memset(fix, 0x5a, sizeof fix); vec3d was[4]; memcpy(was, fix, sizeof fix); auto a = nr[cam]; bool distinct = std::set<int>(a.begin(), a.end()).size() == 4;
  run(s, d, [&](char* f) { int r = read_man_ori_fix(fix, cs(bf), f, cam); if (bad_block || n < 4) { PBT_CHECK(r == 0, "%d points matched from a bad or too short block", r); return; } int in = 0; for (int x : a) in += x <= n; if (distinct) { SAMEI(r, in); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) { double e = a[i] <= n ? p[a[i] - 1][j] : was[i][j]; PBT_CHECK(!memcmp(&fix[i][j], &e, sizeof e), "point %d (number %d) coordinate %d is %.17g, in the block %.17g", i, a[i], j, fix[i][j], e); } s.label("four points"); } else PBT_CHECK(r < 4, "%d points matched with repeated numbers", r); },
      [&](char* f) { int r = read_man_ori_fix(fix, cs(bf), f, cam); PBT_CHECK(r == 0, "a bad file gives %d points", r); }, 4);
  unlink(cs(bf));
}
// names longer than the parameter structures can hold are rejected, not cut, mixed up or written over other memory
PBT_SUB(long_names, 20000, 400000) {
  Doc d(s); bool control = s.b(); int cams = (int)s.i(1, 4); if (control) { char b[10]; snprintf(b, 10, "%d", cams); d.v.push_back({'i', b, cams, 0}); } int names = control ? 2 * cams : cams, which = (int)s.i(0, names - 1); for (int k = 0; k < names; k++) { d.S(30); if (k == which) { size_t n = s.i(SEQ_FNAME_MAX_LEN, 700); std::string& t = d.v.back().text; while (t.size() < n) t += (char)('0' + t.size() % 10); s.note("name %d has %zu characters", k, n); } } if (control) for (int k = 0; k < 12; k++) d.I(1, 9); else { d.I(1, 9); d.I(10, 99); } s.nontrivial();
  std::string f = fname(s), t = d.text(); pbt::spew(f, t); int fd = fdprobe(); if (control) { control_par* q = read_control_par(cs(f)); PBT_CHECK(!q, "an overlong name is accepted"); } else { sequence_par* q = read_sequence_par(cs(f), cams); PBT_CHECK(!q, "an overlong name is accepted"); } PBT_CHECK(fdprobe() == fd, "a file was left open"); unlink(cs(f));
}
