// The operations of the library on generated arguments, successful and failing, for the properties that hold of every operation (P29, P30).
// A generator makes the arguments, hands the operation to its user, and clears up.  The operation may be run any number of times; it returns
// all it computed as text of bytes.
#pragma once
#include <filesystem>
#include "fuzz.h"
#include "tracking.h"
extern "C" {
#include "segmentation.h"
#include "correspondences.h"
#include "epi.h"
}
static void rm(const std::string& n) { unlink(cs(n)); }
struct Out { std::string s; Out& raw(const void* p, size_t n) { s.append((const char*)p, n); return *this; } Out& operator<<(double v) { return raw(&v, 8); } Out& operator<<(int v) { return raw(&v, 4); } Out& operator<<(unsigned v) { return raw(&v, 4); } Out& operator<<(const std::string& t) { s += t; s += '\1'; return *this; }
  Out& operator<<(const target& t) { return *this << t.pnr << t.x << t.y << t.n << t.nx << t.ny << t.sumg << t.tnr; } Out& vec(const double* v, int n) { return raw(v, n * 8); } Out& file(const std::string& n) { return *this << (access(n.c_str(), R_OK) ? std::string("-") : pbt::slurp(n)); }
  Out& operator<<(const Calibration& c) { const Exterior& e = c.ext_par; *this << e.x0 << e.y0 << e.z0 << e.omega << e.phi << e.kappa; vec(&e.dm[0][0], 9); *this << c.int_par.xh << c.int_par.yh << c.int_par.cc << c.glass_par.vec_x << c.glass_par.vec_y << c.glass_par.vec_z; const ap_52& a = c.added_par; return *this << a.k1 << a.k2 << a.k3 << a.p1 << a.p2 << a.scx << a.she; }
  Out& operator<<(const Part& q) { vec(q.x, 3); *this << q.prev << q.next << q.prio << q.nr; return raw(q.p, sizeof q.p); } };
// what is in the places for results before the call (P30 changes it)
static unsigned char dirt = 0; template <class T> static void soil(T& x) { memset(&x, dirt, sizeof x); } static double soiled() { double v; soil(v); return v; }
typedef std::function<void(const char*, std::function<std::string()>)> Use;
// the arguments of the running operation that another call could find changed in place
struct Vary { Vary* outer; static Vary*& now() { static Vary* v = nullptr; return v; } struct Place { void* p; size_t n; std::function<void(Src&)> change; }; std::vector<Place> at;
  Vary() : outer(now()) { now() = this; } ~Vary() { now() = outer; }
  void num(double* v, int n, double rel) { if (n > 0) at.push_back({v, n * sizeof(double), [=](Src& s) { for (int k = 0; k < n; k++) v[k] += rel * (fabs(v[k]) + 1e-3) * s.r0(-1, 1); }}); }
  void cal(Calibration* c) { at.push_back({c, offsetof(Calibration, mmlut), [=](Src& s) { double* d[] = {&c->ext_par.x0, &c->ext_par.y0, &c->ext_par.z0, &c->ext_par.omega, &c->ext_par.phi, &c->ext_par.kappa, &c->int_par.xh, &c->int_par.yh, &c->int_par.cc, &c->glass_par.vec_x, &c->glass_par.vec_y, &c->glass_par.vec_z, &c->added_par.k1, &c->added_par.k2, &c->added_par.k3, &c->added_par.p1, &c->added_par.p2, &c->added_par.scx, &c->added_par.she}; int part = (int)s.draw(4), k = 0; for (double* v : d) { if (part == 0 || part == (k < 6 ? 1 : k < 9 ? 2 : k < 12 ? 3 : 4)) *v += .01 * (fabs(*v) + 1e-3) * s.r0(-1, 1); k++; } rotation_matrix(&c->ext_par); }}); }
  void rig(Rig& r) { for (auto& c : r.cal) cal(&c); num(&r.cp.mm.n1, 1, .01); num(r.cp.mm.n2, r.cp.mm.nlay, .01); num(r.cp.mm.d, r.cp.mm.nlay, .1); num(&r.cp.mm.n3, 1, .01); num(&r.cp.c.pix_x, 1, .01); num(&r.cp.c.pix_y, 1, .01); num(r.vp.X_lay, 2, .01); num(r.vp.Zmin_lay, 2, .01); num(r.vp.Zmax_lay, 2, .01); num(&r.vp.eps0, 1, .1); }
  void img(unsigned char* p, size_t n) { at.push_back({p, n, [=](Src& s) { for (int k = 0, m = (int)s.i(1, 20); k < m; k++) p[s.draw(n - 1)] ^= (unsigned char)s.i(1, 255); }}); } };

// ---- files --------------------------------------------------------------------------------------------------------------
static void op_read(Src& s, Use use) {
  std::string n = workdir() + "/file", n2 = workdir() + "/second", t, t2; int kind = (int)s.draw(9), cams = (int)s.i(0, 5); bool gone = s.chance(1, 12), again = s.b();
  switch (kind) { case 0: t = text(s, std::string(cams, 's') + "ii", 1); break; case 1: t = text(s, D(8) + "i", 1); break; case 2: t = text(s, D(12), 1); break; case 3: t = std::to_string(cams) + "\n" + text(s, std::string(2 * cams, 's') + "iiiiiddidddd", 1); break; case 4: t = text(s, I(13), 1); break; case 5: t = text(s, I(12), 1); break;
    case 6: t = text(s, "i", 1); break; case 7: for (int k = 0, m = (int)s.i(0, 12); k < m; k++) t += text(s, "iddd", 4); break; case 8: t = text(s, D(21), 3); t2 = text(s, D(7), 7); break; default: for (int k = 0; k < cams; k++) t += text(s, "iiii", 4); for (int k = 0, m = (int)s.i(0, 12); k < m; k++) t2 += text(s, "iddd", 4); }
  if (again) t = mutate(s, t); if (s.chance(1, 3)) t2 = mutate(s, t2); s.nontrivial(); note(s, t); if (!t2.empty()) note(s, t2); if (!gone) pbt::spew(n, t); else { rm(n); s.label("missing file"); } if (s.chance(1, 8)) rm(n2); else pbt::spew(n2, t2);
  int good = 0; const char* what = ""; bool add = !s.chance(1, 6);
  use("reading a file", [&] { good = 0; Out o; switch (kind) {
    case 0: { auto q = read_sequence_par(cs(n), cams); what = "sequence"; if (q) { good = 1; o << q->first << q->last << q->num_cams; for (int c = 0; c < cams; c++) o << std::string(q->img_base_name[c]); free_sequence_par(q); } break; }
    case 1: { auto q = read_track_par(cs(n)); what = "tracking"; if (q) { good = 1; o << q->dvxmin << q->dvxmax << q->dvymin << q->dvymax << q->dvzmin << q->dvzmax << q->dangle << q->dacc << q->add << q->dsumg << q->dn << q->dnx << q->dny; free(q); } break; }
    case 2: { auto q = read_volume_par(cs(n)); what = "volume"; if (q) { good = 1; o.vec(q->X_lay, 2).vec(q->Zmin_lay, 2).vec(q->Zmax_lay, 2) << q->cn << q->cnx << q->cny << q->csumg << q->eps0 << q->corrmin; free(q); } break; }
    case 3: { auto q = read_control_par(cs(n)); what = "control"; if (q) { good = 1; o << q->num_cams; for (int c = 0; c < q->num_cams; c++) o << std::string(q->img_base_name[c]) << std::string(q->cal_img_base_name[c]); o << q->hp_flag << q->allCam_flag << q->tiff_flag << q->imx << q->imy << q->pix_x << q->pix_y << q->chfield << q->mm->nlay << q->mm->n1 << q->mm->n2[0] << q->mm->n3 << q->mm->d[0]; free_control_par(q); } break; }
    case 4: { auto q = read_target_par(cs(n)); what = "recognition"; if (q) { good = 1; o.raw(q->gvthres, sizeof q->gvthres) << q->discont << q->nnmin << q->nnmax << q->nxmin << q->nxmax << q->nymin << q->nymax << q->sumg_min << q->cr_sz; free(q); } break; }
    case 5: { auto q = read_orient_par(cs(n)); what = "orientation"; if (q) { good = 1; o << q->useflag << q->ccflag << q->xhflag << q->yhflag << q->k1flag << q->k2flag << q->k3flag << q->p1flag << q->p2flag << q->scxflag << q->sheflag << q->interfflag; free(q); } break; }
    case 6: { int r = read_sortgrid_par(cs(n)); o << r; good = r > 0; what = "radius"; break; }
    case 7: { int k = -5; auto q = read_calblock(&k, cs(n)); what = "block"; o << k; if (q) { good = 1; o.vec(&q[0][0], 3 * k); free(q); } break; }
    case 8: { auto q = read_calibration(cs(n), add ? cs(n2) : nullptr, nullptr); what = "calibration"; if (q) { good = 1; o << *q; free(q); } break; }
    default: { vec3d fix[4]; memset(fix, 0, sizeof fix); int r = read_man_ori_fix(fix, cs(n2), cs(n), cams / 2); good = r > 0; o << r; o.vec(&fix[0][0], 12); what = "manual orientation"; } } o << good; return o.s; });
  s.label(std::string(what) + (good ? " read" : " not read")); rm(n); rm(n2); }
static void op_write(Src& s, Use use) {
  std::string d = workdir() + (s.chance(1, 3) ? "/no/such/" : "/"), a = d + "a", b = s.chance(1, 4) ? workdir() + "/no/such/b" : d + "b", c = d + "c"; s.nontrivial(); s.note("%s, %s", a.c_str(), b.c_str()); int kind = (int)s.draw(3), n = (int)s.i(0, 6), frame = (int)s.i(1, 300);
  std::vector<target> t; for (int k = 0; k < n; k++) t.push_back(gen_target(s)); std::vector<P> p(n + 1); std::vector<corres> co(n + 1); for (int k = 0; k < n; k++) put(gen_part(s, k), p[k], co[k], s); Calibration cal; memset(&cal, 0, sizeof cal); double* cv[] = {&cal.ext_par.x0, &cal.ext_par.omega, &cal.ext_par.dm[1][1], &cal.int_par.cc, &cal.glass_par.vec_z, &cal.added_par.k1, &cal.added_par.scx}; for (double* v : cv) *v = s.r0(-50, 50); target_par tp; memset(&tp, 0, sizeof tp); tp.discont = (int)s.i(0, 99); tp.cr_sz = 3; bool l = s.b(), q = s.b(), fine = d.find("/no/") == std::string::npos;
  int ok = 0; std::vector<std::string> out = {a, b, c}; for (auto& x : {a, b, c}) { out.push_back(frame_name(x, frame)); out.push_back(targets_name(x, frame)); }
  use(kind == 0 ? "writing a calibration" : kind == 1 ? "writing targets" : kind == 2 ? "writing particles" : "writing recognition parameters", [&] { if (kind == 0) ok = write_calibration(&cal, cs(a), cs(b)); else if (kind == 1) ok = write_targets(t.data(), n, cs(a), frame); else if (kind == 2) ok = write_path_frame(co.data(), p.data(), n, cs(a), l ? cs(b) : cs(c), q ? cs(c) : nullptr, frame); else if (fine) { write_target_par(&tp, cs(a)); ok = 1; } Out o; o << ok; if (ok) for (auto& x : out) o.file(x); return o.s; });
  s.label(ok ? "written" : "not written"); for (auto& x : out) rm(x); }

// ---- frames and frame buffers -------------------------------------------------------------------------------------------
static void add_frame(Out& o, const frame& f) { o << f.num_parts; for (int k = 0; k < f.num_parts; k++) o << get(f.path_info[k], f.correspond[k]); for (int c = 0; c < f.num_cams; c++) { o << f.num_targets[c]; for (int k = 0; k < f.num_targets[c]; k++) o << f.targets[c][k]; } }
static void op_frame(Src& s, Use use) {
  int m = (int)s.i(0, 6); Triple t(s, m, s.chance(1, 3)); int cams = (int)s.i(1, 4), cap = s.chance(1, 6) ? (int)s.i(1, 8) : m + (int)s.i(1, 4); std::vector<std::string> tb; std::vector<char*> tp; s.nontrivial();
  for (int c = 0; c < cams; c++) { tb.push_back(workdir() + "/cam" + std::to_string(c) + "."); std::string x = count_text(s, (int)s.i(0, cap), "iddiiiii"); if (s.chance(1, 10)) x = mutate(s, x); if (s.chance(1, 16)) rm(targets_name(tb[c], t.frame)); else pbt::spew(targets_name(tb[c], t.frame), x); } for (auto& b : tb) tp.push_back(cs(b));
  if (s.chance(1, 6)) rm(t.names[s.draw(2)]); int ok = 0; std::string o = workdir() + (s.chance(1, 5) ? "/no/such/" : "/out"); std::string o2 = o + "ptv", o3 = o + "add", ot = o + "t"; std::vector<char*> op(cams, cs(ot)); bool q = s.b();
  use("a frame that is read and written", [&] { frame f; Out r; frame_init(&f, cams, cap); ok = read_frame(&f, cs(t.cb), t.L(), t.Q(), tp.data(), t.frame); if (ok) { add_frame(r, f); ok += write_frame(&f, cs(o), cs(o2), q ? cs(o3) : nullptr, op.data(), t.frame); } free_frame(&f); r << ok; if (ok == 2) r.file(frame_name(o, t.frame)).file(frame_name(o2, t.frame)).file(targets_name(ot, t.frame)); return r.s; });
  s.label(ok == 2 ? "frame read and written" : ok ? "frame read" : "frame not read"); for (auto& b : tb) rm(targets_name(b, t.frame)); for (auto& x : {o, o2, o3}) rm(frame_name(x, t.frame)); rm(targets_name(ot, t.frame)); }
static void op_buffer(Src& s, Use use) {
  std::string d = workdir() + "/", rt = d + "rt", ptv = d + "ptv", add = d + "add"; int len = (int)s.i(1, 6), cams = (int)s.i(0, 4), cap = (int)s.i(0, 12), nf = (int)s.i(0, 5); std::vector<std::string> tb; std::vector<char*> tp; for (int c = 0; c < cams; c++) tb.push_back(d + "cam" + std::to_string(c) + "."); for (auto& b : tb) tp.push_back(cs(b));
  for (int k = 1; k <= nf; k++) { int n = (int)s.i(0, cap); pbt::spew(frame_name(rt, k), count_text(s, n, "idddiiii")); if (s.b()) pbt::spew(frame_name(ptv, k), count_text(s, n, "iiddd")); for (auto& b : tb) if (!s.chance(1, 6)) pbt::spew(targets_name(b, k), count_text(s, (int)s.i(0, cap), "iddiiiii")); }
  bool prio = s.b(); std::vector<std::pair<int, int>> ops; for (int k = 0, m = (int)s.i(0, 14); k < m; k++) ops.push_back({(int)s.draw(3), (int)s.i(1, nf + 1)}); s.nontrivial(); std::string o; for (auto& p : ops) o += "npRW"[p.first] + std::to_string(p.second) + " "; s.note("%d frames in the ring, %d cameras, place for %d: %s", len, cams, cap, o.c_str()); int got = 0;
  use("a frame buffer", [&] { Out r; framebuf fb; fb_init(&fb, len, cams, cap, cs(rt), cs(ptv), prio ? cs(add) : nullptr, tp.data()); framebuf_base* b = &fb.base; bool good = true; for (auto& p : ops) switch (p.first) { case 0: fb_next(b); break; case 1: fb_prev(b); break; case 2: { int q = fb_read_frame_at_end(b, p.second, p.second & 1); got += q; r << q; if (q) add_frame(r, *b->buf[b->buf_len - 1]); else good = false; break; } default: if (good) { int q = fb_write_frame_from_start(b, 100 + p.second); got += q; r << q; if (q) r.file(frame_name(rt, 100 + p.second)).file(frame_name(ptv, 100 + p.second)); } } fb_free(b); return r.s; });
  s.label(got ? "buffer with files" : "buffer without files"); for (int k = 1; k <= 100 + nf + 1; k = k == nf + 1 ? 101 : k + 1) { for (auto& x : {rt, ptv, add}) rm(frame_name(x, k)); for (auto& b : tb) rm(targets_name(b, k)); } }

// ---- tracking --------------------------------------------------------------------------------------------------------------
static void add_store(Out& r, const Store& st) { for (auto& f : st) { r << f.first << f.second.count; for (auto& q : f.second.parts) { r.vec(q.x.data(), 3) << q.prev << q.next; r.raw(q.p, sizeof q.p); } for (auto& t : f.second.targ) for (auto& x : t) r << x; } }
static void op_track(Src& s, Use use) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); bool back = s.b(); s.nontrivial(); int links = 0;
  Vary vary; vary.rig(S.r); use(back ? "tracking there and back" : "tracking forward", [&] { Out r; Store st = S.st; { Runner R(S, st); R.forward(); r << R.tr->npart << R.tr->nlinks; } if (back) { Runner R(S, st); r << R.backward(); } links = count_links(st); add_store(r, st); return r.s; });
  s.label(links ? "links" : "no links"); }
// a run as a program makes it: parameters from files, tr_new or tr_new_legacy, tr_free
static void op_run(Src& s, Use use) {
  Scene S((int)s.i(1, 4)); gen_dense(s, S); int nc = S.r.n(); std::string d = workdir() + "/", t = std::to_string(nc) + "\n", q; std::vector<std::string> files; for (int c = 0; c < nc; c++) { t += d + "cam" + std::to_string(c) + "\n" + d + "cal\n"; q += d + "cam" + std::to_string(c) + ".\n"; } const control_par& c = S.r.cp.c; char b[600];
  if (d.size() > 150) s.discard(); auto put_file = [&](const std::string& n, const std::string& x) { pbt::spew(n, x); files.push_back(n); };
  snprintf(b, 600, "0\n0\n1\n%d\n%d\n%.6f\n%.6f\n%d\n%.6f\n%.6f\n%.6f\n%.6f\n", c.imx, c.imy, c.pix_x, c.pix_y, c.chfield, c.mm->n1, c.mm->n2[0], c.mm->n3, c.mm->d[0]); put_file(d + "ptv.par", t + b); snprintf(b, 600, "%d\n%d\n", S.sp.first, S.sp.last); put_file(d + "sequence.par", q + b); const track_par& k = S.tp; snprintf(b, 600, "%f\n%f\n%f\n%f\n%f\n%f\n%f\n%f\n%d\n", k.dvxmin, k.dvxmax, k.dvymin, k.dvymax, k.dvzmin, k.dvzmax, k.dangle, k.dacc, k.add); put_file(d + "track.par", b);
  const volume_par& v = S.r.vp; snprintf(b, 600, "%f\n%f\n%f\n%f\n%f\n%f\n0\n0\n0\n0\n0\n1\n", v.X_lay[0], v.Zmin_lay[0], v.Zmax_lay[0], v.X_lay[1], v.Zmin_lay[1], v.Zmax_lay[1]); put_file(d + "criteria.par", b); s.nontrivial(); bool legacy = s.chance(1, 10), ran = false; std::string rt = d + "rt", ptv = d + "ptv", add = d + "add";
  if (!legacy) for (auto& f : S.st) { if (f.second.missing) continue; std::ostringstream o; o << f.second.parts.size() << "\n"; int i = 0; for (auto& p : f.second.parts) { snprintf(b, 600, "%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", ++i, p.x[0], p.x[1], p.x[2], p.p[0], p.p[1], p.p[2], p.p[3]); o << b; } put_file(frame_name(rt, f.first), o.str()); for (int a = 0; a < nc; a++) { std::ostringstream u; u << f.second.targ[a].size() << "\n"; for (auto& z : f.second.targ[a]) { snprintf(b, 600, "%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", z.pnr, z.x, z.y, z.n, z.nx, z.ny, z.sumg, z.tnr); u << b; } put_file(targets_name(d + "cam" + std::to_string(a) + ".", f.first), u.str()); } }
  std::string sn = d + "sequence.par", tn = d + "track.par", vn = d + "criteria.par", cn = d + "ptv.par"; std::map<std::string, std::string> orig; for (auto& f : files) orig[f] = pbt::slurp(f);
  Vary vary; for (auto& q : S.r.cal) vary.cal(&q);
  use("a tracking run", [&] { Out o; tracking_run* tr; for (auto& f : orig) pbt::spew(f.first, f.second); if (legacy) tr = tr_new_legacy(cs(sn), cs(tn), cs(vn), cs(cn), S.r.cals.data()); else { auto cp = read_control_par(cs(cn)); auto sq = read_sequence_par(cs(sn), cp->num_cams); tr = tr_new(sq, read_track_par(cs(tn)), read_volume_par(cs(vn)), cp, 4, S.max_targets + 60, cs(rt), cs(ptv), cs(add), S.r.cals.data(), 1e-4); }
    if (!legacy) { track_forward_start(tr); for (int i = tr->seq_par->first; i < tr->seq_par->last; i++) trackcorr_c_loop(tr, i); trackcorr_c_finish(tr, tr->seq_par->last); ran = true; o << tr->npart << tr->nlinks; for (int i = S.sp.first; i <= S.sp.last; i++) { o.file(frame_name(rt, i)).file(frame_name(ptv, i)).file(frame_name(add, i)); for (int a = 0; a < nc; a++) o.file(targets_name(d + "cam" + std::to_string(a) + ".", i)); } }
    o << tr->lmax << tr->xmin << tr->xmax << tr->ymin << tr->ymax << tr->zmin << tr->zmax; tr_free(tr); free(tr); return o.s; });
  s.label(legacy ? "legacy run" : ran ? "tracked" : "not tracked"); for (auto& e : files) rm(e); for (int f = S.sp.first - 2; f <= S.sp.last + 2; f++) { for (auto& x : {"rt", "ptv", "add"}) rm(frame_name(d + x, f)); for (int i = 0; i < nc; i++) rm(targets_name(d + "cam" + std::to_string(i) + ".", f)); } }

// ---- matching, reconstruction, projection, tables ----------------------------------------------------------------------------
static void op_match(Src& s, Use use) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); Rig& r = S.r; int n = r.n(); const TFrame* F = nullptr; for (auto& f : S.st) if (!f.second.missing && (!F || s.b())) F = &f.second; if (!F) s.discard(); auto t = F->targ; bool one_empty = s.chance(1, 6); if (one_empty) { t[s.draw(n - 1)].clear(); s.label("a camera sees nothing"); } r.cp.c.allCam_flag = s.chance(1, 4); r.vp.eps0 = r.cp.c.pix_x * s.r(1, 30); r.vp.corrmin = s.chance(1, 4) ? s.r(0, 30) : 0; s.nontrivial();
  std::vector<std::vector<coord_2d>> crd(n); for (int c = 0; c < n; c++) { for (auto& q : t[c]) { coord_2d x; double mx, my; pixel_to_metric(&mx, &my, q.x, q.y, &r.cp.c); dist_to_flat(mx, my, r.cals[c], &x.x, &x.y, 1e-6); x.pnr = q.pnr; crd[c].push_back(x); } std::stable_sort(crd[c].begin(), crd[c].end(), [](const coord_2d& a, const coord_2d& b) { return a.x < b.x; }); }
  int counts[4]; Vary vary; vary.rig(r);
  use("matching", [&] { auto t2 = t; auto c2 = crd; std::vector<target*> tp; std::vector<coord_2d*> cp; std::vector<int> nt; for (int c = 0; c < n; c++) { tp.push_back(t2[c].data()); cp.push_back(c2[c].data()); nt.push_back((int)t[c].size()); } frame f; memset(&f, 0, sizeof f); f.num_cams = n; f.targets = tp.data(); f.num_targets = nt.data(); Out o; soil(counts); n_tupel* con = correspondences(&f, cp.data(), &r.vp, &r.cp.c, r.cals.data(), counts); o.raw(counts, sizeof counts); if (con) for (int k = 0; k < counts[3]; k++) { o.raw(con[k].p, n * sizeof(int)); o << con[k].corr; } free(con); for (auto& v : t2) for (auto& x : v) o << x; return o.s; }); s.label(counts[3] ? "matches" : "no matches");
  std::vector<int> cnt; for (auto& v : t) cnt.push_back((int)v.size()); use("tables for matching", [&] { correspond* list[4][4]; memset(list, 0, sizeof list); int** tu = safely_allocate_target_usage_marks(n); int ok = safely_allocate_adjacency_lists(list, n, cnt.data()); Out o; o << ok; if (ok) { for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int k = 0; k < cnt[a]; k++) o << list[a][b][k].n << list[a][b][k].p1; deallocate_adjacency_lists(list, n); } if (tu) { for (int c = 0; c < n; c++) o << tu[c][0] << tu[c][nmax - 1]; deallocate_target_usage_marks(tu, n); } return o.s; }); }
static void op_reconstruct(Src& s, Use use) {
  Rig r((int)s.i(1, 4)); RigSpec sp; sp.vr_lo = 8; gen_rig(s, r, sp); int n = r.n(), np = (int)s.i(2, 10) / 2 * 2; std::vector<std::vector<std::array<double, 2>>> v(np, std::vector<std::array<double, 2>>(n)); std::vector<V3> X; for (auto& p : v) { X.push_back(gen_in_ball(s, r.target, r.vr)); for (int c = 0; c < n; c++) { double a, b; if (!ref_project(X.back(), &r.cal[c], &r.cp.mm, a, b) || s.chance(1, 6)) a = b = PT_UNUSED; p[c] = {a, b}; } } s.nontrivial(); s.note("%s; %d points", show(r).c_str(), np);
  std::vector<vec2d*> tp; for (auto& p : v) tp.push_back((vec2d*)p.data()); volume_par vp = r.vp; int kind = (int)s.draw(5), c0 = (int)s.draw(n - 1), c1 = (int)s.draw(n - 1); for (auto& q : r.cal) q.mmlut.data = nullptr; Vary vary; if (kind < 5) vary.rig(r); vary.num(&vp.X_lay[0], kind < 5 ? 2 : 0, .01); vary.num(&vp.Zmin_lay[0], kind < 5 ? 2 : 0, .01); for (auto& p : v) for (auto& q : p) if (q[0] != PT_UNUSED) vary.num(q.data(), 2, .01); for (auto& p : X) vary.num(p.data(), 3, .01);
  switch (kind) {
    case 0: use("triangulation", [&] { Out o; for (int k = 0; k < np; k++) { vec3d x; soil(x); double d = point_position((vec2d*)v[k].data(), n, &r.cp.mm, r.cals.data(), x); o << d; o.vec(x, 3); } return o.s; }); break;
    case 1: use("the dumbbell measure", [&] { Out o; o << weighted_dumbbell_precision(tp.data(), np, n, &r.cp.mm, r.cals.data(), 10, 1); return o.s; }); break;
    case 2: use("the volume", [&] { double a = vp.X_lay[1], b = vp.X_lay[0], c = 0, d = 0, e = soiled(), f = soiled(); volumedimension(&a, &b, &c, &d, &e, &f, &vp, &r.cp.c, r.cals.data()); Out o; o << a << b << c << d << e << f; return o.s; }); break;
    case 3: use("projection and its inverse", [&] { Out o; for (int k = 0; k < np; k++) for (int c = 0; c < n; c++) { double x = soiled(), y = x, fx = x, fy = x, px = x, py = x, mx = x, my = x; img_coord(X[k].data(), r.cals[c], &r.cp.mm, &x, &y); flat_image_coord(X[k].data(), r.cals[c], &r.cp.mm, &fx, &fy); metric_to_pixel(&px, &py, x, y, &r.cp.c); pixel_to_metric(&mx, &my, px, py, &r.cp.c); o << x << y << fx << fy << px << py << mx << my; dist_to_flat(x, y, r.cals[c], &fx, &fy, 1e-6); o << fx << fy; flat_to_dist(fx, fy, r.cals[c], &x, &y); o << x << y; vec3d q, a; soil(q); soil(a); ray_tracing(fx - r.cals[c]->int_par.xh, fy - r.cals[c]->int_par.yh, r.cals[c], r.cp.mm, q, a); o.vec(q, 3).vec(a, 3); } return o.s; }); break;
    case 4: use("epipolar lines", [&] { Out o; for (int k = 0; k < np; k++) if (v[k][c0][0] != PT_UNUSED) { double a = soiled(), b = a, c = a, d = a; vec3d x; soil(x); epi_mm(v[k][c0][0], v[k][c0][1], r.cals[c0], r.cals[c1], &r.cp.mm, &vp, &a, &b, &c, &d); epi_mm_2D(v[k][c0][0], v[k][c0][1], r.cals[c0], &r.cp.mm, &vp, x); o << a << b << c << d; o.vec(x, 3); } return o.s; }); break;
    default: if (r.vr > 25) { s.label("table too large"); break; } s.label("table"); { int done = 0; use("the refraction table", [&] { { double a = r.target[0], b = a, c = r.target[1], d = c, e = 0, f = 0; volumedimension(&a, &b, &c, &d, &e, &f, &vp, &r.cp.c, r.cals.data()); double big = fabs(a) + fabs(b) + fabs(c) + fabs(d) + fabs(r.cal[0].ext_par.x0) + fabs(r.cal[0].ext_par.y0) + fabs(r.cal[0].ext_par.z0) + fabs(e) + fabs(f); if (!(big < 3000)) return std::string("too large"); } /* rays that graze the glass */ init_mmlut(&vp, &r.cp.c, r.cals[0]); Out o; mmlut& m = r.cal[0].mmlut; o.vec(m.origin, 3) << m.nr << m.nz << m.rw; o.vec(m.data, m.nr * m.nz); for (auto& p : X) o << get_mmf_from_mmlut(r.cals[0], p.data()); done++; return o.s; }); free(r.cal[0].mmlut.data); } } }
static void op_calibrate(Src& s, Use use) {
  Rig r(1); RigSpec sp; sp.dist = .01; sp.vr_lo = 10; gen_rig(s, r, sp); int n = s.chance(1, 4) ? (int)s.i(0, 5) : (int)s.i(6, 30); std::vector<V3> X; std::vector<target> pix; for (int k = 0; k < n; k++) { target t; memset(&t, 0, sizeof t); V3 x; double a, b; for (int i = 0;; i++) { if (i == 20) s.discard(); x = gen_in_ball(s, r.target, r.vr * .9); if (ref_pixel(r, 0, x, a, b)) break; } X.push_back(x); t.x = a; t.y = b; t.pnr = s.chance(1, 8) ? -999 : k; pix.push_back(t); }
  if (n == 0) { X.resize(1); pix.resize(1); } double D = len(campos(r.cal[0]) - r.target); bool wild = s.chance(1, 4); Calibration start = r.cal[0]; start.mmlut.data = nullptr; double am = wild ? 3 : .02; start.ext_par.x0 += s.r0(-am, am) * D; start.ext_par.y0 += s.r0(-am, am) * D; start.ext_par.kappa += s.r0(-am, am); start.ext_par.omega += s.r0(-am, am); rotation_matrix(&start.ext_par); if (wild) s.label("far off"); s.nontrivial();
  orient_par fl; memset(&fl, 0, sizeof fl); fl.useflag = s.chance(1, 4) ? s.i(1, 3) : 0; for (int* p : {&fl.ccflag, &fl.xhflag, &fl.yhflag, &fl.k1flag, &fl.k2flag, &fl.k3flag, &fl.p1flag, &fl.p2flag, &fl.scxflag, &fl.sheflag, &fl.interfflag}) *p = s.chance(1, 5); int ok = 0, eps = (int)s.i(0, 30); s.note("%s; %d points; start %s", show(r).c_str(), n, show(start).c_str());
  int which = (int)s.draw(2); Vary vary; vary.rig(r); vary.cal(&start); for (auto& p : X) vary.num(p.data(), 3, .01); for (auto& t : pix) vary.num(&t.x, 2, .01); if (which == 0) use("orientation", [&] { Out o; Calibration c = start; double sig[20]; soil(sig); double* q = orient(&c, &r.cp.c, n, (vec3d*)X.data(), pix.data(), &fl, sig); ok = q != nullptr; o << ok << c; int m = 0; o.vec(sig, 20); for (int k = 0; k < n; k++) if (pix[k].pnr == k) m++; if (q && !fl.useflag) o.vec(q, 2 * m); free(q); return o.s; }); else if (which == 1) use("raw orientation", [&] { Out o; Calibration c = start; ok = raw_orient(&c, &r.cp.c, n, (vec3d*)X.data(), pix.data()); o << ok << c; return o.s; }); else { ok = 1; use("sorting the grid", [&] { Out o; target* q = sortgrid(&start, &r.cp.c, n, (vec3d*)X.data(), n, eps, pix.data()); for (int k = 0; k < n; k++) if (q[k].pnr == k) o << k << q[k]; else o << q[k].pnr; free(q); return o.s; }); }
  s.label(std::string(which == 0 ? "orient" : which == 1 ? "raw" : "sortgrid") + (ok ? " done" : " failed")); }

// ---- images ------------------------------------------------------------------------------------------------------------------------
static void op_image(Src& s, Use use) {
  CPar cp(1); control_par& c = cp.c; c.imx = (int)s.i(3, 40); c.imy = (int)s.i(3, 40); c.chfield = s.chance(1, 5) ? (int)s.i(1, 2) : 0; size_t n = (size_t)c.imx * c.imy; Exact<unsigned char> in(n), out(n), work(n); int step = (int)s.i(1, 255); uint64_t z = s.draw(1u << 30) + 1; for (size_t k = 0; k < n; k++) { z = z * 6364136223846793005ull + 1442695040888963407ull; in[k] = (unsigned char)((z >> 40) % (step + 1)); }
  std::string fn = workdir() + "/filter.par", ft = text(s, D(9), 3); if (s.b()) ft = mutate(s, ft); if (s.chance(1, 6)) rm(fn); else pbt::spew(fn, ft); int hp = (int)s.i(0, 3), lp = (int)s.i(0, 3), span = (int)s.i(0, 3); s.nontrivial(); s.note("%dx%d, values up to %d, field %d, high pass %d, low pass %d", c.imx, c.imy, step, c.chfield, hp, lp); target_par tp; memset(&tp, 0, sizeof tp); for (int& g : tp.gvthres) g = (int)s.i(0, 200); tp.discont = (int)s.i(0, 300); tp.nnmin = (int)s.i(0, 3); tp.nnmax = 1000; tp.nxmax = tp.nymax = 100; tp.sumg_min = (int)s.i(0, 50); std::vector<target> pix(n + 10); filter_t filt; for (auto& row : filt) for (auto& v : row) v = s.r0(-1, 2);
  int ok = 0, num = 0; int kind = (int)s.draw(5); Vary vary; vary.img(in.p, n); vary.num(&filt[0][0], 9, .3); auto img = [&](Out& o, unsigned char* p) { for (int y = 1; y < c.imy - 1; y++) o.raw(p + (size_t)y * c.imx + 1, c.imx - 2); }; auto list = [&](Out& o) { o << num; for (int k = 0; k < num; k++) o << pix[k]; };
  switch (kind) {
    case 0: use("preparing an image", [&] { Out o; memcpy(work.p, in.p, n); ok = prepare_image(work.p, out.p, lp, hp, cs(fn), &c); o << ok; if (ok && !c.chfield) img(o, out.p); return o.s; }); s.label(ok ? "prepared" : "not prepared"); break;
    case 1: use("blurring", [&] { Out o; ok = fast_box_blur(span, in.p, out.p, &c); o << ok; o.raw(out.p, n); return o.s; }); break;
    case 2: use("recognition", [&] { Out o; num = targ_rec(in.p, &tp, 0, c.imx, 0, c.imy, &c, 0, pix.data()); list(o); return o.s; }); s.label(num ? "targets" : "no targets"); break;
    case 3: use("peak fitting", [&] { Out o; num = peak_fit(in.p, &tp, 0, c.imx, 0, c.imy, &c, 0, pix.data()); list(o); return o.s; }); s.label(num ? "peaks" : "no peaks"); break;
    case 4: use("filtering", [&] { Out o; ok = filter_3(in.p, out.p, filt, &c); o << ok; if (ok) img(o, out.p); lowpass_3(in.p, out.p, &c); img(o, out.p); return o.s; }); break;
    default: use("splitting and subtracting", [&] { Out o; memcpy(work.p, in.p, n); if (c.imy % 2 == 0) { split(work.p, c.chfield, &c); o.raw(work.p, n / 2); } memcpy(work.p, in.p, n); subtract_img(in.p, work.p, out.p, &c); o.raw(out.p, n); subtract_mask(in.p, work.p, out.p, &c); o.raw(out.p, n); copy_images(in.p, out.p, &c); o.raw(out.p, n); return o.s; }); } rm(fn); }
