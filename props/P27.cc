// P27: no input file can corrupt memory.  Texts of every kind of input file, mutated at the levels of bytes, values and lines, are read under
// the sanitizers; what is reported as read must be set, and not be more than what the file holds.
#include "fuzz.h"
// memory patterns of unset memory: the heap (ASan's fill) and automatic variables
static bool unset(int v) { unsigned u = (unsigned)v; return u == 0xbebebebeu || u == 0xfefefefeu; }
static bool unset(unsigned v) { return unset((int)v); }
static bool unset(double v) { uint64_t u; memcpy(&u, &v, 8); return u == 0xbebebebebebebebeull || u == 0xfefefefefefefefeull; }
template <class T> static void set(T v, const char* what) { PBT_CHECK(!unset(v), "%s was never set", what); }
#define SET(x) set(x, #x)

PBT_SUB(sequence, 40000, 1000000) {
  int cams = (int)s.i(0, 5); File f(s, gen_base(s, "s"), fuzzed(s, std::string(cams, 's') + "ii")); sequence_par* q = read_sequence_par(cs(f.name), cams);
  if (q) { SET(q->first); SET(q->last); SET(q->num_cams); PBT_CHECK(q->num_cams == cams, "%d cameras of %d", q->num_cams, cams); for (int k = 0; k < cams; k++) PBT_CHECK(strlen(q->img_base_name[k]) < SEQ_FNAME_MAX_LEN, "a name does not end"); s.label("read"); free_sequence_par(q); } f.done(); }
PBT_SUB(track, 30000, 1000000) { File f(s, gen_base(s, "t"), fuzzed(s, D(8) + "i")); track_par* q = read_track_par(cs(f.name)); if (q) { for (double v : {q->dvxmin, q->dvxmax, q->dvymin, q->dvymax, q->dvzmin, q->dvzmax, q->dangle, q->dacc}) SET(v); SET(q->add); SET(q->dsumg); SET(q->dn); SET(q->dnx); SET(q->dny); s.label("read"); free(q); } f.done(); }
PBT_SUB(volume, 30000, 1000000) { File f(s, gen_base(s, "v"), fuzzed(s, D(12))); volume_par* q = read_volume_par(cs(f.name)); if (q) { for (double v : {q->X_lay[0], q->Zmin_lay[0], q->Zmax_lay[0], q->X_lay[1], q->Zmin_lay[1], q->Zmax_lay[1], q->cnx, q->cny, q->cn, q->csumg, q->corrmin, q->eps0}) SET(v); s.label("read"); free(q); } f.done(); }
PBT_SUB(control, 60000, 1500000) {
  int cams = (int)s.i(0, 5); std::string t = std::to_string(cams) + "\n" + text(s, std::string(2 * cams, 's') + "iiiiiddidddd", 1); t = mutate(s, t); File f(s, gen_base(s, "c"), t); control_par* q = read_control_par(cs(f.name));
  if (q) { PBT_CHECK(q->num_cams >= 0 && (size_t)q->num_cams * 2 < t.size() + 1, "%d cameras from %zu bytes", q->num_cams, t.size()); for (int k = 0; k < q->num_cams; k++) PBT_CHECK(strlen(q->img_base_name[k]) < SEQ_FNAME_MAX_LEN && strlen(q->cal_img_base_name[k]) < SEQ_FNAME_MAX_LEN, "a name does not end"); for (int v : {q->hp_flag, q->allCam_flag, q->tiff_flag, q->imx, q->imy, q->chfield, q->mm->nlay}) SET(v); for (double v : {q->pix_x, q->pix_y, q->mm->n1, q->mm->n2[0], q->mm->n3, q->mm->d[0]}) SET(v); s.label("read"); free_control_par(q); } f.done(); }
PBT_SUB(recognition, 30000, 1000000) { File f(s, gen_base(s, "r"), fuzzed(s, I(13))); target_par* q = read_target_par(cs(f.name)); if (q) { for (int v : {q->gvthres[0], q->gvthres[1], q->gvthres[2], q->gvthres[3], q->discont, q->nnmin, q->nnmax, q->nxmin, q->nxmax, q->nymin, q->nymax, q->sumg_min, q->cr_sz}) SET(v); s.label("read"); free(q); } f.done(); }
PBT_SUB(flags, 30000, 1000000) { File f(s, gen_base(s, "o"), fuzzed(s, I(12))); orient_par* q = read_orient_par(cs(f.name)); if (q) { for (unsigned v : {q->useflag, q->ccflag, q->xhflag, q->yhflag, q->k1flag, q->k2flag, q->k3flag, q->p1flag, q->p2flag, q->scxflag, q->sheflag, q->interfflag}) SET(v); s.label("read"); free(q); } f.done(); }
PBT_SUB(radius, 15000, 500000) { File f(s, gen_base(s, "g"), fuzzed(s, "i")); int r = read_sortgrid_par(cs(f.name)); SET(r); f.done(); }
PBT_SUB(block, 50000, 1500000) {
  int n = s.chance(1, 25) ? (int)s.i(50, 300) : (int)s.i(0, 12); std::string kinds; for (int k = 0; k < n; k++) kinds += "iddd"; File f(s, gen_base(s, "b"), fuzzed(s, kinds, 4)); int k = -77; vec3d* q = read_calblock(&k, cs(f.name)); PBT_CHECK(q ? k > 0 : k == 0, "%d points, result %s", k, q ? "given" : "NULL");
  if (q) { int h = held(f.txt, "iddd", false); PBT_CHECK(k <= h, "%d points of a file that holds %d", k, h); for (int i = 0; i < k; i++) for (int j = 0; j < 3; j++) SET(q[i][j]); s.label("read"); free(q); } f.done(); }
PBT_SUB(manual_orientation, 40000, 1000000) {
  int n = s.chance(1, 30) ? (int)s.i(50, 150) : (int)s.i(0, 8), cams = (int)s.i(1, 5), cam = (int)s.i(0, 5); std::string kinds, lines; for (int k = 0; k < n; k++) kinds += "iddd"; for (int k = 0; k < cams; k++) lines += text(s, "iiii", 4); File b(s, gen_base(s, "b") + "lock", fuzzed(s, kinds, 4)); File f(s, gen_base(s, "m") + "an", mutate(s, lines));
  vec3d fix[4]; memset(fix, 0x5a, sizeof fix); vec3d was[4]; memcpy(was, fix, sizeof fix); int r = read_man_ori_fix(fix, cs(b.name), cs(f.name), cam), changed = 0; PBT_CHECK(r >= 0, "result %d", r); for (int i = 0; i < 4; i++) { changed += memcmp(fix[i], was[i], sizeof fix[i]) != 0; for (int j = 0; j < 3; j++) SET(fix[i][j]); } PBT_CHECK(changed <= r, "%d points changed, result %d", changed, r); if (r) s.label("read"); unlink(cs(b.name)); f.fd = fdprobe(); f.done(); }
PBT_SUB(calibration, 60000, 1500000) {
  File o(s, gen_base(s, "c") + ".ori", fuzzed(s, D(21), s.one({1, 3, 6}))); bool add = s.b(), fb = s.b(); std::string an = pbt::scratch() + "/x.addpar", bn = pbt::scratch() + "/x.fallback"; if (add) pbt::spew(an, mutate(s, text(s, D(7), 7))); if (fb) pbt::spew(bn, mutate(s, text(s, D(7), 7)));
  Calibration* q = read_calibration(cs(o.name), s.chance(1, 6) ? nullptr : cs(an), s.chance(1, 6) ? nullptr : cs(bn));
  if (q) { Exterior& e = q->ext_par; for (double v : {e.x0, e.y0, e.z0, e.omega, e.phi, e.kappa, q->int_par.xh, q->int_par.yh, q->int_par.cc, q->glass_par.vec_x, q->glass_par.vec_y, q->glass_par.vec_z, q->added_par.k1, q->added_par.k2, q->added_par.k3, q->added_par.p1, q->added_par.p2, q->added_par.scx, q->added_par.she}) SET(v); for (int i = 0; i < 9; i++) SET(e.dm[i / 3][i % 3]); PBT_CHECK(!q->mmlut.data, "a calibration that was read has a table"); s.label("read"); free(q); }
  unlink(cs(an)); unlink(cs(bn)); o.done(); }
PBT_SUB(kernel, 30000, 800000) {
  File f(s, gen_base(s, "k"), fuzzed(s, D(9), 3)); control_par cp; memset(&cp, 0, sizeof cp); cp.imx = (int)s.i(3, 12); cp.imy = (int)s.i(3, 12); size_t n = cp.imx * cp.imy; Exact<unsigned char> a(n), b(n); for (size_t k = 0; k < n; k++) a[k] = (unsigned char)(k * 37 + 5);
  int r = prepare_image(a.p, b.p, (int)s.i(0, 3), 2, cs(f.name), &cp); int h = held(f.txt, "d", false); PBT_CHECK(r == 0 || r == 1, "result %d", r); PBT_CHECK(!r || h >= 9, "a kernel of %d numbers is accepted", h); if (r) s.label("read"); f.done(); }

PBT_SUB(targets, 80000, 2000000) {
  int n = s.chance(1, 40) ? (int)s.i(50, 150) : (int)s.i(0, 10); std::string base = gen_base(s, "cam"); int frame = gen_frame(s); std::string t = mutate(s, count_text(s, n, "iddiiiii")); File f(s, targets_name(base, frame), t);
  int cap = s.chance(1, 4) ? (int)s.i(0, n) : n + (int)s.i(0, 4); Exact<target> buf(cap); int r = read_targets_limited(buf.p, cap, cs(base), frame); target mark; memset(&mark, 0x5a, sizeof mark); int h = held(t, "iddiiiii", true);
  PBT_CHECK(r >= -1 && r <= cap, "result %d for a buffer of %d", r, cap); PBT_CHECK(r <= h, "%d targets of a file that holds %d", r, h); int stored = 0; for (int k = 0; k < cap; k++) if (memcmp(&buf[k], &mark, sizeof mark)) stored = k + 1; PBT_CHECK(stored <= std::max(r, h + 1), "%d targets stored of a file that holds %d", stored, h); if (r >= 0) PBT_CHECK(stored == r, "%d targets stored, result %d", stored, r);
  // the plain reader, when the file agrees with the capacity
  if (r >= 0) { Exact<target> again(r); int q = read_targets(again.p, cs(base), frame); PBT_CHECK(q == r, "read_targets gives %d, with a limit %d", q, r); for (int k = 0; k < r; k++) { target &a = buf[k], &b = again[k]; PBT_CHECK(a.pnr == b.pnr && !memcmp(&a.x, &b.x, 8) && !memcmp(&a.y, &b.y, 8) && a.n == b.n && a.nx == b.nx && a.ny == b.ny && a.sumg == b.sumg && a.tnr == b.tnr, "target %d differs when read again: %s and %s", k, show(a).c_str(), show(b).c_str()); } if (r) s.label("read"); }
  f.done(); }

static void check_frame(Src& s, int r, int cap, corres* c, P* p, int h, const char* what) {
  PBT_CHECK(r >= -1 && r <= cap, "%s: result %d for a buffer of %d", what, r, cap); PBT_CHECK(r <= h, "%s: %d particles of files that hold %d", what, r, h);
  corres cm; P pm; memset(&cm, 0x5a, sizeof cm); memset(&pm, 0x5a, sizeof pm); int stored = 0; for (int k = 0; k < cap; k++) if (memcmp(&c[k], &cm, sizeof cm) || memcmp(&p[k].x, &pm.x, sizeof pm.x)) stored = k + 1; PBT_CHECK(stored <= h + 1, "%s: %d particles stored of files that hold %d", what, stored, h); if (r >= 0) PBT_CHECK(stored == r, "%s: %d particles stored, result %d", what, stored, r);
  for (int k = 0; k < r; k++) { for (int i = 0; i < 3; i++) SET(p[k].x[i]); SET(p[k].prev); SET(p[k].next); SET(p[k].prio); for (int i = 0; i < 4; i++) SET(c[k].p[i]); int m; memset(&m, 0x5a, 4); PBT_CHECK(p[k].prev != m && p[k].next != m && p[k].prio != m && p[k].inlist != m && c[k].nr != m, "%s: particle %d is not set", what, k); }
  if (r > 0) s.label("read"); }
PBT_SUB(particles, 80000, 2000000) {
  int n = s.chance(1, 40) ? (int)s.i(50, 150) : (int)s.i(0, 8); Triple t(s, n); int cap = s.chance(1, 4) ? (int)s.i(0, n) : n + (int)s.i(0, 4), fd = fdprobe(); Exact<corres> c(cap); Exact<P> p(cap); int r = read_path_frame_limited(c.p, p.p, cap, cs(t.cb), t.L(), t.Q(), t.frame); check_frame(s, r, cap, c.p, p.p, t.h, "limited");
  if (r > 0) { Exact<corres> c2(r); Exact<P> p2(r); int q = read_path_frame(c2.p, p2.p, cs(t.cb), t.L(), t.Q(), t.frame); PBT_CHECK(q == r, "read_path_frame gives %d, with a limit %d", q, r); check_frame(s, q, r, c2.p, p2.p, t.h, "plain"); for (int k = 0; k < r; k++) for (int i = 0; i < 4; i++) PBT_CHECK(c[k].p[i] == c2[k].p[i], "particle %d differs when read again", k); }
  PBT_CHECK(fdprobe() == fd, "a file was left open"); }
PBT_SUB(whole_frame, 30000, 800000) {
  int n = (int)s.i(0, 6), cams = (int)s.i(1, 4), cap = std::max(1, n + (int)s.i(-1, 3)), fd = fdprobe(); Triple t(s, n); frame f; frame_init(&f, cams, cap); std::vector<std::string> tb; std::vector<char*> tp; std::vector<int> h; int hurt = (int)s.i(-1, cams - 1);
  for (int c = 0; c < cams; c++) { tb.push_back(pbt::scratch() + "/cam" + std::to_string(c) + "."); std::string x = count_text(s, (int)s.i(0, cap), "iddiiiii"); if (c == hurt) { x = mutate(s, x); note(s, x); } if (!(c == hurt && s.chance(1, 8))) pbt::spew(targets_name(tb[c], t.frame), x); else unlink(cs(targets_name(tb[c], t.frame))); h.push_back(held(x, "iddiiiii", true)); }
  for (auto& b : tb) tp.push_back(cs(b)); int r = read_frame(&f, cs(t.cb), t.L(), t.Q(), tp.data(), t.frame); PBT_CHECK(r == 0 || r == 1, "result %d", r); PBT_CHECK(f.num_parts <= std::min(cap, t.h), "%d particles of files that hold %d, capacity %d", f.num_parts, t.h, cap);
  if (r) { PBT_CHECK(f.num_parts >= 0, "success with %d particles", f.num_parts); for (int k = 0; k < f.num_parts; k++) { for (int i = 0; i < 3; i++) SET(f.path_info[k].x[i]); for (int i = 0; i < 4; i++) SET(f.correspond[k].p[i]); } for (int c = 0; c < cams; c++) { PBT_CHECK(f.num_targets[c] >= 0 && f.num_targets[c] <= std::min(cap, h[c]), "%d targets of a file that holds %d, capacity %d", f.num_targets[c], h[c], cap); for (int k = 0; k < f.num_targets[c]; k++) { SET(f.targets[c][k].x); SET(f.targets[c][k].y); SET(f.targets[c][k].tnr); } } s.label("read"); }
  free_frame(&f); for (auto& b : tb) unlink(cs(targets_name(b, t.frame))); PBT_CHECK(fdprobe() == fd, "a file was left open"); }
