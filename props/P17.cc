// P17: equality comparisons notice every difference and nothing else.
#include "files.h"

struct Fld { const char* name; char t; void* p; };        // t: i int, d double, f float, s char buffer
static std::string name_of(const Fld& f, int k) { char b[80]; snprintf(b, 80, "%s #%d", f.name, k); return b; }
static double any(Src& s) { switch (s.draw(4)) { case 0: return 0; case 1: return (double)s.i0(-100, 100); case 2: return s.r0(-1e-9, 1e-9); default: return s.r0(-1000, 1000); } }
static void randomize(Src& s, std::vector<Fld>& F) { for (auto& f : F) { if (f.t == 'i') *(int*)f.p = s.b() ? (int)s.i0(-5, 5) : gen_int(s); else if (f.t == 'd') *(double*)f.p = any(s); else if (f.t == 'f') *(float*)f.p = (float)any(s); else { int n = s.chance(1, 6) ? SEQ_FNAME_MAX_LEN - 1 : (int)s.i(0, 12); std::string t; for (int k = 0; k < n; k++) t += (char)s.i(33, 126); strcpy((char*)f.p, t.c_str()); } } }
static void copyall(std::vector<Fld>& a, std::vector<Fld>& b) { for (size_t k = 0; k < a.size(); k++) { if (a[k].t == 'i') *(int*)b[k].p = *(int*)a[k].p; else if (a[k].t == 'd') *(double*)b[k].p = *(double*)a[k].p; else if (a[k].t == 'f') *(float*)b[k].p = *(float*)a[k].p; else strcpy((char*)b[k].p, (char*)a[k].p); } }
// changes one field, slightly or grossly; the values are different afterwards
static void mutate(Src& s, Fld& f) {
  if (f.t == 'i') { int& v = *(int*)f.p; switch (s.draw(3)) { case 0: v = v == INT_MAX ? v - 1 : v + 1; break; case 1: v = v ? (v == INT_MIN ? 0 : -v) : 1; break; case 2: v = (int)((unsigned)v ^ 0x80000000u); break; default: v = (int)((unsigned)v ^ (1u << s.draw(30))); } }
  else if (f.t == 'd') { double& v = *(double*)f.p; switch (s.draw(3)) { case 0: v = nextafter(v, 1e300); break; case 1: v = v != 0 ? -v : 1; break; case 2: v += v == 0 ? 1e-12 : fabs(v) * 1e-9; break; default: v = v * 1.5 + 1; if (v == -2) v = 7; } }
  else if (f.t == 'f') { float& v = *(float*)f.p; switch (s.draw(2)) { case 0: v = nextafterf(v, 1e30f); break; case 1: v = v != 0 ? -v : 1; break; default: v = v * 1.5f + 1; if (v == -2) v = 7; } }
  else { char* c = (char*)f.p; size_t n = strlen(c); int how = (int)s.draw(2); if (how == 0 && n + 1 < SEQ_FNAME_MAX_LEN) { c[n] = 'q'; c[n + 1] = 0; } else if (how == 1 && n) c[n - 1] = 0; else if (n) { size_t k = s.b() ? n - 1 : s.draw(n - 1); c[k] = c[k] == 'z' ? 'Z' : c[k] + 1; } else { c[0] = 'q'; c[1] = 0; } }
}
template <class Cmp> static void decide(Src& s, const char* what, std::vector<Fld> A, std::vector<Fld> B, Cmp cmp) {
  randomize(s, A); copyall(A, B); s.label(what); s.nontrivial(); PBT_CHECK(cmp(0, 0), "%s: not equal to itself", what); PBT_CHECK(cmp(0, 1) && cmp(1, 0), "%s: an equal copy is reported as different", what);
  if (A.empty()) return; size_t k = s.draw(A.size() - 1); mutate(s, B[k]); int c = 0; for (size_t j = 0; j < k; j++) c += A[j].name == A[k].name; s.note("%s differs in %s", what, name_of(A[k], c).c_str()); PBT_CHECK(!cmp(0, 1), "%s: a difference in %s is not noticed", what, name_of(A[k], c).c_str()); PBT_CHECK(!cmp(1, 0), "%s: a difference in %s is not noticed in reverse", what, name_of(A[k], c).c_str());
  if (s.b()) { size_t j = s.draw(A.size() - 1); if (j != k) { mutate(s, B[j]); PBT_CHECK(!cmp(0, 1) && !cmp(1, 0), "%s: two differences are not noticed", what); } }
  copyall(A, B); PBT_CHECK(cmp(0, 1), "%s: equal again, reported as different", what);
}
#define I(f) {#f, 'i', (void*)&f}
#define D(f) {#f, 'd', (void*)&f}
static std::vector<Fld> F(track_par& q) { return {D(q.dvxmin), D(q.dvxmax), D(q.dvymin), D(q.dvymax), D(q.dvzmin), D(q.dvzmax), D(q.dangle), D(q.dacc), I(q.dsumg), I(q.dn), I(q.dnx), I(q.dny), I(q.add)}; }
static std::vector<Fld> F(volume_par& q) { return {D(q.X_lay[0]), D(q.X_lay[1]), D(q.Zmin_lay[0]), D(q.Zmin_lay[1]), D(q.Zmax_lay[0]), D(q.Zmax_lay[1]), D(q.cn), D(q.cnx), D(q.cny), D(q.csumg), D(q.eps0), D(q.corrmin)}; }
static std::vector<Fld> F(mm_np& q) { return {I(q.nlay), D(q.n1), D(q.n2[0]), D(q.d[0]), D(q.n3)}; }
static std::vector<Fld> F(target_par& q) { return {I(q.discont), I(q.gvthres[0]), I(q.gvthres[1]), I(q.gvthres[2]), I(q.gvthres[3]), I(q.nnmin), I(q.nnmax), I(q.nxmin), I(q.nxmax), I(q.nymin), I(q.nymax), I(q.sumg_min), I(q.cr_sz)}; }
static std::vector<Fld> F(Exterior& q) { std::vector<Fld> v = {D(q.x0), D(q.y0), D(q.z0), D(q.omega), D(q.phi), D(q.kappa)}; for (int i = 0; i < 9; i++) v.push_back({"dm", 'd', &q.dm[i / 3][i % 3]}); return v; }
static std::vector<Fld> F(Interior& q) { return {D(q.xh), D(q.yh), D(q.cc)}; }
static std::vector<Fld> F(Glass& q) { return {D(q.vec_x), D(q.vec_y), D(q.vec_z)}; }
static std::vector<Fld> F(ap_52& q) { return {D(q.k1), D(q.k2), D(q.k3), D(q.p1), D(q.p2), D(q.scx), D(q.she)}; }
static std::vector<Fld> F(Calibration& q) { auto v = F(q.ext_par); for (auto& w : {F(q.int_par), F(q.glass_par), F(q.added_par)}) v.insert(v.end(), w.begin(), w.end()); return v; }
static std::vector<Fld> F(target& q) { return {I(q.pnr), D(q.x), D(q.y), I(q.n), I(q.nx), I(q.ny), I(q.sumg), I(q.tnr)}; }
static std::vector<Fld> F(corres& q) { return {I(q.nr), I(q.p[0]), I(q.p[1]), I(q.p[2]), I(q.p[3])}; }
static std::vector<Fld> F(P& q) { std::vector<Fld> v = {D(q.x[0]), D(q.x[1]), D(q.x[2]), I(q.prev), I(q.next), I(q.prio), {"finaldecis", 'f', &q.finaldecis}, I(q.inlist)}; for (int k = 0; k < POSI; k += 1) { v.push_back({"decis", 'f', &q.decis[k]}); v.push_back({"linkdecis", 'i', &q.linkdecis[k]}); } return v; }
template <class T> static void plain(Src& s, const char* what, int (*cmp)(T*, T*)) { Exact<T> q(2); memset(&q[0], 0, 2 * sizeof(T)); memset(&q[1], 0x21, sizeof(T)); decide(s, what, F(q[0]), F(q[1]), [&](int a, int b) { return cmp(&q[a], &q[b]) != 0; }); }

PBT_SUB(records, 250000, 6000000) {
  switch (s.draw(11)) {
    case 0: plain<track_par>(s, "tracking parameters", compare_track_par); break;
    case 1: plain<volume_par>(s, "volume parameters", compare_volume_par); break;
    case 2: plain<mm_np>(s, "media", compare_mm_np); break;
    case 3: plain<target_par>(s, "recognition parameters", compare_target_par); break;
    case 4: plain<Exterior>(s, "exterior orientation", compare_exterior); break;
    case 5: plain<Interior>(s, "interior orientation", compare_interior); break;
    case 6: plain<Glass>(s, "glass", compare_glass); break;
    case 7: plain<ap_52>(s, "distortion", compare_addpar); break;
    case 8: plain<Calibration>(s, "calibration", compare_calib); break;
    case 9: plain<target>(s, "target", compare_targets); break;
    case 10: plain<corres>(s, "correspondence", compare_corres); break;
    default: plain<P>(s, "trajectory record", compare_path_info); break;
  }
}
PBT_SUB(named, 60000, 1500000) {
  int cams = (int)s.i(0, 5); { char b[30]; snprintf(b, 30, "cameras:%d", cams); s.label(b); }
  if (s.b()) { sequence_par* q[2]; std::vector<Fld> A[2]; for (int j = 0; j < 2; j++) { q[j] = new_sequence_par(cams); PBT_CHECK(q[j]->num_cams == cams, "%d cameras", q[j]->num_cams); A[j] = {I(q[j]->first), I(q[j]->last)}; for (int c = 0; c < cams; c++) A[j].push_back({"image name", 's', q[j]->img_base_name[c]}); } decide(s, "sequence", A[0], A[1], [&](int a, int b) { return compare_sequence_par(q[a], q[b]) != 0; }); sequence_par* o = new_sequence_par(cams + 1); o->first = q[0]->first; o->last = q[0]->last; for (int c = 0; c <= cams; c++) strcpy(o->img_base_name[c], c < cams ? q[0]->img_base_name[c] : "x"); PBT_CHECK(!compare_sequence_par(o, q[0]) && !compare_sequence_par(q[0], o), "sequence: a different number of cameras is not noticed"); free_sequence_par(o); free_sequence_par(q[0]); free_sequence_par(q[1]); }
  else { auto fields = [&](control_par* q) { std::vector<Fld> v = {I(q->hp_flag), I(q->allCam_flag), I(q->tiff_flag), I(q->imx), I(q->imy), D(q->pix_x), D(q->pix_y), I(q->chfield)}; for (auto& w : F(*q->mm)) v.push_back(w); for (int c = 0; c < q->num_cams; c++) { v.push_back({"image name", 's', q->img_base_name[c]}); v.push_back({"calibration image name", 's', q->cal_img_base_name[c]}); } return v; };
    control_par* q[2] = {new_control_par(cams), new_control_par(cams)}; PBT_CHECK(q[0]->num_cams == cams, "%d cameras", q[0]->num_cams); decide(s, "control parameters", fields(q[0]), fields(q[1]), [&](int a, int b) { return compare_control_par(q[a], q[b]) != 0; }); control_par* o = new_control_par(cams + 1); auto fo = fields(o), fq = fields(q[0]); for (auto& f : fo) if (f.t == 's') *(char*)f.p = 0; copyall(fq, fo); PBT_CHECK(!compare_control_par(o, q[0]) && !compare_control_par(q[0], o), "control parameters: a different number of cameras is not noticed"); free_control_par(o); free_control_par(q[0]); free_control_par(q[1]); }
}
