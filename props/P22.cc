#include <filesystem>
#include "tracking.h"
static void consistent(Src& s, Scene& S, const Store& in, const Store& out, const char* when) { int f0 = S.sp.first, f1 = S.sp.last; check_links(out, f0, f1, when); check_kept(in, out, f0, f1, S.tp.add, when);
  for (auto& f : in) if (f.first > f1 || f.first < f0) PBT_CHECK(out.at(f.first).missing || !diff(in, out, f.first, f.first).size(), "%s: frame %d outside the sequence was written", when, f.first); if (count_parts(out) > count_parts(in)) s.label(std::string(when) + ": particles added"); }
static void cut(Src& s, Scene& S, Store& st) { double rate = s.one({.1, .3, 0.}); for (int k = S.sp.first; k < S.sp.last; k++) for (size_t h = 0; h < st[k].parts.size(); h++) { int n = st[k].parts[h].next; if (n >= 0 && s.u() < rate) { st[k].parts[h].next = NEXT_NONE; st[k + 1].parts[n].prev = PREV_NONE; } } if (s.chance(1, 4)) { double m = s.r(.3, 2); S.tp.dacc *= m; S.tp.dvxmin *= m; S.tp.dvxmax *= m; } if (s.chance(1, 4)) S.tp.add = !S.tp.add; }

PBT_SUB(forward, 4000, 100000) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); Store out = S.st; Runner R(S, out); R.forward(); PBT_CHECK(!R.mb.bad, "%s", R.mb.bad); if (count_links(out)) s.nontrivial(); consistent(s, S, S.st, out, "forward");
  if (s.chance(1, 4)) { Store two = S.st; R.mb.st = &two; R.forward(); if (!R.mb.bad) { consistent(s, S, S.st, two, "second run"); } s.label("run again"); }      // the run object can be restarted
}
PBT_SUB(backward, 4000, 100000) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); Store mid = S.st; { Runner R(S, mid); R.forward(); } cut(s, S, mid); for (auto& f : mid) S.max_targets = std::max(S.max_targets, (int)f.second.parts.size());
  Store out = mid; { Runner R(S, out); R.backward(); PBT_CHECK(!R.mb.bad, "%s", R.mb.bad); } s.note("before: %s", show(mid).c_str()); if (count_links(out) > count_links(mid)) { s.nontrivial(); s.label("links found"); } consistent(s, S, mid, out, "backward");
  for (int k = S.sp.first; k <= S.sp.last; k++) for (size_t h = 0; h < mid[k].parts.size(); h++) { auto &a = mid[k].parts[h], &b = out[k].parts[h]; PBT_CHECK((a.next < 0 || a.next == b.next) && (a.prev < 0 || a.prev == b.prev), "frame %d particle %zu lost its link %d>%d, now %d>%d", k, h, a.prev, a.next, b.prev, b.next); }
}
// ---- the same run through files ----------------------------------------------------------------------------------------
struct Names { std::string rt, ptv, add; std::vector<std::string> img; };
static void put(const Names& N, const Store& st, bool links) { char b[400]; for (auto& f : st) { if (f.second.missing) continue; std::string o = std::to_string((int)f.second.parts.size()) + "\n", l = o, a = o; for (size_t k = 0; k < f.second.parts.size(); k++) { auto& q = f.second.parts[k]; snprintf(b, 400, "%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", (int)k + 1, q.x[0], q.x[1], q.x[2], q.p[0], q.p[1], q.p[2], q.p[3]); o += b; snprintf(b, 400, "%4d %4d %10.3f %10.3f %10.3f", q.prev, q.next, q.x[0], q.x[1], q.x[2]); l += std::string(b) + "\n"; a += std::string(b) + " 4\n"; }
    pbt::spew(N.rt + "." + std::to_string(f.first), o); if (links) { pbt::spew(N.ptv + "." + std::to_string(f.first), l); pbt::spew(N.add + "." + std::to_string(f.first), a); }
    for (size_t c = 0; c < f.second.targ.size(); c++) { std::string t = std::to_string(f.second.targ[c].size()) + "\n"; for (auto& q : f.second.targ[c]) { snprintf(b, 400, "%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", q.pnr, q.x, q.y, q.n, q.nx, q.ny, q.sumg, q.tnr); t += b; } pbt::spew(targets_name(N.img[c], f.first), t); } } }
static Store get(const Names& N, int f0, int f1) { Store st; for (int k = f0; k <= f1; k++) { TFrame f; std::istringstream rt(pbt::slurp(N.rt + "." + std::to_string(k))), pt(pbt::slurp(N.ptv + "." + std::to_string(k))), ad(pbt::slurp(N.add + "." + std::to_string(k))); int n, n1, n2; PBT_CHECK(rt >> n, "frame %d has no particle file", k); PBT_CHECK((pt >> n1) && (ad >> n2) && n1 == n && n2 == n, "files of frame %d count %d, %d and %d particles", k, n, n1, n2); f.count = n;
    for (int h = 0; h < n; h++) { TP q; int id, pr, pv, nx; V3 y, z; PBT_CHECK(rt >> id >> q.x[0] >> q.x[1] >> q.x[2] >> q.p[0] >> q.p[1] >> q.p[2] >> q.p[3], "particle file of frame %d ends early", k); PBT_CHECK(pt >> q.prev >> q.next >> y[0] >> y[1] >> y[2], "link file of frame %d ends early", k); PBT_CHECK(ad >> pv >> nx >> z[0] >> z[1] >> z[2] >> pr, "priority file of frame %d ends early", k); PBT_CHECK(id == h + 1 && y == q.x && z == q.x && pv == q.prev && nx == q.next, "files of frame %d disagree on particle %d", k, h); f.parts.push_back(q); }
    for (auto& i : N.img) { std::istringstream t(pbt::slurp(targets_name(i, k))); int m = 0; PBT_CHECK(t >> m, "frame %d has no target file", k); std::vector<target> v; for (int j = 0; j < m; j++) { target q; memset(&q, 0, sizeof q); PBT_CHECK(t >> q.pnr >> q.x >> q.y >> q.n >> q.nx >> q.ny >> q.sumg >> q.tnr, "target file of frame %d ends early", k); v.push_back(q); } f.targ.push_back(v); } st[k] = f; } return st; }
static void round_all(Store& st) { for (auto& f : st) { for (auto& q : f.second.parts) for (double& v : q.x) v = rounded(v, "%.3f"); for (auto& c : f.second.targ) for (auto& t : c) t = via_file(t); } }
static std::string near(const Store& a, const Store& b, int f0, int f1) { Store x = a, y = b; for (int k = f0; k <= f1; k++) { if (x[k].count <= 0 && y[k].count <= 0) x[k].count = y[k].count; if (x[k].parts.size() == y[k].parts.size()) for (size_t h = 0; h < x[k].parts.size(); h++) if (len(x[k].parts[h].x - y[k].parts[h].x) < 1.1e-3) y[k].parts[h].x = x[k].parts[h].x; } return diff(x, y, f0, f1); }
PBT_SUB(files, 1200, 30000) {
  Scene S((int)s.i(2, 4)); gen_dense(s, S); round_all(S.st); for (auto& f : S.st) if (f.second.parts.empty()) f.second.count = -1; S.max_targets = 400; Names N; std::string d = pbt::scratch() + "/"; N.rt = d + "rt_is"; N.ptv = d + "ptv_is"; N.add = d + "added"; for (int c = 0; c < S.r.n(); c++) N.img.push_back(d + "cam" + std::to_string(c) + "."); for (auto& e : std::filesystem::directory_iterator(d)) std::filesystem::remove(e.path());
  int f0 = S.sp.first, f1 = S.sp.last; put(N, S.st, false); std::vector<char*> img; for (auto& i : N.img) img.push_back((char*)i.c_str()); sequence_par sp = S.sp; sp.img_base_name = img.data(); Store mem = S.st; { Runner R(S, mem); R.forward(); if (R.mb.bad) s.discard(); } if (count_links(mem)) s.nontrivial();
  volume_par vp = S.r.vp; tracking_run* tr = tr_new(&sp, &S.tp, &vp, &S.r.cp.c, 4, S.max_targets, (char*)N.rt.c_str(), (char*)N.ptv.c_str(), (char*)N.add.c_str(), S.r.cals.data(), S.flat_tol); auto done = [&] { fb_free(tr->fb); free(tr->fb); free(tr); };
  int fd0 = fdprobe(); track_forward_start(tr); for (int k = f0; k < f1; k++) trackcorr_c_loop(tr, k); trackcorr_c_finish(tr, f1); int fd1 = fdprobe(); done(); Store dsk = get(N, f0, f1); std::string e = near(mem, dsk, f0, f1); PBT_CHECK(e.empty(), "forward run through files differs from the run in memory: %s", e.c_str()); PBT_CHECK(fd0 == fd1, "files stay open"); check_links(dsk, f0, f1, "forward files"); Store in = S.st; check_kept(in, dsk, f0, f1, S.tp.add, "forward files");
  // backward, from what the files hold now
  Store mid = dsk; cut(s, S, mid); put(N, mid, true); for (auto& f : S.st) if (!mid.count(f.first)) mid[f.first] = f.second; for (auto& f : mid) if (f.second.parts.empty()) f.second.count = -1; for (auto& f : S.st) if (f.first > f1 && !f.second.missing) { Store one; one[f.first] = f.second; put(N, one, true); } mem = mid; { Runner R(S, mem); R.backward(); if (R.mb.bad) s.discard(); }
  tr = tr_new(&sp, &S.tp, &vp, &S.r.cp.c, 4, S.max_targets, (char*)N.rt.c_str(), (char*)N.ptv.c_str(), (char*)N.add.c_str(), S.r.cals.data(), S.flat_tol); trackback_c(tr); int fd2 = fdprobe(); done(); dsk = get(N, f0, f1); e = near(mem, dsk, f0, f1); PBT_CHECK(e.empty(), "backward run through files differs from the run in memory: %s", e.c_str()); PBT_CHECK(fd2 == fd0, "files stay open"); check_links(dsk, f0, f1, "backward files"); if (count_links(dsk) > count_links(mid)) s.label("backward links");
}
