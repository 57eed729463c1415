// P13: trajectory frame files give back the frame that was written.
#include "frames.h"

struct Names { std::string rt, link, prio; bool has_prio; };
static Names gen_names(Src& s) { Names n; n.rt = gen_base(s, "rt_is"); n.link = gen_base(s, "ptv_is"); n.prio = gen_base(s, "added"); n.has_prio = s.chance(3, 4); return n; }
static char* cs(const std::string& a) { return (char*)a.c_str(); }
static void clean(const Names& n, int f) { for (auto& b : {n.rt, n.link, n.prio}) { unlink(frame_name(b, f).c_str()); rmdir(frame_name(b, f).c_str()); } }
static void load(Src& s, const std::vector<Part>& v, Exact<P>& p, Exact<corres>& c) { for (size_t k = 0; k < v.size(); k++) put(v[k], p[k], c[k], s); }
static void dump(Src& s, const std::vector<Part>& v) { for (size_t k = 0; k < v.size() && k < 5; k++) s.note(" %s", show(v[k]).c_str()); if (v.size() > 5) s.note(" ... %zu", v.size()); s.label(v.empty() ? "particles:0" : v.size() < 60 ? "particles:1-10" : "particles:60+"); }
static void check_parts(const std::vector<Part>& v, size_t n, P* p, corres* c, bool links, bool prio) {
  for (size_t k = 0; k < n; k++) { Part e = via_file(v[k], links, prio); e.nr = (int)k + 1; Part g = get(p[k], c[k]); PBT_CHECK(same(g, e), "particle %zu is %s, written %s (links %sread, priorities %sread)", k, show(g).c_str(), show(e).c_str(), links ? "" : "not ", prio ? "" : "not "); check_fresh(p[k], "read particle"); } }
// a frame without particles is a known finding: it is written, but read as a failure
static void check_count(int n, const std::vector<Part>& v) { if (v.empty()) PBT_CHECK(n == 0 || n == -1, "read %d particles of an empty frame", n); else PBT_CHECK(n == (int)v.size(), "read %d particles of %zu", n, v.size()); }
// values of the three files in their documented columns
static void check_files(const std::vector<Part>& v, const Names& N, int f) {
  for (int which = 0; which < 3; which++) { if (which == 2 && !N.has_prio) continue; auto t = tokens(pbt::slurp(frame_name(which == 0 ? N.rt : which == 1 ? N.link : N.prio, f))); size_t cols = which == 0 ? 8 : which == 1 ? 5 : 6;
    PBT_CHECK(t.size() == 1 + cols * v.size() && t[0] == std::to_string(v.size()), "file %d has %zu values for %zu particles", which, t.size(), v.size());
    for (size_t k = 0; k < v.size(); k++) { const std::string* w = &t[1 + cols * k]; Part e = via_file(v[k], true, true); int xo = which == 0 ? 1 : 2; for (int i = 0; i < 3; i++) PBT_CHECK(strtod(w[xo + i].c_str(), 0) == e.x[i], "file %d particle %zu coordinate %d is %s", which, k, i, w[xo + i].c_str());
      if (which == 0) { PBT_CHECK(w[0] == std::to_string(k + 1), "particle %zu is numbered %s", k, w[0].c_str()); for (int i = 0; i < 4; i++) PBT_CHECK(w[4 + i] == std::to_string(e.p[i]), "particle %zu target %d is %s", k, i, w[4 + i].c_str()); }
      else { PBT_CHECK(w[0] == std::to_string(e.prev) && w[1] == std::to_string(e.next), "file %d particle %zu links are %s %s", which, k, w[0].c_str(), w[1].c_str()); if (which == 2) PBT_CHECK(w[5] == std::to_string(e.prio), "particle %zu priority is %s", k, w[5].c_str()); } } } }

PBT_SUB(roundtrip, 40000, 1000000) {
  Locale L(s); Names N = gen_names(s); auto v = gen_parts(s); int f = gen_frame(s); s.note("frame %d%s:", f, N.has_prio ? "" : ", no priority file"); dump(s, v); if (v.size()) s.nontrivial(); clean(N, f); int fd = fdprobe();
  Exact<P> p(v.size()); Exact<corres> c(v.size()); load(s, v, p, c); std::vector<P> before(p.p, p.p + v.size()); std::vector<corres> cb(c.p, c.p + v.size());
  int r = write_path_frame(c.p, p.p, (int)v.size(), cs(N.rt), cs(N.link), N.has_prio ? cs(N.prio) : nullptr, f); PBT_CHECK(r, "writing reports failure"); PBT_CHECK(v.empty() || (!memcmp(before.data(), p.p, v.size() * sizeof(P)) && !memcmp(cb.data(), c.p, v.size() * sizeof(corres))), "writing changed the frame");
  check_files(v, N, f); PBT_CHECK(access(frame_name(N.prio, f).c_str(), F_OK) == (N.has_prio ? 0 : -1), "priority file does not agree with the request");
  bool links = s.chance(3, 4), prio = N.has_prio && s.chance(3, 4); s.label(links ? prio ? "links and priorities" : "links" : prio ? "priorities" : "positions only");
  Exact<P> p2(v.size()); Exact<corres> c2(v.size()); int n = read_path_frame(c2.p, p2.p, cs(N.rt), links ? cs(N.link) : nullptr, prio ? cs(N.prio) : nullptr, f); check_count(n, v); if (n > 0) check_parts(v, n, p2.p, c2.p, links, prio);
  long max = s.i(0, (long)v.size()); Exact<P> p3(max); Exact<corres> c3(max); n = read_path_frame_limited(c3.p, p3.p, (int)max, cs(N.rt), links ? cs(N.link) : nullptr, prio ? cs(N.prio) : nullptr, f); if (max < (long)v.size()) PBT_CHECK(n == -1, "read %d particles of %zu to a buffer of %ld", n, v.size(), max); else check_count(n, v);
  PBT_CHECK(fdprobe() == fd, "a file was left open"); clean(N, f);
}

PBT_SUB(malformed, 40000, 1000000) {
  Locale L(s); Names N = gen_names(s); N.has_prio = true; auto v = gen_parts(s, 1); int f = gen_frame(s); clean(N, f); Exact<P> p(v.size()); Exact<corres> c(v.size()); load(s, v, p, c); PBT_CHECK(write_path_frame(c.p, p.p, (int)v.size(), cs(N.rt), cs(N.link), cs(N.prio), f), "writing reports failure");
  int which = (int)s.draw(2); std::string file = frame_name(which == 0 ? N.rt : which == 1 ? N.link : N.prio, f), txt = pbt::slurp(file); auto t = tokens(txt); const char* names[] = {"correspondence", "linkage", "priority"}; s.note("%s file of %zu particles:", names[which], v.size()); bool must_fail = true; int kind = (int)s.draw(which == 0 ? 4 : 3); s.nontrivial();
  switch (kind) {
    case 0: { size_t cut = s.draw(txt.size() - 1); txt.resize(cut); auto u = tokens(txt); must_fail = u.size() < t.size() || !is_num(u.back()); s.note("cut at byte %zu", cut); s.label(std::string("truncated ") + names[which]); break; }
    case 1: { size_t k = s.draw(t.size() - 1); t[k] = s.one({"x", "nil", "-", "#", "*", "..", "a1"}); txt.clear(); for (auto& w : t) txt += w + (&w == &t[0] ? "\n" : " "); s.note("value %zu replaced by '%s'", k, t[k].c_str()); s.label(std::string("bad value ") + names[which]); break; }
    case 2: { txt = s.b() ? "" : s.b() ? "\n\n" : "frame\n"; s.note("no count"); s.label("empty"); break; }
    case 3: { size_t n = s.draw(v.size() - 1); size_t pos = 0; for (size_t k = 0; k <= n; k++) pos = txt.find('\n', pos) + 1; txt.resize(pos); s.note("only %zu of %zu lines", n, v.size()); s.label(std::string("lines missing ") + names[which]); break; }
    default: { long cnt = s.b() ? (long)v.size() + s.i(1, 4) : -s.i(1, 4); txt = std::to_string(cnt) + txt.substr(txt.find('\n')); s.note("count %ld", cnt); s.label(cnt < 0 ? "negative count" : "count too large"); }
  }
  pbt::spew(file, txt); dump(s, v); int fd = fdprobe(); Exact<P> p2(v.size() + 5); Exact<corres> c2(v.size() + 5); int n = read_path_frame(c2.p, p2.p, cs(N.rt), cs(N.link), cs(N.prio), f);
  if (must_fail) PBT_CHECK(n == -1, "a malformed %s file is read as %d particles", names[which], n); else PBT_CHECK(n == -1 || n == (int)v.size(), "result %d", n);
  PBT_CHECK(fdprobe() == fd, "a file was left open"); clean(N, f);
}

// whole frames: particles and the targets of each camera
PBT_SUB(frames, 30000, 700000) {
  Locale L(s); Names N = gen_names(s); int cams = (int)s.i(1, 4), f = gen_frame(s); auto v = gen_parts(s); std::vector<std::vector<target>> T(cams); std::vector<std::string> tb(cams); size_t need = v.size(); for (int c = 0; c < cams; c++) { int n = (int)s.i(0, 8); for (int k = 0; k < n; k++) T[c].push_back(gen_target(s)); need = std::max(need, T[c].size()); tb[c] = gen_base(s, ("cam" + std::to_string(c) + "_").c_str()); unlink(targets_name(tb[c], f).c_str()); }
  s.note("frame %d, %d cameras, targets", f, cams); for (auto& t : T) s.note(" %zu", t.size()); dump(s, v); if (v.size()) s.nontrivial(); std::vector<char*> tp; for (auto& b : tb) tp.push_back(cs(b)); clean(N, f); int fd = fdprobe();
  frame fr; frame_init(&fr, cams, (int)(need + s.i(0, 2))); for (size_t k = 0; k < v.size(); k++) put(v[k], fr.path_info[k], fr.correspond[k], s); fr.num_parts = (int)v.size(); for (int c = 0; c < cams; c++) { for (size_t k = 0; k < T[c].size(); k++) fr.targets[c][k] = T[c][k]; fr.num_targets[c] = (int)T[c].size(); }
  int fault = s.chance(1, 4) ? (int)s.i(1, 3 + cams) : 0; bool full = s.b(); std::string fn; if (fault) { fn = fault == 1 ? frame_name(N.rt, f) : fault == 2 ? frame_name(N.link, f) : fault == 3 ? frame_name(N.prio, f) : targets_name(tb[fault - 4], f); if (fault == 3) N.has_prio = true; if (full) PBT_CHECK(symlink("/dev/full", fn.c_str()) == 0, "machinery: symlink"); else mkdir(fn.c_str(), 0700); s.note(" [file %d %s]", fault, full ? "on a full device" : "is a directory"); s.label(full ? "disk full" : "unwritable"); }
  int r = write_frame(&fr, cs(N.rt), cs(N.link), N.has_prio ? cs(N.prio) : nullptr, tp.data(), f); free_frame(&fr);
  if (fault) { unlink(fn.c_str()); rmdir(fn.c_str()); PBT_CHECK(!r, "a file that could not be written is reported as written"); PBT_CHECK(fdprobe() == fd, "a file was left open"); clean(N, f); for (auto& b : tb) unlink(targets_name(b, f).c_str()); return; }
  PBT_CHECK(r, "writing reports failure"); check_files(v, N, f);
  bool links = s.chance(3, 4), prio = N.has_prio && s.chance(3, 4); int gone = s.chance(1, 5) ? (int)s.i(1, 3 + cams) : 0; if (gone) { fn = gone == 1 ? frame_name(N.rt, f) : gone == 2 ? frame_name(N.link, f) : gone == 3 ? frame_name(N.prio, f) : targets_name(tb[gone - 4], f); if (gone == 2) links = true; if (gone == 3) prio = true; unlink(fn.c_str()); s.note(" [file %d missing]", gone); s.label("missing file"); }
  long cap = s.chance(1, 6) && need ? s.i(0, (long)need - 1) : (long)need; frame g; frame_init(&g, cams, (int)cap); int q = read_frame(&g, cs(N.rt), links ? cs(N.link) : nullptr, prio ? cs(N.prio) : nullptr, tp.data(), f);
  if (gone || cap < (long)need) { s.label("must fail"); PBT_CHECK(!q, "reading a frame with a missing file or too little place reports success"); }
  else if (v.empty()) PBT_CHECK(!q || g.num_parts == 0, "an empty frame has %d particles", g.num_parts);
  else { PBT_CHECK(q, "reading reports failure"); PBT_CHECK(g.num_parts == (int)v.size(), "read %d particles of %zu", g.num_parts, v.size()); check_parts(v, v.size(), g.path_info, g.correspond, links, prio); for (int c = 0; c < cams; c++) { PBT_CHECK(g.num_targets[c] == (int)T[c].size(), "camera %d: %d targets", c, g.num_targets[c]); for (size_t k = 0; k < T[c].size(); k++) PBT_CHECK(same(g.targets[c][k], via_file(T[c][k])), "camera %d target %zu is %s", c, k, show(g.targets[c][k]).c_str()); } }
  free_frame(&g); PBT_CHECK(fdprobe() == fd, "a file was left open"); clean(N, f); for (auto& b : tb) unlink(targets_name(b, f).c_str());
}

// files whose size is about a multiple of the block the C library hands to the system, on a device without space
PBT_SUB(full_device, 4000, 100000) {
  Names N = gen_names(s); N.has_prio = true; int which = (int)s.draw(3), f = gen_frame(s); std::string fn[4] = {frame_name(N.rt, f), frame_name(N.link, f), frame_name(N.prio, f), targets_name(N.rt + "t", f)}; std::string tb = N.rt + "t"; clean(N, f); unlink(fn[3].c_str());
  long want = 4096 * s.i(1, 3) + (s.chance(3, 4) ? 0 : s.i0(-2, 2)); std::vector<P> p; std::vector<corres> c; std::vector<target> t; auto grow = [&](size_t n) { P q; memset(&q, 0, sizeof q); q.prev = q.next = -1; q.prio = 1; corres o; memset(&o, 0, sizeof o); target g; memset(&g, 0, sizeof g); p.resize(n, q); c.resize(n, o); t.resize(n, g); };
  auto write = [&](bool) { return which == 3 ? write_targets(t.data(), (int)t.size(), cs(tb), f) : write_path_frame(c.data(), p.data(), (int)p.size(), cs(N.rt), cs(N.link), cs(N.prio), f); };
  auto size = [&] { PBT_CHECK(write(true), "writing reports failure"); return (long)pbt::slurp(fn[which]).size(); };
  grow(20); long a = size(); grow(40); double line = (size() - a) / 20.; size_t n = std::max(20., 20 + floor((want - a) / line) - 1); grow(n); long rest = want - size(); while (rest > 2 * line && n < 999) { grow(++n); rest = want - size(); }
  static const int wide[7] = {1, 10000, 100000, 1000000, 10000000, 100000000, 1000000000}; for (size_t k = 0; k < n && rest > 0; k++) { int d = (int)std::min(6l, rest); rest -= d; p[k].prev = wide[d]; c[k].p[0] = wide[d]; t[k].tnr = wide[d]; }
  long got = size(); s.note("frame %d, %zu lines, file %d of %ld bytes on a full device", f, n, which, got); s.label(got % 4096 == 0 ? "whole blocks" : "other size"); s.nontrivial(); int fd = fdprobe();
  unlink(fn[which].c_str()); PBT_CHECK(symlink("/dev/full", fn[which].c_str()) == 0, "machinery: symlink"); int r = write(false); unlink(fn[which].c_str()); clean(N, f); unlink(fn[3].c_str());
  PBT_CHECK(!r, "a file that could not be written is reported as written"); PBT_CHECK(fdprobe() == fd, "a file was left open");
}

PBT_SUB(long_names, 5000, 100000) {
  size_t l = s.i(200, 400); auto v = gen_parts(s, 1); Exact<P> p(v.size()); Exact<corres> c(v.size()); load(s, v, p, c); Names N; int which = (int)s.draw(2); std::string b = pbt::scratch() + "/"; while (b.size() < l) b += b.size() % 50 == 49 ? "/" : "y"; N.rt = pbt::scratch() + "/rt"; N.link = pbt::scratch() + "/pt"; N.prio = pbt::scratch() + "/ad"; (which == 0 ? N.rt : which == 1 ? N.link : N.prio) = b; int f = gen_frame(s); s.nontrivial(); s.note("name %d of %zu characters", which, l); int fd = fdprobe();
  PBT_CHECK(!write_path_frame(c.p, p.p, (int)v.size(), cs(N.rt), cs(N.link), cs(N.prio), f), "writing to a missing directory reports success"); PBT_CHECK(read_path_frame(c.p, p.p, cs(N.rt), cs(N.link), cs(N.prio), f) == -1, "reading from a missing directory reports success"); PBT_CHECK(fdprobe() == fd, "a file was left open"); clean(N, f);
}
