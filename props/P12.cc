// P12: target files give back the targets that were written.
#include "files.h"

static std::vector<target> gen_list(Src& s) {
  int n = s.chance(1, 6) ? 0 : s.chance(1, 40) ? (int)s.i(100, 1500) : (int)s.i(1, 12);
  std::vector<target> v; for (int k = 0; k < n; k++) v.push_back(gen_target(s));
  s.label(n == 0 ? "targets:0" : n < 100 ? "targets:1-12" : "targets:100+"); return v;
}
static void dump(Src& s, const std::vector<target>& v) { for (size_t k = 0; k < v.size() && k < 6; k++) s.note(" %s", show(v[k]).c_str()); if (v.size() > 6) s.note(" ... %zu", v.size()); }
static void write_ok(std::vector<target> v, const std::string& base, int frame) {
  auto in = v; PBT_CHECK(write_targets(v.data(), (int)v.size(), (char*)base.c_str(), frame), "writing %zu targets reports failure", v.size());
  for (size_t k = 0; k < v.size(); k++) PBT_CHECK(same(v[k], in[k]), "writing changed target %zu", k);
}

PBT_SUB(roundtrip, 60000, 1500000) {
  Locale L(s); auto v = gen_list(s); std::string base = gen_base(s, "cam"); int frame = gen_frame(s); s.note("frame %d, base length %zu:", frame, base.size()); dump(s, v);
  s.label(frame > 9999 ? "frame:5+ digits" : frame > 0 ? "frame:positive" : "frame:none"); if (v.size()) s.nontrivial();
  std::string file = targets_name(base, frame); unlink(file.c_str()); int fd = fdprobe();
  write_ok(v, base, frame);
  struct stat st; PBT_CHECK(stat(file.c_str(), &st) == 0, "no file by the documented name (frame %d)", frame);
  // the file, read by an independent parser
  auto t = tokens(pbt::slurp(file)); PBT_CHECK(t.size() == 1 + 8 * v.size() && t[0] == std::to_string(v.size()), "the file has %zu values for %zu targets", t.size(), v.size());
  for (size_t k = 0; k < v.size(); k++) { const std::string* w = &t[1 + 8 * k]; target e = via_file(v[k]); int f[6] = {e.pnr, e.n, e.nx, e.ny, e.sumg, e.tnr}; int at[6] = {0, 3, 4, 5, 6, 7};
    for (int i = 0; i < 6; i++) PBT_CHECK(w[at[i]] == std::to_string(f[i]), "target %zu: column %d of the file is %s, written %d", k, at[i], w[at[i]].c_str(), f[i]);
    PBT_CHECK(strtod(w[1].c_str(), 0) == e.x && strtod(w[2].c_str(), 0) == e.y, "target %zu: position in the file is %s %s", k, w[1].c_str(), w[2].c_str()); }
  int extra = (int)s.i(0, 3); Exact<target> buf(v.size() + extra); target mark; memset(&mark, 0x5a, sizeof mark);
  int n = read_targets(buf.p, (char*)base.c_str(), frame); PBT_CHECK(n == (int)v.size(), "read %d targets of %zu", n, v.size());
  for (int k = 0; k < n; k++) { target e = via_file(v[k]); PBT_CHECK(same(buf[k], e), "target %d is %s, written %s", k, show(buf[k]).c_str(), show(e).c_str()); }
  for (int k = 0; k < extra; k++) PBT_CHECK(!memcmp(&buf[v.size() + k], &mark, sizeof mark), "the buffer behind the targets was changed");
  // what was read writes the same file again
  std::string was = pbt::slurp(file); std::vector<target> r(buf.p, buf.p + n); write_ok(r, base, frame); PBT_CHECK(pbt::slurp(file) == was, "the targets read do not give the same file");
  if (v.size()) { long max = s.i(0, (long)v.size()); Exact<target> small(max); n = read_targets_limited(small.p, (int)max, (char*)base.c_str(), frame); PBT_CHECK(n == (max < (long)v.size() ? -1 : (int)v.size()), "result %d when reading %zu targets to a buffer of %ld", n, v.size(), max); }
  PBT_CHECK(fdprobe() == fd, "a file was left open"); unlink(file.c_str());
}

PBT_SUB(malformed, 60000, 1500000) {
  Locale L(s); auto v = gen_list(s); std::string base = gen_base(s, "cam"); int frame = gen_frame(s); std::string file = targets_name(base, frame); write_ok(v, base, frame);
  std::string txt = pbt::slurp(file); auto t = tokens(txt); size_t need = t.size(); int kind = (int)s.draw(5); bool must_fail = true; const char* garbage = s.one({"x", "nil", "-", "#", "*", "..", "a1", ","});
  switch (kind) {
    case 0: { size_t cut = s.draw(txt.size() - 1); txt.resize(cut); auto u = tokens(txt); must_fail = u.size() < need || !(u.size() == 1 ? is_int(u.back()) : is_int(u.back())); s.note("file cut at byte %zu of frame %d", cut, frame); s.label("truncated"); break; }
    case 1: { size_t k = s.draw(t.size() - 1); t[k] = garbage; txt.clear(); for (auto& w : t) txt += w + (&w == &t[0] ? "\n" : " "); s.note("value %zu replaced by '%s'", k, garbage); s.label(k ? "bad value" : "bad count"); break; }
    case 2: { int more = (int)s.i(1, 5); txt = std::to_string(v.size() + more) + txt.substr(txt.find('\n')); s.note("count %zu for %zu targets", v.size() + more, v.size()); s.label("count too large"); break; }
    case 3: { txt = std::to_string(-(long)s.i(1, 5)) + txt.substr(txt.find('\n')); s.note("negative count"); s.label("negative count"); break; }
    case 4: { txt = s.b() ? "" : s.b() ? "\n\n" : "targets\n"; s.note("no count"); s.label("empty"); break; }
    default: { int less = v.size() ? (int)s.i(0, (long)v.size()) : 0; txt = std::to_string(less) + txt.substr(txt.find('\n')); v.resize(less); must_fail = false; s.note("count %d lower than the lines", less); s.label("count smaller"); }
  }
  s.nontrivial(); dump(s, v); pbt::spew(file, txt); int fd = fdprobe(); Exact<target> buf(v.size() + 5); int n = read_targets(buf.p, (char*)base.c_str(), frame);
  if (must_fail) PBT_CHECK(n == -1, "a malformed file is read as %d targets", n);
  else { PBT_CHECK(n == (int)v.size() || (kind == 0 && n == -1), "read %d targets of %zu", n, v.size()); for (int k = 0; k + (kind == 0) < n; k++) PBT_CHECK(same(buf[k], via_file(v[k])), "target %d is %s", k, show(buf[k]).c_str()); }
  PBT_CHECK(fdprobe() == fd, "a file was left open"); unlink(file.c_str());
}

PBT_SUB(failures, 20000, 400000) {
  Locale L(s); auto v = gen_list(s); std::string base = gen_base(s, "cam"); int frame = gen_frame(s); int fd = fdprobe(); int kind = (int)s.draw(4); s.nontrivial(); Exact<target> buf(v.size() + 1);
  std::string file = targets_name(base, frame); unlink(file.c_str());
  switch (kind) {
    case 0: s.note("missing file"); s.label("missing"); PBT_CHECK(read_targets(buf.p, (char*)base.c_str(), frame) == -1, "a missing file is read"); break;
    case 1: { s.note("missing directory"); s.label("missing directory"); std::string b = pbt::scratch() + "/none/cam"; PBT_CHECK(!write_targets(v.data(), (int)v.size(), (char*)b.c_str(), frame), "writing to a missing directory reports success"); PBT_CHECK(read_targets(buf.p, (char*)b.c_str(), frame) == -1, "read from a missing directory"); break; }
    case 2: { s.note("full device, %zu targets", v.size()); s.label("disk full"); PBT_CHECK(symlink("/dev/full", file.c_str()) == 0, "machinery: symlink"); int r = write_targets(v.data(), (int)v.size(), (char*)base.c_str(), frame); unlink(file.c_str()); PBT_CHECK(!r, "writing %zu targets to a full device reports success", v.size()); break; }
    case 3: { s.label("name is a directory"); s.note("file name is a directory"); mkdir(file.c_str(), 0700); int r = write_targets(v.data(), (int)v.size(), (char*)base.c_str(), frame), q = read_targets(buf.p, (char*)base.c_str(), frame); rmdir(file.c_str()); PBT_CHECK(!r, "writing to a directory reports success"); PBT_CHECK(q == -1, "a directory was read"); break; }
    default: { size_t l = s.i(200, 600); std::string b = pbt::scratch() + "/"; while (b.size() < l) b += b.size() % 50 == 49 ? "/" : "y"; s.note("base name of %zu characters", l); s.label("long name"); PBT_CHECK(!write_targets(v.data(), (int)v.size(), (char*)b.c_str(), frame), "writing to a missing directory reports success"); PBT_CHECK(read_targets(buf.p, (char*)b.c_str(), frame) == -1, "read from a missing directory"); }
  }
  PBT_CHECK(fdprobe() == fd, "a file was left open");
}
