// Texts of every kind of input file, and their mutations.
#pragma once
#include "files.h"
#include "frames.h"
extern "C" {
#include "image_processing.h"
#include "orientation.h"
#include "sortgrid.h"
}
static char* cs(const std::string& a) { return (char*)a.c_str(); }
static std::string value(Src& s, char k) {
  char b[420];
  if (k == 's') { std::string t; int n = s.chance(1, 15) ? (int)s.i(200, 300) : (int)s.i(1, 12); for (int j = 0; j < n; j++) t += "abc01/._-%"[s.draw(9)]; return t; }
  if (k == 'i') { snprintf(b, sizeof b, "%ld", s.chance(1, 10) ? s.i0(-100000, 100000) : s.i(0, 40)); return b; }
  snprintf(b, sizeof b, s.one({"%.4f", "%g", "%.10e", "%.0f"}), s.r0(-300, 300)); return b;
}
static const std::vector<std::string> WEIRD = {"", "-", "+", ".", "e", "x", "nan", "inf", "-inf", "1e", "1e999", "-1e-999", "0x1p3", "0x", "--1", "1.2.3", "2147483647", "-2147483648", "2147483648", "99999999999999999999999", "-1", "0", "1,5", "%n", "%s%s%s", "1e308", "4.9e-324", "00000000000000000000000007"};
// a text of values, `per` of them in a line
static std::string text(Src& s, const std::string& kinds, int per) { std::string t; for (size_t k = 0; k < kinds.size(); k++) { t += value(s, kinds[k]); t += (int)(k + 1) % per ? ' ' : '\n'; } return t; }
static std::string count_text(Src& s, int n, const std::string& kinds) { std::string t = std::to_string(n) + "\n"; for (int k = 0; k < n; k++) t += text(s, kinds, (int)kinds.size()); return t; }

static std::string mutate(Src& s, std::string t) {
  std::string original = t;
  int n = (int)s.draw(5); if (n == 0) s.label("unchanged");
  for (int k = 0; k < n; k++) {
    size_t p = t.empty() ? 0 : s.draw(t.size()); auto end = [&](size_t q) { while (q < t.size() && !isspace((unsigned char)t[q])) q++; return q; }; auto beg = [&](size_t q) { while (q > 0 && !isspace((unsigned char)t[q - 1])) q--; return q; };
    switch (s.draw(14)) {
      case 0: t.resize(p); s.label("cut"); break;
      case 1: if (p < t.size()) t[p] = (char)s.draw(255); s.label("byte"); break;
      case 2: t.insert(p, 1, (char)s.draw(255)); s.label("byte"); break;
      case 3: { size_t l = std::min<size_t>(t.size() - p, s.i(1, 20)); t.erase(p, l); s.label("erased"); break; }
      case 4: { size_t b = beg(p), e = end(p); t.replace(b, e - b, s.pick(WEIRD)); s.label("value"); break; }
      case 5: { size_t b = beg(p), e = end(p); t.replace(b, e - b, std::string(s.one({239, 240, 241, 255, 256, 257, 1024, 5000, 70000}), s.one({'9', 'a', '0', '-', '.', '\0'}))); s.label("long value"); break; }
      case 6: { size_t l = std::min<size_t>(t.size() - p, s.i(1, 200)); std::string q = t.substr(p, l); t.insert(s.draw(t.size()), q); s.label("repeated"); break; }
      case 7: { size_t e = t.find('\n'); std::string h = std::to_string(s.one<long>({0, 1, 2, 3, 5, 100, 4095, 4096, 20000, 1000000, 2147483647, -1, -2147483647, 4294967296L, 4294967297L})); t.replace(0, e == std::string::npos ? t.size() : e, h); s.label("count"); break; }
      case 8: { size_t q = 0; while ((q = t.find('\n', q)) != std::string::npos) { t.replace(q, 1, s.one({"\r\n", "\r", " ", "", "\n\n", "\v", "\f"})); q += 1; } s.label("line ends"); break; }
      case 9: t.insert(p, std::string(s.i(1, 300), s.one({' ', '\n', '\t', '\0', '\r'}))); s.label("space"); break;
      case 10: { size_t e = t.find('\n', p); if (e != std::string::npos) { size_t b = p ? t.rfind('\n', p - 1) : std::string::npos; b = b == std::string::npos ? 0 : b + 1; std::string l = t.substr(b, e + 1 - b); if (s.b()) t.erase(b, l.size()); else t.insert(b, l); } s.label("line"); break; }
      case 11: t += s.b() ? t : std::string("\x1a\xff\xfe# end"); s.label("appended"); break;
      case 12: t = "\xef\xbb\xbf" + t; s.label("byte order mark"); break;
      case 13: { for (auto& c : t) if (s.chance(1, 20)) c = (char)s.draw(255); s.label("noise"); break; }
      default: { t.clear(); int m = (int)s.i(0, 60); for (int j = 0; j < m; j++) t += (char)s.draw(255); s.label("random bytes"); }
    }
    if (t.size() > 300000) t.resize(300000);
  }
  if (t != original) s.nontrivial();
  return t;
}
static void note(Src& s, const std::string& t) { std::string u = t.substr(0, 400); for (auto& c : u) if (c == '\n') c = '|'; else if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?'; s.note("%zu bytes: %s", t.size(), u.c_str()); }
// how many records of the kinds a text holds after its first number, read by the same rules but without any limit
static int held(const std::string& t, const char* fmt_kinds, bool header) {
  if (t.empty()) return 0;
  FILE* f = fmemopen((void*)t.data(), t.size(), "r"); int n = 0, i; double d; bool ok = !header || fscanf(f, "%d", &i) == 1;
  while (ok) { for (const char* k = fmt_kinds; *k && ok; k++) ok = (*k == 'i' ? fscanf(f, "%d", &i) : fscanf(f, "%lf", &d)) == 1; if (ok) n++; }
  fclose(f); return n;
}
struct File { std::string name, txt; int fd; File(Src& s, const std::string& n, const std::string& t) : name(n), txt(t) { pbt::spew(name, txt); note(s, txt); fd = fdprobe(); } void done() { PBT_CHECK(fdprobe() == fd, "a file was left open"); PBT_CHECK(pbt::slurp(name) == txt, "reading changed the file"); unlink(cs(name)); } };
static std::string fuzzed(Src& s, const std::string& kinds, int per = 1) { std::string t = mutate(s, text(s, kinds, per)); return t; }
static std::string I(int n) { return std::string(n, 'i'); }
static std::string D(int n) { return std::string(n, 'd'); }

struct Triple { std::string cb, lb, pb; bool link, prio; std::vector<std::string> names; int h; int frame;
  Triple(Src& s, int n, bool hurt = true) { frame = (int)s.i(0, 12000); cb = gen_base(s, "rt"); lb = workdir() + "/ptv"; pb = workdir() + "/added"; link = s.b(); prio = s.chance(1, 3); std::string a = count_text(s, n, "idddiiii"), b = count_text(s, n, "iiddd"), c = count_text(s, n, "iidddi"); int which = hurt ? (int)s.draw(3) : 9; if (which == 0 || which == 3) a = mutate(s, a); if (which == 1 || which == 3) b = mutate(s, b); if (which == 2 || which == 3) c = mutate(s, c); note(s, a); if (link) note(s, b); if (prio) note(s, c);
    names = {frame_name(cb, frame), frame_name(lb, frame), frame_name(pb, frame)}; pbt::spew(names[0], a); if (link) pbt::spew(names[1], b); if (prio) pbt::spew(names[2], c); h = held(a, "idddiiii", true); if (link) h = std::min(h, held(b, "iiddd", true)); if (prio) h = std::min(h, held(c, "iidddi", true)); }
  char* L() { return link ? cs(lb) : nullptr; } char* Q() { return prio ? cs(pb) : nullptr; } ~Triple() { for (auto& n : names) unlink(cs(n)); } };
