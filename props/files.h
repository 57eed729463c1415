// Shared helpers for the text-file properties: target lists, frames, fd probe, token view of a file.
#pragma once
#include "common.h"
#include <climits>
#include <sys/stat.h>
#include <fcntl.h>

static std::string work_in;      // a directory inside the scratch directory, where operations work within operations
static inline std::string workdir() { if (work_in.empty()) return pbt::scratch(); std::string d = pbt::scratch() + "/" + work_in; mkdir(d.c_str(), 0700); return d; }
static inline int fdprobe() { int f = dup(2); close(f); return f; }        // lowest free descriptor: grows when a file stays open
static inline double rounded(double v, const char* fmt) { char b[400]; snprintf(b, sizeof b, fmt, v); return strtod(b, nullptr); }
static inline std::vector<std::string> tokens(const std::string& t) { std::vector<std::string> r; std::istringstream is(t); std::string w; while (is >> w) r.push_back(w); return r; }
static inline bool is_int(const std::string& t) { size_t k = (t.size() && (t[0] == '-' || t[0] == '+')) ? 1 : 0; if (k == t.size()) return false; for (; k < t.size(); k++) if (!isdigit((unsigned char)t[k])) return false; return true; }
static inline bool is_num(const std::string& t) { if (t.empty()) return false; char* e; strtod(t.c_str(), &e); return *e == 0; }

static inline int gen_int(Src& s) {
  switch (s.draw(7)) { case 0: return (int)s.i0(-999, 99999); case 1: return -1; case 2: return s.one({0, 9999, 10000, 99999, 100000, 123456, -999, 2147483647, -2147483647}); default: return (int)s.i(0, 3000); }
}
static inline double gen_pos(Src& s) {
  switch (s.draw(9)) { case 0: return s.r0(-1e5, 1e6); case 1: return s.one({0., -0.00004, 0.99995, 999.99996, 9999.9999, 99999.99999, -999.9999, 1234567.8901}); case 2: return (double)s.i0(-2000, 9000); default: return s.r(0, 2000); }
}
static inline target gen_target(Src& s) {
  target t; t.pnr = gen_int(s); t.x = gen_pos(s); t.y = gen_pos(s); t.n = gen_int(s); t.nx = gen_int(s); t.ny = gen_int(s); t.sumg = gen_int(s); t.tnr = s.b() ? -1 : gen_int(s); return t;
}
static inline std::string show(const target& t) { char b[300]; snprintf(b, 300, "(%d %.10g %.10g %d %d %d %d %d)", t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr); return b; }
static inline bool same(const target& a, const target& b) { return a.pnr == b.pnr && a.x == b.x && a.y == b.y && a.n == b.n && a.nx == b.nx && a.ny == b.ny && a.sumg == b.sumg && a.tnr == b.tnr; }
static inline target via_file(target t) { t.x = rounded(t.x, "%.4f"); t.y = rounded(t.y, "%.4f"); return t; }
static inline std::string gen_base(Src& s, const char* stem) {             // a base name inside the scratch directory
  std::string b = workdir() + "/"; 
  switch (s.draw(4)) { case 0: b += std::string(stem) + "1."; break; case 1: b += std::string(stem) + " with space."; break; case 2: b += std::string(stem) + std::string(s.i(1, 100), 'x'); break; default: b += stem; }
  return b;
}
static inline std::string targets_name(const std::string& base, int frame) { char b[30]; snprintf(b, 30, "%04d", frame); return base + (frame > 0 ? b : "") + "_targets"; }
static inline int gen_frame(Src& s) { switch (s.draw(6)) { case 0: return 0; case 1: return -(int)s.i(1, 5); case 2: return s.one({9, 10, 999, 1000, 9999, 10000, 99999, 123456, 2147483647}); default: return (int)s.i(1, 20000); } }
template <class T> struct Exact {     // heap array of exactly n elements, so that ASan sees any access outside
  T* p; size_t n; Exact(size_t n) : p((T*)malloc(n ? n * sizeof(T) : 1)), n(n) { if (n) memset(p, 0x5a, n * sizeof(T)); } ~Exact() { free(p); } T& operator[](size_t k) { return p[k]; }
  Exact(const Exact&) = delete; };

// Some cases run the library in an environment whose numbers have decimal commas (as a GUI toolkit may set): files keep decimal points.
#include <locale.h>
extern "C" {
#include "orientation.h"
#include "sortgrid.h"
#include "tracking_frame_buf.h"
#include "tracking_run.h"
#include "track.h"
}
static bool comma_on = false;
struct Locale { Locale(Src& s, int of = 5) { if (s.chance(1, of)) { static int have = -1; if (have < 0) { setenv("LOCPATH", LOCDIR, 1); have = setlocale(LC_NUMERIC, "de_DE.UTF-8") != nullptr; setlocale(LC_NUMERIC, "C"); } comma_on = have; s.note(" with decimal commas in the environment;"); s.label(have ? "locale:comma" : "locale:comma not installed"); } else comma_on = false; } ~Locale() { comma_on = false; setlocale(LC_NUMERIC, "C"); } };
template <class F> auto in_locale(F f) -> decltype(f()) { if (comma_on) setlocale(LC_NUMERIC, "de_DE.UTF-8"); auto r = f(); if (comma_on) setlocale(LC_NUMERIC, "C"); return r; }
#define LOC(f, ...) in_locale([&] { return f(__VA_ARGS__); })
#define read_targets(...) LOC(read_targets, __VA_ARGS__)
#define read_targets_limited(...) LOC(read_targets_limited, __VA_ARGS__)
#define write_targets(...) LOC(write_targets, __VA_ARGS__)
#define read_path_frame(...) LOC(read_path_frame, __VA_ARGS__)
#define read_path_frame_limited(...) LOC(read_path_frame_limited, __VA_ARGS__)
#define write_path_frame(...) LOC(write_path_frame, __VA_ARGS__)
#define read_frame(...) LOC(read_frame, __VA_ARGS__)
#define write_frame(...) LOC(write_frame, __VA_ARGS__)
#define read_ori(...) LOC(read_ori, __VA_ARGS__)
#define read_calibration(...) LOC(read_calibration, __VA_ARGS__)
#define write_calibration(...) LOC(write_calibration, __VA_ARGS__)
#define read_track_par(...) LOC(read_track_par, __VA_ARGS__)
#define read_volume_par(...) LOC(read_volume_par, __VA_ARGS__)
#define read_control_par(...) LOC(read_control_par, __VA_ARGS__)
#define read_calblock(...) LOC(read_calblock, __VA_ARGS__)
#define read_man_ori_fix(...) LOC(read_man_ori_fix, __VA_ARGS__)
