// Choice-sequence property-based testing engine (generation, execution in forked workers, shrinking, replay).
// Every random decision of a property goes through Src::draw(), which records (bound,value).  A failing case is
// its recorded sequence; shrinking edits that sequence and re-runs it in a forked child, so crashes, sanitizer
// reports and endless loops shrink in the same way as failed assertions.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <array>
#include <unistd.h>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

constexpr size_t MAXCH = 1u << 20;

struct Shared {              // lives in a MAP_SHARED mapping: survives the death of the worker
  volatile uint64_t n;       // number of recorded choices of the current case
  volatile int sub;
  volatile long caseno;
  volatile int status;       // 0 running, 1 ok, 2 failed, 3 discarded
  char msg[8192];
  uint64_t ch[MAXCH];
};

struct Rng {                 // splitmix64/xoshiro-like, self-contained and stable
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
uint64_t mix(uint64_t a, uint64_t b);

struct Src {
  Shared* sh; Rng rng; const std::vector<uint64_t>* rep = nullptr; bool verbose = false; bool want_desc = false;
  std::string desc; bool nontriv = false; std::map<std::string, long>* labels = nullptr; int size = 100;
  // inclusive bound
  uint64_t draw(uint64_t max) {
    uint64_t v; uint64_t k = sh->n;
    if (rep) { v = k < rep->size() ? (*rep)[k] : 0; if (v > max) v = max; }
    else v = max == UINT64_MAX ? rng.next() : rng.next() % (max + 1);
    if (k < MAXCH) sh->ch[k] = v; else throw Discard();
    sh->n = k + 1;
    return v;
  }
  long i(long lo, long hi) { return hi <= lo ? lo : lo + (long)draw((uint64_t)(hi - lo)); }
  long i0(long lo, long hi) {        // shrinks towards zero
    bool neg = lo < 0 && (hi <= 0 || draw(1)); 
    return neg ? -(long)draw((uint64_t)-lo) : (lo > 0 ? i(lo, hi) : (long)draw((uint64_t)hi)); }
  bool b() { return draw(1) != 0; }
  bool chance(int num, int den) { return draw(den - 1) >= (uint64_t)(den - num); }  // shrinks to false
  double u() { return draw((1ull << 40) - 1) / (double)(1ull << 40); }              // [0,1)
  double r(double lo, double hi) { return lo + (hi - lo) * (draw(1ull << 40) / (double)(1ull << 40)); }
  double r0(double lo, double hi) { bool neg = lo < 0 && draw(1); double m = neg ? -lo : hi; double v = m * (draw(1ull << 40) / (double)(1ull << 40)); return neg ? -v : v; }
  // like r0 but sometimes exactly at zero, an end or a round value
  double rs(double lo, double hi) {
    switch (draw(11)) { case 0: return (lo <= 0 && hi >= 0) ? 0. : lo; case 1: return lo; case 2: return hi;
      case 3: { double v = std::floor(r0(lo, hi)); return v < lo ? lo : v > hi ? hi : v; }
      default: return r0(lo, hi); } }
  double logr(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * u()); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  // --- bookkeeping
  void label(const char* s) { if (labels) (*labels)[s]++; }
  void label(const std::string& s) { if (labels) (*labels)[s]++; }
  void nontrivial() { nontriv = true; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void discard() { throw Discard(); }
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define PBT_CHECK(c, ...) do { if (!(c)) pbt::fail(__VA_ARGS__); } while (0)

struct Sub { const char* name; int weight_quick; int weight_thorough; void (*fn)(Src&); };
struct Reg { Reg(const char* name, int wq, int wt, void (*fn)(Src&)); };
// quick/thorough = number of cases over all workers
#define PBT_SUB(name, quick, thorough) \
  static void name(pbt::Src&); static pbt::Reg reg_##name(#name, quick, thorough, name); static void name(pbt::Src& s)

// closeness helpers
inline bool close(double a, double b, double atol, double rtol = 0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b)); }

const std::string& scratch();      // per-process scratch directory (created on demand, removed by the runner)
std::string slurp(const std::string& path);
void spew(const std::string& path, const std::string& data);

}  // namespace pbt
