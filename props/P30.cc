// build: plain wrap=malloc,realloc
// P30: what an operation returns depends on its arguments alone.  An operation is run, then others on other arguments, then again with other
// rubbish in the memory it will get from the heap and on the stack: the result must be the same to the last bit.
#include "ops.h"
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); size_t __sanitizer_get_allocated_size(const volatile void*);
static unsigned char rubbish = 0x5a;
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) memset(p, rubbish, n); return p; }
void* __wrap_realloc(void* q, size_t n) { size_t had = q ? __sanitizer_get_allocated_size(q) : 0; void* p = __real_realloc(q, n); if (p && n > had) memset((char*)p + had, rubbish, n - had); return p; }
}
__attribute__((noinline, no_sanitize("address"))) static void stain(int v) { volatile unsigned char b[200000]; for (size_t k = 0; k < sizeof b; k++) b[k] = (unsigned char)v; }
typedef void (*Op)(Src&, Use);
static const Op OPS[] = {op_image, op_reconstruct, op_calibrate, op_track, op_read, op_frame, op_buffer, op_match, op_write, op_run};
static void any(Src& s, int depth, Use use) { work_in = depth ? "in" + std::to_string(depth) : ""; int k = (int)s.draw(29); OPS[k < 9 ? k : k < 10 ? 9 : k < 20 ? k % 3 : k % 6](s, use); work_in = depth > 1 ? "in" + std::to_string(depth - 1) : ""; }
static const int R[] = {0x00, 0xff, 0x5a, 0x01, 0x7f, 0x3f, 0x41};
static std::string run(Src& s, std::function<std::string()>& op) { rubbish = (unsigned char)s.pick(std::vector<int>(R, R + 7)); dirt = (unsigned char)s.pick(std::vector<int>(R, R + 7)); stain(s.pick(std::vector<int>(R, R + 7))); std::string r = op(); rubbish = 0x5a; return r; }
static void again(Src& s, int depth, const char* what, std::function<std::string()> op, Op same = nullptr) {
  std::string a = run(s, op), b; int n = 0;
  for (int k = 0, m = depth < 2 ? (int)s.i(0, 2) : 0; k < m; k++) any(s, depth + 1, [&](const char* w, std::function<std::string()> o) { n++; again(s, depth + 1, w, o); work_in = depth ? "in" + std::to_string(depth) : ""; std::string c = run(s, op); PBT_CHECK(c == a, "%s: another result after %s", what, w); work_in = "in" + std::to_string(depth + 1); });
  work_in = depth ? "in" + std::to_string(depth) : ""; if (Vary* v = Vary::now()) if (!v->at.empty() && s.b()) {                                // the same objects with other contents, and as they were
    std::vector<std::string> old; for (auto& p : v->at) old.emplace_back((char*)p.p, p.n); for (int k = 0, m = (int)s.i(1, 3); k < m; k++) v->at[s.draw(v->at.size() - 1)].change(s); std::string c = run(s, op);
    if (same && s.b()) { work_in = "in9"; same(s, [&](const char*, std::function<std::string()> o) { run(s, o); }); work_in = depth ? "in" + std::to_string(depth) : ""; std::string e = run(s, op); PBT_CHECK(e == c, "%s: with values changed in place, another result after the same operation on others", what); s.label("other values, others between"); }
    for (size_t k = 0; k < old.size(); k++) memcpy(v->at[k].p, old[k].data(), old[k].size()); s.label("after other values in the same place"); }
  b = run(s, op); size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) d++; PBT_CHECK(a == b, "%s: another result when repeated%s (at byte %zu of %zu and %zu)", what, n ? " after other operations" : "", d, a.size(), b.size()); if (n) s.label("after others"); s.nontrivial(); }
#define PB2(n, q, t) PBT_SUB(n, q, t)
#define ALONE(name, q, t) PB2(each_##name, q, t) { work_in = ""; op_##name(s, [&](const char* w, std::function<std::string()> o) { again(s, 2, w, o, op_##name); }); }
ALONE(read, 10000, 300000) ALONE(write, 2000, 50000) ALONE(frame, 4000, 100000) ALONE(buffer, 1500, 40000) ALONE(track, 1200, 30000) ALONE(run, 200, 6000) ALONE(match, 800, 20000) ALONE(reconstruct, 10000, 300000) ALONE(calibrate, 4000, 100000) ALONE(image, 20000, 500000)
PBT_SUB(mixed, 4000, 120000) { any(s, 0, [&](const char* w, std::function<std::string()> o) { again(s, 0, w, o); }); }
