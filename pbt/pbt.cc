#include "pbt.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <ftw.h>

namespace pbt {
static std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
Reg::Reg(const char* name, int wq, int wt, void (*fn)(Src&)) { subs().push_back({name, wq, wt, fn}); }
uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next(); }
void fail(const char* fmt, ...) { char buf[6000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); throw Fail{buf}; }
void Src::note(const char* fmt, ...) { if (!want_desc) return; char buf[4000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); if (desc.size() < 6000) desc += buf; }

static std::string g_scratch_root;
static std::string g_scratch;
const std::string& scratch() {
  static pid_t owner = 0;
  if (owner != getpid()) { owner = getpid(); char b[300]; snprintf(b, sizeof b, "%s/p%d", g_scratch_root.c_str(), (int)owner); mkdir(b, 0700); g_scratch = b; }
  return g_scratch;
}
std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void spew(const std::string& p, const std::string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(99); } fwrite(d.data(), 1, d.size(), f); fclose(f); }
static int rmcb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void rmtree(const std::string& d) { nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }

static Shared* newshared() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shared*)p; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int g_cpu_limit = 60;
static void on_vt(int) { static const char m[] = "endless loop: case exceeded its CPU limit\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
static void arm() { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_cpu_limit; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

// runs one case; returns status
static int run_case(Src& s, int sub) {
  Shared* sh = s.sh; sh->n = 0; sh->sub = sub; sh->status = 0; sh->msg[0] = 0; s.desc.clear(); s.nontriv = false;
  arm();
  try { subs()[sub].fn(s); sh->status = 1; }
  catch (const Fail& f) { strncpy(sh->msg, f.msg.c_str(), sizeof sh->msg - 1); sh->status = 2; }
  catch (const Discard&) { sh->status = 3; }
  return sh->status;
}

struct Res { bool bad; std::vector<uint64_t> ch; std::string msg; std::string desc; int rc; };
static std::string g_errfile;
static bool g_quiet = true;
static Shared* g_sh1 = nullptr;
static char* g_descbuf = nullptr;
static Res run_forked(int sub, const std::vector<uint64_t>& ch, bool verbose = false) {
  if (!g_sh1) { g_sh1 = newshared(); g_descbuf = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  g_descbuf[0] = 0; g_sh1->status = 0; g_sh1->msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    int ef = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(ef, 2);
    signal(SIGVTALRM, on_vt);
    Src s; s.sh = g_sh1; s.rep = &ch; s.verbose = verbose; s.want_desc = true;
    int st = run_case(s, sub);
    strncpy(g_descbuf, s.desc.c_str(), (1 << 16) - 1);
    _exit(st == 2 ? 42 : 0);
  }
  int ws; while (waitpid(pid, &ws, 0) < 0) ;
  char sd[400]; snprintf(sd, sizeof sd, "%s/p%d", g_scratch_root.c_str(), (int)pid); rmtree(sd);
  Res r; r.rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 128 + WTERMSIG(ws);
  r.bad = r.rc != 0; r.ch.assign(g_sh1->ch, g_sh1->ch + std::min<uint64_t>((uint64_t)g_sh1->n, MAXCH));
  r.desc = g_descbuf;
  if (r.rc == 42) r.msg = g_sh1->msg;
  else if (r.bad) { std::string e = slurp(g_errfile); if (e.size() > 5000) e.resize(5000); r.msg = "process died (exit " + std::to_string(r.rc) + "): " + e; }
  return r;
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; }

static Res shrink(int sub, Res best, double budget) {
  double t0 = now(); long tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& c) { if (now() - t0 > budget) return false; tries++; Res r = run_forked(sub, c);
    if (r.bad && simpler(r.ch, best.ch)) { best = r; return true; } return false; };
  // shorten from the tail: unused suffix is truncated automatically because r.ch records what was drawn
  bool improved = true;
  while (improved && now() - t0 < budget) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.ch.size() / 2); len >= 1; len /= 2) {           // delete chunks
      for (size_t p = 0; p + len <= best.ch.size() && now() - t0 < budget;) {
        auto c = best.ch; c.erase(c.begin() + p, c.begin() + p + len);
        if (attempt(c)) improved = true; else p += len > 4 ? len / 2 : 1; }
      if (len == 1) break; }
    for (size_t len = std::max<size_t>(1, best.ch.size() / 2); len >= 1; len /= 2) {           // zero chunks
      for (size_t p = 0; p + len <= best.ch.size() && now() - t0 < budget; p += len) {
        auto c = best.ch; bool any = false; for (size_t k = p; k < p + len; k++) if (c[k]) any = true, c[k] = 0;
        if (any && attempt(c)) improved = true; }
      if (len == 1) break; }
    for (size_t p = 0; p < best.ch.size() && now() - t0 < budget; p++) {                       // lower single values
      uint64_t hi = best.ch[p]; if (!hi) continue; uint64_t lo = 0;
      while (lo < hi && now() - t0 < budget) { uint64_t m = lo + (hi - lo) / 2; if (p >= best.ch.size()) break; auto c = best.ch; c[p] = m;
        if (attempt(c)) { improved = true; if (p >= best.ch.size()) break; hi = std::min(m, best.ch[p]); } else lo = m + 1; }
      if (p + 1 < best.ch.size() && best.ch[p]) { auto c = best.ch; c[p]--; c.erase(c.begin() + p + 1); if (attempt(c)) improved = true; } }
  }
  return best;
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Stats { long evals = 0, nontriv = 0, discarded = 0; std::map<std::string, long> labels; std::map<std::string, long> persub; std::vector<std::string> samples; };

static void worker(int w, int nw, uint64_t seed, bool thorough, double scale, double maxsec, const std::string& only, Shared* sh, const std::string& outp) {
  int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
  std::string ef = outp + ".err"; int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2);
  signal(SIGVTALRM, on_vt);
  Stats st; std::unordered_set<uint64_t> seen; double t0 = now(); bool timedout = false; int rc = 0;
  // interleave subs so that a time budget hit still covers all of them
  std::vector<long> total, done; auto& S = subs();
  for (auto& x : S) { long t = (long)((thorough ? x.weight_thorough : x.weight_quick) * scale); t = (t + nw - 1 - w) / nw; if (!only.empty() && only != x.name) t = 0; total.push_back(t); done.push_back(0); }
  bool more = true;
  while (more && !rc && !timedout) {
    more = false;
    // advance each sub by 1/64 of its total per round
    for (size_t k = 0; k < S.size() && !rc && !timedout; k++) {
      long step = std::max<long>(1, total[k] / 64);
      for (long j = 0; j < step && done[k] < total[k]; j++) {
        long id = done[k]++; Src s; s.sh = sh; sh->caseno = id; s.rng = Rng(mix(mix(seed, 1000003 * (k + 1)), (uint64_t)id * nw + w)); s.labels = &st.labels;
        s.want_desc = (id % 211 == 7 || id < 2) && st.samples.size() < 12;
        int r = run_case(s, (int)k);
        st.evals++; st.persub[S[k].name]++;
        if (r == 3) st.discarded++;
        else if (s.nontriv) { uint64_t h = 1469598103934665603ull ^ k; uint64_t n = sh->n; for (uint64_t q = 0; q < n; q++) h = (h ^ sh->ch[q]) * 1099511628211ull, h ^= h >> 29;
          if (seen.insert(h).second) st.nontriv++;
          if (s.want_desc && !s.desc.empty() && r == 1) st.samples.push_back(std::string(S[k].name) + ": " + s.desc); }
        if (r == 2) { rc = 42; break; }
        if ((id & 15) == 0 && now() - t0 > maxsec) { timedout = true; break; }
      }
      if (done[k] < total[k]) more = true;
    }
  }
  FILE* f = fopen(outp.c_str(), "w");
  fprintf(f, "{\"evals\":%ld,\"nontriv\":%ld,\"discarded\":%ld,\"timedout\":%s,\"persub\":{", st.evals, st.nontriv, st.discarded, timedout ? "true" : "false");
  bool first = true; for (auto& p : st.persub) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", p.first.c_str(), p.second); first = false; }
  fprintf(f, "},\"labels\":{"); first = true; for (auto& p : st.labels) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
  fprintf(f, "},\"samples\":["); first = true; for (auto& p : st.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(p).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  _exit(rc);
}

static std::string fmt_replay(const std::string& prop, int sub, const Res& r) {
  std::string o = "property " + prop + "\nsub " + subs()[sub].name + "\nchoices"; for (auto v : r.ch) o += " " + std::to_string(v); o += "\n";
  std::stringstream ss("failure: " + r.msg + "\ncase: " + r.desc); std::string l; while (std::getline(ss, l)) o += "# " + l + "\n";
  return o;
}
}  // namespace pbt

using namespace pbt;
int main(int argc, char** argv) {
  std::string prop = "P00", out = "/tmp", replay, only, rdir; uint64_t seed = 1; bool thorough = false; int nw = 8; double scale = 1, maxsec = 300, shrinksec = 25;
  for (int a = 1; a < argc; a++) { std::string k = argv[a]; auto v = [&] { return std::string(argv[++a]); };
    if (k == "--prop") prop = v(); else if (k == "--out") out = v(); else if (k == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (k == "--tier") thorough = v() == "thorough";
    else if (k == "--workers") nw = atoi(v().c_str()); else if (k == "--scale") scale = atof(v().c_str()); else if (k == "--maxsec") maxsec = atof(v().c_str()); else if (k == "--replay") replay = v(); else if (k == "--only") only = v(); else if (k == "--replaydir") rdir = v();
    else if (k == "--shrinksec") shrinksec = atof(v().c_str());
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; } }
  char tmpl[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } g_scratch_root = tmpl; g_errfile = g_scratch_root + "/err";
  struct Clean { ~Clean() { rmtree(g_scratch_root); } } clean;
  if (!replay.empty()) {
    std::stringstream ss(slurp(replay)); std::string l; int sub = -1; std::vector<uint64_t> ch;
    while (std::getline(ss, l)) { if (l.rfind("sub ", 0) == 0) { for (size_t k = 0; k < subs().size(); k++) if (l.substr(4) == subs()[k].name) sub = (int)k; } else if (l.rfind("choices", 0) == 0) { std::stringstream c(l.substr(7)); uint64_t v; while (c >> v) ch.push_back(v); } }
    if (sub < 0) { fprintf(stderr, "bad replay file\n"); return 2; }
    Res r = run_forked(sub, ch, true); printf("%s\n%s\ncase: %s\n", r.bad ? "FAILS" : "passes", r.msg.c_str(), r.desc.c_str()); return r.bad ? 1 : 0;
  }
  std::vector<Shared*> sh; std::vector<pid_t> pid; std::vector<std::string> outs;
  fflush(stdout);
  for (int w = 0; w < nw; w++) { sh.push_back(newshared()); outs.push_back(g_scratch_root + "/w" + std::to_string(w));
    pid_t p = fork(); if (p == 0) { worker(w, nw, seed, thorough, scale, maxsec, only, sh[w], outs[w]); } pid.push_back(p); }
  int left = nw, badw = -1, badrc = 0; 
  while (left > 0) { int ws; pid_t p = wait(&ws); if (p < 0) break; left--; int w = -1; for (int k = 0; k < nw; k++) if (pid[k] == p) w = k; if (w < 0) continue; int rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 128 + WTERMSIG(ws); pid[w] = -1;
    if (rc != 0 && badw < 0) { badw = w; badrc = rc; for (int k = 0; k < nw; k++) if (pid[k] > 0) kill(pid[k], SIGKILL); } }
  int exitcode = 0; std::string viol = "null";
  if (badw >= 0) {
    Shared* s = sh[badw]; Res r; r.bad = true; r.rc = badrc; r.ch.assign(s->ch, s->ch + std::min<uint64_t>((uint64_t)s->n, MAXCH)); int sub = s->sub;
    r.msg = badrc == 42 ? s->msg : slurp(outs[badw] + ".err").substr(0, 5000);
    Res again = run_forked(sub, r.ch);
    if (!again.bad) {
      // The case alone does not fail: state carried over between cases of one worker.  Re-run the worker's whole history
      // (a pure function of seed and worker number); if that fails again every time the history is the counterexample.
      int again_bad = 0; long caseno = s->caseno; std::string msg = r.msg;
      for (int k = 0; k < 3; k++) { fflush(stdout); pid_t p = fork(); if (p == 0) worker(badw, nw, seed, thorough, scale, maxsec * 3, only, s, outs[badw] + ".again");
        int ws; waitpid(p, &ws, 0); int rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 128 + WTERMSIG(ws); if (rc != 0) { again_bad++; if (rc == 42) msg = s->msg; } else break; }
      printf("%s sub=%s worker=%d case=%ld rc=%d msg=%s\n", again_bad == 3 ? "FAILED (history of cases)" : "NONREPRODUCIBLE", subs()[sub].name, badw, caseno, badrc, msg.c_str());
      if (again_bad == 3) { exitcode = 1; std::string path = rdir + "/" + prop + "-history-" + std::to_string(seed) + ".replay";
        spew(path, "property " + prop + "\nhistory seed=" + std::to_string(seed) + " worker=" + std::to_string(badw) + "/" + std::to_string(nw) + " sub=" + subs()[sub].name + " case=" + std::to_string(caseno) + " scale=" + std::to_string(scale) + "\n# " + msg + "\n");
        printf("REPLAY %s\n", path.c_str()); viol = "\"" + jesc(msg) + "\""; } else
      exitcode = 3;
    } else {
      Res best = shrink(sub, again, shrinksec);
      int ok = 0; for (int k = 0; k < 3; k++) { Res q = run_forked(sub, best.ch); if (q.bad) { ok++; best = q; } }
      if (ok < 3) { best = again; ok = 0; for (int k = 0; k < 3; k++) if (run_forked(sub, best.ch).bad) ok++; }
      std::string path = rdir + "/" + prop + "-" + subs()[sub].name + "-" + std::to_string(seed) + ".replay";
      spew(path, fmt_replay(prop, sub, best)); exitcode = ok == 3 ? 1 : 3;
      printf("%s sub=%s\n%s\ncase: %s\nREPLAY %s\n", ok == 3 ? "FAILED" : "UNSTABLE", subs()[sub].name, best.msg.c_str(), best.desc.c_str(), path.c_str());
      viol = "\"" + jesc(best.msg) + "\"";
    }
  }
  // merge stats
  std::string all = "{\"violation\":" + viol + ",\"workers\":["; bool first = true; for (auto& o : outs) { std::string t = slurp(o); if (t.empty()) continue; while (!t.empty() && t.back() == '\n') t.pop_back(); all += (first ? "" : ",") + t; first = false; } all += "]}\n";
  spew(out, all);
  return exitcode;
}
