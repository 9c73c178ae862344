#include "pbt.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
namespace pbt {
static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
void reg(const Prop& p) { props().push_back(p); }
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
uint64_t hash64(const void* d, size_t n, uint64_t seed) { uint64_t h = mix(seed ^ n); const uint8_t* p = (const uint8_t*) d; while (n >= 8) { uint64_t v; memcpy(&v, p, 8); h = mix(h ^ v); p += 8; n -= 8; } uint64_t v = 0; memcpy(&v, p, n); return mix(h ^ v ^ (n << 56)); }
void fail(const char* file, int line, const char* fmt, ...) {
  char buf[4000]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  const char* f = strrchr(file, '/'); throw Failure{std::string(f ? f + 1 : file) + ":" + std::to_string(line) + ": " + buf};
}
std::string hex(const uint8_t* d, size_t n) { static const char* H = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += H[d[i] >> 4]; s += H[d[i] & 15]; } return s; }
uint64_t Gen::next() { s_ += 0x9e3779b97f4a7c15ull; return mix(s_); }
static const size_t MAX_CHOICES = 4000000;
static uint64_t* g_rec = nullptr; // write-through copy of the choices of a case that is about to crash
static inline void push(std::vector<uint64_t>& out, uint64_t v) { if (out.size() > MAX_CHOICES) throw Discard{}; out.push_back(v); if (g_rec) { g_rec[out.size()] = v; g_rec[0] = out.size(); } }
uint64_t Gen::raw() {
  uint64_t v; if (replay_) v = pos_ < in_.size() ? in_[pos_++] : 0; else v = next();
  push(out, v); return v;
}
uint64_t Gen::below(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v; if (replay_) { v = pos_ < in_.size() ? in_[pos_++] : 0; if (v >= n) v %= n; } else v = (uint64_t) (((unsigned __int128) next() * n) >> 64);
  push(out, v); return v;
}
uint64_t Gen::u64() {
  switch (below(6)) {
    case 0: return below(4);
    case 1: return below(300);
    case 2: { unsigned s = (unsigned) below(64); uint64_t b = 1ull << s; return b - 1 + below(3); }
    case 3: return raw() >> below(64);
    case 4: return ~below(4);
    default: return raw();
  }
}
size_t Gen::size(size_t max) { if (!max) return 0; size_t m; switch (below(4)) { case 0: m = 3; break; case 1: m = 16; break; case 2: m = 80; break; default: m = max; } if (m > max) m = max; return (size_t) below(m + 1); }
Bytes Gen::rnd(size_t n) {
  Bytes b(n); // one choice per 8 bytes, first choice selects the style so that shrinking finds simple contents
  if (!n) return b;
  switch (below(4)) {
    case 0: { uint8_t f = byte(); memset(b.data(), f, n); break; }
    case 1: { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) i; b[below(n)] = byte(); break; }
    default: for (size_t i = 0; i < n; i += 8) { uint64_t v = raw(); memcpy(&b[i], &v, n - i < 8 ? n - i : 8); }
  }
  return b;
}
size_t Gen::weighted(std::initializer_list<unsigned> w) { unsigned t = 0; for (auto x : w) t += x; uint64_t r = below(t); size_t i = 0; for (auto x : w) { if (r < x) return i; r -= x; i++; } return 0; }
void Gen::note(const char* fmt, ...) { if (trace.size() > 6000) return; char buf[2000]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a); trace += buf; trace += "; "; }
// ---- heap accounting
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
static bool hw = false; static std::unordered_set<uintptr_t>* hset; static thread_local bool hin = false;
static void mh(const volatile void* p, size_t) { if (!hw || hin || !p) return; hin = true; hset->insert((uintptr_t) p); hin = false; }
static void fh(const volatile void* p) { if (!hw || hin || !p) return; hin = true; hset->erase((uintptr_t) p); hin = false; }
void heap_begin() { static bool inst = false; if (!inst) { hset = new std::unordered_set<uintptr_t>(); __sanitizer_install_malloc_and_free_hooks(mh, fh); inst = true; } hw = false; hset->clear(); hw = true; }
long heap_live() { return (long) hset->size(); }
void heap_end() { hw = false; }
extern "C" void __asan_describe_address(void*);
void heap_describe() { hw = false; const char* f = getenv("PBT_LEAKS"); if (!f) return; int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, 2); for (auto p : *hset) __asan_describe_address((void*) p); }
extern "C" bool verif_heap_pause(int mode) { bool w = hw; hw = mode != 0; return w; }
HeapPause::HeapPause() : was(hw) { hw = false; }
HeapPause::~HeapPause() { hw = was; }
#else
void heap_begin() {} long heap_live() { return 0; } void heap_end() {} void heap_describe() {} HeapPause::HeapPause() : was(false) {} HeapPause::~HeapPause() {} extern "C" bool verif_heap_pause(int) { return false; }
#endif
#endif
static std::set<std::string>& known_set() { static std::set<std::string> s; static bool init = false; if (!init) { init = true; const char* e = getenv("PBT_KNOWN"); std::string t; for (; e && *e; e++) if (*e == ',') { s.insert(t); t.clear(); } else t += *e; if (!t.empty()) s.insert(t); } return s; }
struct Shm { volatile uint64_t cur_case; volatile uint64_t cur_prop; volatile uint64_t known_hits[64]; };
static Shm* shm_cur = nullptr;
static std::vector<std::string> known_order() { std::vector<std::string> v(known_set().begin(), known_set().end()); return v; }
bool known(const char* id) { auto k = known_order(); for (size_t i = 0; i < k.size() && i < 64; i++) if (k[i] == id) { if (shm_cur) shm_cur->known_hits[i]++; return true; } return false; }

static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// run one case in this process. returns 0 ok, 1 failure (msg set), 2 discard
static int run_one(const Prop& p, Gen& g, std::string& msg) {
  static bool quiet = false; if (!quiet) { quiet = true; if (!getenv("PBT_VERBOSE")) { FILE* n = fopen("/dev/null", "w"); if (n) { setvbuf(n, NULL, _IONBF, 0); stderr = n; } } } // log output of the code under test; sanitizer reports use the descriptor
  struct E { ~E() { heap_end(); } } e;
  try { p.fn(g); return 0; } catch (Failure& f) { msg = f.msg; return 1; } catch (Discard&) { return 2; } catch (std::exception& e) { msg = std::string("harness exception: ") + e.what(); return 3; }
}
// run a choice sequence in a forked child. returns 0 ok/discard, 1 fails (msg), trace
static int run_forked(const Prop& p, const std::vector<uint64_t>& c, std::string& msg, std::string& trace, std::vector<uint64_t>& outc, int timeout_s, uint64_t seed = 0, bool use_seed = false) {
  int fd[2]; if (pipe(fd)) return 0; char errf[] = "/tmp/pbt_err_XXXXXX"; int ef = mkstemp(errf); unlink(errf);
  pid_t pid = fork();
  if (!pid) {
    close(fd[0]); dup2(ef, 2); alarm(timeout_s); Gen g = use_seed ? Gen(seed) : Gen(c); std::string m;
    struct Flush { Gen* g; int fd; };
    int r = run_one(p, g, m);
    auto wr = [&](const std::string& s) { uint32_t n = (uint32_t) s.size(); (void) !write(fd[1], &n, 4); (void) !write(fd[1], s.data(), n); };
    wr(m); wr(g.trace); std::string oc((char*) g.out.data(), g.out.size() * 8); wr(oc); _exit(r == 1 ? 77 : r == 3 ? 78 : 0);
  }
  close(fd[1]); std::string data; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) data.append(buf, n); close(fd[0]);
  int st; waitpid(pid, &st, 0); size_t pos = 0;
  auto rdv = [&](std::string& s) { s.clear(); if (pos + 4 > data.size()) return; uint32_t l; memcpy(&l, &data[pos], 4); pos += 4; if (pos + l > data.size()) l = (uint32_t) (data.size() - pos); s = data.substr(pos, l); pos += l; };
  std::string oc; rdv(msg); rdv(trace); rdv(oc); outc.resize(oc.size() / 8); memcpy(outc.data(), oc.data(), outc.size() * 8);
  int res = 0;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) res = WEXITSTATUS(st) == 77 ? 1 : 3;
  else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    res = 1; if (use_seed) outc.clear(); else outc = c; char eb[6000]; off_t sz = lseek(ef, 0, SEEK_END); off_t st0 = 0; (void) sz; ssize_t en = pread(ef, eb, sizeof eb - 1, st0); eb[en > 0 ? en : 0] = 0;
    std::string first; for (char* l = strtok(eb, "\n"); l; l = strtok(nullptr, "\n")) { if (strstr(l, "runtime error") || strstr(l, "ERROR: AddressSanitizer") || strstr(l, "/src/") || strstr(l, "SUMMARY") || strstr(l, "terminate") ) { first += l; first += " | "; } if (first.size() > 1500) break; }
    msg = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "did not terminate within the (very generous) time limit" : "crash: " + (first.empty() ? "signal/exit " + std::to_string(st) : first);
  }
  close(ef); return res;
}
static std::string fail_class(const std::string& m) { // keep shrinking on the same kind of failure
  if (m.compare(0, 6, "crash:") == 0) return "crash"; if (m.compare(0, 3, "did") == 0) return "hang"; return m.substr(0, m.find(": ")); }
static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, std::string& msg, std::string& trace, int timeout_s, double budget) {
  double end = now() + budget; std::string cls = fail_class(msg); int tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& c) { if (now() > end) return false; tries++; std::string m, t; std::vector<uint64_t> o; if (run_forked(p, c, m, t, o, timeout_s) == 1 && fail_class(m) == cls) { const std::vector<uint64_t>& n = (o.size() < c.size() || (o.size() == c.size() && o <= c)) ? o : c; if (!(n.size() < best.size() || (n.size() == best.size() && n < best))) return false; best = n; msg = m; if (!t.empty()) trace = t; return true; } return false; };
  bool prog = true;
  while (prog && now() < end) {
    prog = false;
    for (size_t k : {(size_t) 1024, (size_t) 256, (size_t) 64, (size_t) 16, (size_t) 8, (size_t) 4, (size_t) 2, (size_t) 1}) {
      for (size_t i = best.size(); i > 0 && now() < end;) { size_t s = i > k ? i - k : 0; if (i > best.size()) { i = best.size(); continue; } std::vector<uint64_t> c(best.begin(), best.begin() + s); c.insert(c.end(), best.begin() + i, best.end()); if (attempt(c)) prog = true; i = s; }
      if (k >= 2) for (size_t i = 0; i + 1 < best.size() && now() < end; i += k) { std::vector<uint64_t> c = best; bool any = false; for (size_t j = i; j < i + k && j < c.size(); j++) { any |= c[j] != 0; c[j] = 0; } if (any && attempt(c)) prog = true; }
    }
    for (size_t i = 0; i < best.size() && now() < end; i++) { if (!best[i]) continue; std::vector<uint64_t> c = best; c[i] = 0; if (attempt(c)) { prog = true; continue; } uint64_t lo = 0, hi = best[i]; while (lo + 1 < hi && now() < end) { uint64_t m = lo + (hi - lo) / 2; c = best; if (i >= c.size()) break; c[i] = m; if (attempt(c)) { prog = true; hi = i < best.size() ? best[i] : 0; } else lo = m; } }
  }
  return best;
}
typedef std::vector<std::pair<uint32_t, uint32_t>> Jobs;
static Jobs make_jobs(double scale, const char* only) { Jobs jobs; size_t np = props().size(); std::vector<uint64_t> tot(np); for (size_t i = 0; i < np; i++) { if (only && strcmp(only, props()[i].name)) { tot[i] = 0; continue; } tot[i] = (uint64_t) (props()[i].quick_cases * scale); if (!tot[i]) tot[i] = 1; }
  // interleave the props proportionally so that a time cap cuts all of them evenly
  std::vector<uint64_t> done(np, 0); for (uint64_t s = 0; s < 1000; s++) for (size_t i = 0; i < np; i++) { uint64_t want = tot[i] * (s + 1) / 1000; while (done[i] < want) jobs.push_back({(uint32_t) i, (uint32_t) done[i]++}); } return jobs; }
static uint64_t case_seed(const Prop& p, uint64_t seed, uint32_t idx) { return mix(mix(seed ^ hash64(p.name, strlen(p.name))) ^ idx); }
// failure that needs the state left by earlier cases: re-run the worker's case list up to and including job
static bool run_prefix(const Jobs& jobs, uint64_t seed, int workers, uint64_t job, int timeout_s, std::string& msg) {
  int fd[2]; if (pipe(fd)) return false; pid_t pid = fork();
  if (!pid) { close(fd[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); for (uint64_t j = job % workers; j <= job; j += workers) { const Prop& p = props()[jobs[j].first]; Gen g(case_seed(p, seed, jobs[j].second)); std::string m; alarm(timeout_s); int r = run_one(p, g, m); if (r == 1) { m = std::string(p.name) + ": " + m + " [" + g.trace + "]"; (void) !write(fd[1], m.data(), m.size()); _exit(77); } } _exit(0); }
  close(fd[1]); char buf[65536]; ssize_t n; msg.clear(); while ((n = read(fd[0], buf, sizeof buf)) > 0) msg.append(buf, n); close(fd[0]); int st; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false; if (msg.empty()) msg = "crash: status " + std::to_string(st); return true; }
static void write_replay(const char* path, const Prop& p, const std::vector<uint64_t>& c, const std::string& msg, const std::string& trace) {
  FILE* f = fopen(path, "w"); if (!f) return; fprintf(f, "prop %s\nmsg %s\ntrace %s\nchoices", p.name, jstr(msg).c_str(), jstr(trace).c_str()); for (auto v : c) fprintf(f, " %llu", (unsigned long long) v); fprintf(f, "\n"); fclose(f); }
static bool read_replay(const char* path, std::string& prop, std::vector<uint64_t>& c) {
  FILE* f = fopen(path, "r"); if (!f) return false; char* line = nullptr; size_t cap = 0; while (getline(&line, &cap, f) > 0) { if (!strncmp(line, "prop ", 5)) { prop = line + 5; while (!prop.empty() && prop.back() == '\n') prop.pop_back(); } if (!strncmp(line, "choices", 7)) { char* p = line + 7; while (*p) { char* e; unsigned long long v = strtoull(p, &e, 10); if (e == p) break; c.push_back(v); p = e; } } } free(line); fclose(f); return !prop.empty(); }
} // namespace pbt
using namespace pbt;
// usage: bin run SEED SCALE TIMECAP WORKERS REPLAY_OUT STATS_OUT [onlyprop]   |   bin replay FILE
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    { FILE* f = fopen(argv[2], "r"); unsigned long long sd, jb; double sc; int wk; char on[100]; if (f && fscanf(f, "prefix %llu %lf %d %llu %99s", &sd, &sc, &wk, &jb, on) == 5) { fclose(f); Jobs jobs = make_jobs(sc, strcmp(on, "-") ? on : nullptr); std::string m; bool r = run_prefix(jobs, sd, wk, jb, 300, m); printf("%s %s\n", r ? "FAILS" : "holds", m.c_str()); return r; } if (f) fclose(f); }
    std::string pn; std::vector<uint64_t> c; if (!read_replay(argv[2], pn, c)) { fprintf(stderr, "bad replay file\n"); return 2; }
    for (auto& p : props()) if (pn == p.name) { std::string m, t; std::vector<uint64_t> o; int r = run_forked(p, c, m, t, o, 300); printf("%s %s\n%s\n%s\n", pn.c_str(), r ? "FAILS" : "holds", m.c_str(), t.c_str()); return r == 1 ? 1 : r == 3 ? 3 : 0; }
    return 2;
  }
  if (argc >= 4 && !strcmp(argv[1], "seed")) { // debugging: run one prop with a raw seed in-process
    for (auto& p : props()) if (!strcmp(argv[2], p.name)) { Gen g(strtoull(argv[3], nullptr, 0)); std::string m; int r = run_one(p, g, m); printf("%d %s\n%s\n", r, m.c_str(), g.trace.c_str()); return r; }
    return 2;
  }
  if (argc < 8) { for (auto& p : props()) printf("%s %u\n", p.name, p.quick_cases); return 2; }
  uint64_t seed = strtoull(argv[2], nullptr, 10); double scale = atof(argv[3]); double cap = atof(argv[4]); int workers = atoi(argv[5]); const char* rep = argv[6]; const char* stats = argv[7]; const char* only = argc > 8 ? argv[8] : nullptr;
  int timeout_s = getenv("PBT_CASE_TIMEOUT") ? atoi(getenv("PBT_CASE_TIMEOUT")) : 120;
  double t0 = now(); std::vector<Shm*> shm(workers); std::vector<pid_t> pid(workers, 0); std::vector<std::string> outf(workers); std::vector<int> errfd(workers);
  std::vector<uint64_t> start_from(workers, 0);
  char dir[] = "/tmp/pbt_run_XXXXXX"; if (!mkdtemp(dir)) return 2;
  // global case list: (prop, index) distributed round robin
  Jobs jobs = make_jobs(scale, only);
  auto spawn = [&](int w) {
    shm[w]->cur_case = (uint64_t) -1;
    pid_t p = fork(); if (p) { pid[w] = p; return; }
    dup2(errfd[w], 2); shm_cur = shm[w]; FILE* f = fopen(outf[w].c_str(), "a"); std::map<std::string, uint64_t> lab; uint64_t ev = 0, disc = 0; int ns = 0; std::map<uint32_t, int> per; std::string buf;
    auto flush = [&] { if (!buf.empty()) { fwrite(buf.data(), 1, buf.size(), f); fflush(f); buf.clear(); } };
    for (uint64_t j = start_from[w]; j < jobs.size(); j++) {
      if ((int) (j % workers) != w) continue;
      if (now() - t0 > cap) { buf += "T\n"; break; }
      const Prop& p = props()[jobs[j].first]; shm[w]->cur_case = j; alarm(timeout_s);
      uint64_t cs = case_seed(p, seed, jobs[j].second); Gen g(cs); std::string m; int r = run_one(p, g, m); alarm(0);
      if (r == 1 || r == 3) { flush(); fprintf(f, "F %llu %d %s\n", (unsigned long long) j, r, jstr(m).c_str()); fclose(f); _exit(77); }
      if (r == 2) { buf += "D\n"; continue; }
      char b[64]; snprintf(b, sizeof b, "E %u %llx\n", jobs[j].first, g.nontriv ? (unsigned long long) (g.nthash | 1) : 0ull); buf += b; for (auto& l : g.labels) buf += "L " + std::string(p.name) + "/" + l + "\n";
      if (per[jobs[j].first] < 1 && g.nontriv && !g.trace.empty()) { per[jobs[j].first]++; buf += "S " + jstr(std::string(p.name) + ": " + g.trace) + "\n"; }
      if (buf.size() > 30000) flush();
    }
    shm[w]->cur_case = (uint64_t) -2; flush(); fclose(f); _exit(0);
  };
  for (int w = 0; w < workers; w++) { shm[w] = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); outf[w] = std::string(dir) + "/w" + std::to_string(w); errfd[w] = open((outf[w] + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); spawn(w); }
  int alive = workers; bool failed = false; uint64_t fjob = 0; bool harness_err = false; std::string herr;
  while (alive > 0 && !failed) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; int w = -1; for (int i = 0; i < workers; i++) if (pid[i] == p) w = i; if (w < 0) continue; pid[w] = 0; alive--; if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue; uint64_t cc = shm[w]->cur_case;
    if (cc < jobs.size()) { failed = true; fjob = cc; } else { harness_err = true; herr = "worker died outside a case"; } }
  for (int w = 0; w < workers; w++) if (pid[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
  // collect
  uint64_t ev = 0, disc = 0; bool timed = false; std::unordered_set<uint64_t> dn; std::map<std::string, uint64_t> lab; std::vector<std::string> samples; std::map<uint32_t, uint64_t> per, pern;
  for (int w = 0; w < workers; w++) { FILE* f = fopen(outf[w].c_str(), "r"); if (!f) continue; char* line = nullptr; size_t cp = 0; while (getline(&line, &cp, f) > 0) { size_t l = strlen(line); if (l && line[l - 1] == '\n') line[--l] = 0; switch (line[0]) { case 'E': { unsigned pi; unsigned long long hsh; sscanf(line + 2, "%u %llx", &pi, &hsh); ev++; per[pi]++; if (hsh) { pern[pi]++; dn.insert(hsh ^ mix(pi)); } break; } case 'D': disc++; break; case 'T': timed = true; break; case 'L': lab[line + 2]++; break; case 'S': if (samples.size() < 40) samples.push_back(line + 2); break; } } free(line); fclose(f); }
  std::string msg, trace; std::string confirmed = "no"; std::string pname;
  if (failed) {
    const Prop& p = props()[jobs[fjob].first]; pname = p.name; uint64_t cs = case_seed(p, seed, jobs[fjob].second); std::vector<uint64_t> c, o; 
    // obtain the recorded choices: replay from the seed in a child; a crash loses them, so regenerate via recording parent-side stream
    int r = run_forked(p, {}, msg, trace, c, timeout_s, cs, true);
    if (r == 3) { harness_err = true; herr = msg; }
    else if (r == 1) {
      if (c.empty()) { // crashed: reconstruct the choice stream by a recording pipe
        int fd = open((std::string(dir) + "/rec").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); (void) !ftruncate(fd, 8 * (off_t) (1 << 23)); uint64_t* mem = (uint64_t*) mmap(nullptr, 8 * (size_t) (1 << 23), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        pid_t q = fork(); if (!q) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); alarm(fail_class(msg) == "hang" ? timeout_s / 4 + 5 : timeout_s); Gen g(cs); std::string m2; g_rec = mem; run_one(p, g, m2); _exit(0); }
        int st; waitpid(q, &st, 0); size_t n = mem[0]; c.assign(mem + 1, mem + 1 + n); munmap(mem, 8 * (size_t) (1 << 23)); close(fd); }
      int ok = 0; std::string m2, t2; int need = fail_class(msg) == "hang" ? 1 : 3; for (int i = 0; i < need; i++) if (run_forked(p, c, m2, t2, o, timeout_s) == 1) ok++;
      if (ok == need) { msg = m2; if (!t2.empty()) trace = t2; confirmed = "yes"; c = shrink(p, c, msg, trace, timeout_s > 30 ? 30 : timeout_s, fail_class(msg) == "hang" ? 1 : 60); std::string m3, t3; if (need == 3) run_forked(p, c, m3, t3, o, timeout_s); write_replay(rep, p, c, msg, trace); }
      else { // depends on state left behind by earlier cases of the worker: replay the prefix of that worker
        confirmed = "unstable"; }
    } else confirmed = "unstable";
    if (confirmed == "unstable") { int ok = 0; std::string m2; for (int i = 0; i < 3; i++) if (run_prefix(jobs, seed, workers, fjob, timeout_s, m2)) ok++; if (ok == 3) { confirmed = "yes"; msg = m2; FILE* rf = fopen(rep, "w"); if (rf) { fprintf(rf, "prefix %llu %.6f %d %llu %s\nmsg %s\n", (unsigned long long) seed, scale, workers, (unsigned long long) fjob, only ? only : "-", jstr(msg).c_str()); fclose(rf); } } }
  }
  FILE* f = fopen(stats, "w"); fprintf(f, "{\"evaluations\":%llu,\"discarded\":%llu,\"distinct_nontrivial\":%llu,\"time_capped\":%s,\"planned\":%llu,\"failed\":%s,\"confirmed\":\"%s\",\"prop\":%s,\"msg\":%s,\"trace\":%s,\"harness_error\":%s,\"herr\":%s,\"job\":%llu,", (unsigned long long) ev, (unsigned long long) disc, (unsigned long long) dn.size(), timed ? "true" : "false", (unsigned long long) jobs.size(), failed ? "true" : "false", confirmed.c_str(), jstr(pname).c_str(), jstr(msg).c_str(), jstr(trace).c_str(), harness_err ? "true" : "false", jstr(herr).c_str(), (unsigned long long) fjob);
  fprintf(f, "\"labels\":{"); bool first = true; for (auto& l : lab) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long) l.second); first = false; } fprintf(f, "},\"per_prop\":{"); first = true; for (auto& l : per) { fprintf(f, "%s%s:[%llu,%llu]", first ? "" : ",", jstr(props()[l.first].name).c_str(), (unsigned long long) l.second, (unsigned long long) pern[l.first]); first = false; }
  fprintf(f, "},\"known_hits\":{"); first = true; auto ko = known_order(); for (size_t i = 0; i < ko.size() && i < 64; i++) { uint64_t s = 0; for (int w = 0; w < workers; w++) s += shm[w]->known_hits[i]; fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(ko[i]).c_str(), (unsigned long long) s); first = false; }
  fprintf(f, "},\"samples\":["); first = true; std::set<std::string> seen; for (auto& s : samples) { std::string key = s.substr(0, s.find(':')); if (seen.count(key)) continue; seen.insert(key); fprintf(f, "%s%s", first ? "" : ",", s.c_str()); first = false; } fprintf(f, "],\"wall_s\":%.2f}\n", now() - t0); fclose(f);
  if (confirmed == "unstable") for (int w = 0; w < workers; w++) { std::string e = outf[w] + ".err"; FILE* x = fopen(e.c_str(), "r"); if (x) { char b[3000]; size_t n = fread(b, 1, sizeof b - 1, x); b[n] = 0; if (n) fprintf(stderr, "worker %d stderr: %s\n", w, b); fclose(x); } }
  std::string rm = std::string("rm -rf ") + dir; if (!strncmp(dir, "/tmp/pbt_run_", 13)) (void) !system(rm.c_str());
  return harness_err ? 3 : failed ? 1 : 0;
}
