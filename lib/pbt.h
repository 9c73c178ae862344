// Property-based testing core: every random choice goes through Gen, which records it, so any case can be
// replayed from its choice sequence and shrunk by editing that sequence.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace pbt {
typedef std::vector<uint8_t> Bytes;
struct Failure { std::string msg; };
struct Discard {};
[[noreturn]] void fail(const char* file, int line, const char* fmt, ...);
std::string hex(const uint8_t* d, size_t n);
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
uint64_t hash64(const void* d, size_t n, uint64_t seed = 0);

class Gen {
public:
  explicit Gen(uint64_t seed) : s_(seed), replay_(false) {}
  explicit Gen(const std::vector<uint64_t>& c) : s_(0), replay_(true), in_(c) {}
  uint64_t below(uint64_t n);                                             // [0,n); 0 is the simplest value
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // inclusive
  bool     chance(unsigned num, unsigned den) { return below(den) >= den - num; } // false is simplest
  bool     coin() { return below(2) == 1; }
  uint64_t u64();                                                         // boundary-biased
  uint64_t bits(unsigned n) { return n >= 64 ? raw() : below(1ull << n); }
  uint8_t  byte() { return (uint8_t) below(256); }
  uint64_t raw();
  size_t   size(size_t max);                                              // skewed to small
  Bytes    rnd(size_t n);                                                // random content
  Bytes    blob(size_t max) { return rnd(size(max)); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  size_t weighted(std::initializer_list<unsigned> w);
  // statistics
  void label(const std::string& l) { labels.insert(l); }
  void nontrivial(uint64_t h) { nontriv = true; nthash = hash64(&h, 8, nthash); }
  void nontrivial(const void* d, size_t n) { nontrivial(hash64(d, n)); }
  void note(const char* fmt, ...); // human readable trace of the case (kept for samples and failures)
  std::set<std::string> labels;
  bool nontriv = false;
  uint64_t nthash = 0;
  std::string trace;
  std::vector<uint64_t> out; // recorded choices
private:
  uint64_t next();
  uint64_t s_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
};
typedef void (*PropFn)(Gen&);
struct Prop { const char* name; PropFn fn; unsigned weight; unsigned quick_cases; };
void reg(const Prop& p);
struct Reg { Reg(const char* n, PropFn f, unsigned cases) { reg({n, f, 1, cases}); } };
// A failure matching a listed known finding is counted, not reported.  Returns true when listed.
bool known(const char* id);
// live heap accounting for the code under test
void     heap_begin();
long     heap_live(); // allocations minus frees since heap_begin, in this thread's window
void     heap_end();
void     heap_describe(); // with PBT_LEAKS set: prints where the live allocations were made
struct HeapPause { bool was; HeapPause(); ~HeapPause(); }; // allocations of harness callbacks are not counted
extern "C" bool verif_heap_pause(int mode);
struct HeapOn { bool was = verif_heap_pause(1); ~HeapOn() { verif_heap_pause(was); } }; // counts within a paused section
} // namespace pbt
#define FAIL(...) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) ::pbt::fail(__FILE__, __LINE__, "check failed: " #c " -- " __VA_ARGS__); } while (0)
// PROP(name, cases in the quick tier)
#define PROP(name, cases) static void prop_##name(pbt::Gen& g); static pbt::Reg reg_##name(#name, prop_##name, cases); static void prop_##name(pbt::Gen& g)
#define REQUIRE_KNOWN(id, ...) do { if (!::pbt::known(id)) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
