// Bounded exhaustive exploration kernel (stateless model checking of real code).
//
// A "space" is a pair (gen, exec).  gen() draws choices from a Chooser and builds a case;
// the kernel walks the complete choice tree with an odometer, so every combination within
// the bounds coded in gen() is produced exactly once.  exec() runs the real code on the
// case and calls FAIL() when the oracle disagrees.  Cases are dealt to shards by index.
//
// The choice vector of the case being executed is kept in a file shared with the driver,
// so a crash, failed assertion or hang in the code under test is attributed to the exact
// case and can be replayed from the vector.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

class Chooser {
 public:
  // All values 0..n-1 are explored.
  int pick(int n) {
    if (n <= 1) return 0;
    return draw(n);
  }
  // As pick, but non-zero values use up one unit of the deviation budget; once the
  // budget is used up only 0 is explored.
  int dev(int n) {
    if (n <= 1) return 0;
    if (dev_used_ >= dev_budget_) return 0;
    int v = draw(n);
    if (v) ++dev_used_;
    return v;
  }
  bool flag() { return pick(2) != 0; }
  void set_budget(int b) { dev_budget_ = b; }
  int dev_used() const { return dev_used_; }

  // Large spaces: called once the first few choices are drawn; the choices so far decide which shard
  // owns the whole subtree.  Returns false when it is another shard's: gen then returns nullptr at once.
  bool mine() {
    split_ = true;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < pos_; ++i) { h ^= (uint64_t)vals_[i] + 0x9e37; h *= 1099511628211ull; h ^= h >> 29; }
    return (h >> 7) % nsh_ == shard_;
  }
  bool split() const { return split_; }
  void set_shard(unsigned s, unsigned n) { shard_ = s; nsh_ = n; }

  void start() { pos_ = 0; dev_used_ = 0; dev_budget_ = 1 << 30; split_ = false; }
  bool next() {
    vals_.resize(pos_);
    lims_.resize(pos_);
    while (!vals_.empty()) {
      if (++vals_.back() < lims_.back()) return true;
      vals_.pop_back();
      lims_.pop_back();
    }
    return false;
  }
  const std::vector<int>& vals() const { return vals_; }
  size_t used() const { return pos_; }
  void preset(const std::vector<int>& v) { vals_ = v; lims_.assign(v.size(), 1 << 30); }

 private:
  int draw(int n) {
    if (pos_ == vals_.size()) { vals_.push_back(0); lims_.push_back(n); }
    else lims_[pos_] = n;
    return vals_[pos_++];
  }
  std::vector<int> vals_, lims_;
  size_t pos_ = 0;
  int dev_used_ = 0, dev_budget_ = 1 << 30;
  bool split_ = false;
  unsigned shard_ = 0, nsh_ = 1;
};

struct Violation { std::string msg; };

struct Run {
  bool thorough = false;
  bool replay = false;
  long long only_sub = -1;   // replay: run just this sub case
  // counters
  unsigned long long cases = 0;       // choice-tree leaves executed
  unsigned long long states = 0;      // states / executions examined by the oracle
  unsigned long long transitions = 0; // operations of the code under test driven
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples;
  std::string desc;                   // description of the current case
  std::string logbuf;
};
extern Run R;

// Marks the start of sub case k of the current case; false if it is not to be run.
bool sub(long long k);
void outcome(uint64_t h);                 // records an observed outcome
void sample(const std::string& s);        // keeps the first few
[[noreturn]] void fail(const char* file, int line, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
#define FAIL(...) ::mc::fail(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) ::mc::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
// A listed known finding was met (see known_findings.jsonl); reported by the driver, not a violation.
void known(const char* prop, const char* id, const char* what);
inline void tick(unsigned n = 1) { R.transitions += n; }
inline void state(unsigned n = 1) { R.states += n; }

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }
inline uint64_t hstr(const std::string& s) { return fnv(s.data(), s.size()); }

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n, size_t max = 64);

// Directory for files of this run; the driver makes and removes it.
inline std::string scratch() { const char* d = getenv("VERIF_SCRATCH"); return d && *d ? d : "/tmp"; }

// Bytes currently allocated (sanitizer allocator); used for per-case leak checks.
size_t live_bytes();
// Largest single allocation since the last call of watch_alloc().
void watch_alloc();
size_t biggest_alloc();

typedef std::function<void()> Exec;
typedef std::function<Exec(Chooser&)> Gen;  // returns the execution; null = vacuous case
struct Space { std::string name; Gen gen; };
// Spaces of a property, registered by each harness.
struct Reg {
  Reg(const char* prop, const char* space, Gen g);
};
#define SPACE(prop, name) \
  static ::mc::Exec gen_##prop##_##name(::mc::Chooser& c); \
  static ::mc::Reg reg_##prop##_##name(#prop, #name, gen_##prop##_##name); \
  static ::mc::Exec gen_##prop##_##name(::mc::Chooser& c)

}  // namespace mc
#endif
