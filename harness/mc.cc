#include "mc.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <map>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#else
#include <malloc.h>
#endif

namespace mc {
Run R;

namespace {
struct Shared {
  uint32_t magic, space, n, done;
  long long sub;
  int vals[1000];
  unsigned long long cases;
};
Shared local_shared;
Shared* S = &local_shared;
std::map<std::string, std::vector<Space>>& registry() {
  static std::map<std::string, std::vector<Space>> r;
  return r;
}
int hang_limit = 20;
void on_alarm(int) {
  const char m[] = "HANG: case exceeded its CPU limit\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(99);
}
void arm() {
  struct itimerval t = {};
  t.it_value.tv_sec = hang_limit;
  setitimer(ITIMER_PROF, &t, nullptr);
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
}  // namespace

Reg::Reg(const char* prop, const char* space, Gen g) {
  registry()[prop].push_back(Space{space, g});
}

std::string strf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char b[4096];
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
std::string hex(const void* p, size_t n, size_t max) {
  std::string o;
  const unsigned char* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n && i < max; ++i) o += strf("%02x", b[i]);
  if (n > max) o += strf("...(%zu)", n);
  return o;
}
void fail(const char* file, int line, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char b[8192];
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  const char* base = strrchr(file, '/');
  throw Violation{strf("%s:%d: ", base ? base + 1 : file, line) + b};
}
bool sub(long long k) {
  if (R.only_sub >= 0 && k != R.only_sub) return false;
  S->sub = k;
  arm();
  return true;
}
static std::map<std::string, std::pair<std::string, unsigned long long>> knowns;
void known(const char* prop, const char* id, const char* what) {
  // Only findings listed in the committed file (given by the driver) are tolerated.
  static std::string list = getenv("VERIF_KNOWN") ? getenv("VERIF_KNOWN") : "";
  std::string key = std::string(prop) + ":" + id;
  if (("," + list + ",").find("," + key + ",") == std::string::npos) throw Violation{std::string(what)};
  auto& k = knowns[key];
  k.first = what;
  ++k.second;
}
void outcome(uint64_t h) {
  if (R.outcomes.size() < 100000) R.outcomes.insert(h);
}
void sample(const std::string& s) {
  if (R.samples.size() < 3) R.samples.push_back(s);
}
static size_t g_biggest;
static void note_alloc(const volatile void*, size_t n) { if (n > g_biggest) g_biggest = n; }
static void note_free(const volatile void*) {}
void watch_alloc() {
  static bool on = false;
#ifdef MC_ASAN
  if (!on) __sanitizer_install_malloc_and_free_hooks(note_alloc, note_free);
#endif
  on = true;
  g_biggest = 0;
}
size_t biggest_alloc() { return g_biggest; }
size_t live_bytes() {
#ifdef MC_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}
}  // namespace mc

using namespace mc;

static void usage() {
  fprintf(stderr, "usage: H --prop ID [--tier quick|thorough] [--shard i/n] [--shared F] [--out F]\n"
                  "       H --prop ID --replay F [--tier T]\n");
  exit(2);
}

int main(int argc, char** argv) {
  std::string prop, shared, out, replay, only_space;
  int shard = 0, nsh = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) usage(); return argv[++i]; };
    if (a == "--prop") prop = val();
    else if (a == "--tier") R.thorough = val() == "thorough";
    else if (a == "--shard") { if (sscanf(val().c_str(), "%d/%d", &shard, &nsh) != 2) usage(); }
    else if (a == "--shared") shared = val();
    else if (a == "--out") out = val();
    else if (a == "--replay") replay = val();
    else if (a == "--space") only_space = val();
    else if (a == "--list") only_space = "?list";
    else if (a == "--hang") hang_limit = atoi(val().c_str());
    else usage();
  }
  if (!registry().count(prop)) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
  auto& spaces = registry()[prop];
  if (only_space == "?list") {
    for (auto& sp : spaces) printf("%s\n", sp.name.c_str());
    return 0;
  }
  signal(SIGPROF, on_alarm);

  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) return 2;
    char name[256];
    char tier[32];
    long long subv;
    int n;
    if (fscanf(f, "%255s %255s %31s %lld %d", name, name, tier, &subv, &n) != 5) return 2;
    std::vector<int> v(n);
    for (auto& x : v) if (fscanf(f, "%d", &x) != 1) return 2;
    fclose(f);
    R.thorough = std::string(tier) == "thorough";
    R.replay = true;
    R.only_sub = subv;
    for (auto& sp : spaces) {
      if (sp.name != name) continue;
      Chooser c;
      c.start();
      c.preset(v);
      arm();
      try {
        Exec e = sp.gen(c);
        if (e) e();
      } catch (Violation& x) {
        printf("case: %s\nviolation: %s\n", R.desc.c_str(), x.msg.c_str());
        return 1;
      }
      printf("case: %s\nno violation\n", R.desc.c_str());
      return 0;
    }
    return 2;
  }

  if (!shared.empty()) {
    int fd = open(shared.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 2;
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 2;
    S = static_cast<Shared*>(p);
  }
  S->magic = 0x4d43;
  std::string violation, vdesc;
  std::string per_space;
  for (size_t si = 0; si < spaces.size() && violation.empty(); ++si) {
    if (!only_space.empty() && spaces[si].name != only_space) continue;
    Chooser c;
    c.set_shard(shard, nsh);
    unsigned long long idx = 0, c0 = R.cases;
    S->space = (uint32_t)si;
    do {
      c.start();
      S->n = 0;
      S->sub = -1;
      S->vals[0] = -1;
      arm();
      R.desc.clear();
      try {
        Exec e = spaces[si].gen(c);
        size_t n = c.used();
        bool mine = c.split() || (idx++ % nsh) == (unsigned)shard;
        if (!e || !mine) continue;
        if (n > 1000) { fprintf(stderr, "choice vector too long\n"); return 2; }
        memcpy(S->vals, c.vals().data(), n * sizeof(int));
        S->n = (uint32_t)n;
        S->cases = ++R.cases;
        e();
      } catch (Violation& x) {
        violation = x.msg;
        vdesc = R.desc;
        // the vector may not have been published if gen itself failed
        size_t n = c.used();
        memcpy(S->vals, c.vals().data(), n * sizeof(int));
        S->n = (uint32_t)n;
        break;
      }
    } while (c.next());
    per_space += strf("%s\"%s\":%llu", per_space.empty() ? "" : ",", spaces[si].name.c_str(), R.cases - c0);
  }
  S->done = 1;
  struct itimerval t = {};
  setitimer(ITIMER_PROF, &t, nullptr);
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"spaces\":{%s},\"violation\":\"%s\",\"desc\":\"%s\",\"samples\":[",
            R.cases, R.states, R.transitions, per_space.c_str(), jesc(violation).c_str(), jesc(vdesc).c_str());
    for (size_t i = 0; i < R.samples.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? "," : "", jesc(R.samples[i]).c_str());
    fprintf(f, "],\"known\":{");
    bool firstk = true;
    for (auto& k : knowns) {
      fprintf(f, "%s\"%s\":%llu", firstk ? "" : ",", jesc(k.first).c_str(), k.second.second);
      firstk = false;
    }
    fprintf(f, "},\"outcomes\":[");
    bool first = true;
    for (uint64_t h : R.outcomes) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
  }
  if (!violation.empty()) {
    fprintf(stderr, "violation: %s\ncase: %s\n", violation.c_str(), vdesc.c_str());
    _exit(1);
  }
  if (out.empty())
    printf("cases=%llu states=%llu transitions=%llu outcomes=%zu {%s}\n", R.cases, R.states, R.transitions, R.outcomes.size(), per_space.c_str());
  fflush(stdout);
  _exit(0);
}
