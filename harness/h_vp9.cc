// C24, C25: VP9 frame headers, superframe indexes, codec private data and level statistics.
#include <algorithm>
#include <cmath>
#include <memory>
#include "ebml.h"
#include "common/hdr_util.h"
#include "common/libwebm_util.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
using eb::Bytes;
using mc::R;
using mc::strf;
typedef unsigned long long ull;
typedef long long ll;

namespace {
struct Quiet {
  FILE* e;
  static FILE* null() { static FILE* f = fopen("/dev/null", "w"); return f; }
  Quiet() { e = stderr; stderr = null(); }
  ~Quiet() { stderr = e; }
};

// ---- the uncompressed header syntax of the VP9 specification (6.2), once, for a bit source that is
// either given bytes (reading) or a choice tree (generating)
struct Src {
  virtual int f(const char* name, int bits) = 0;
  virtual ~Src() {}
};
struct Reader : Src {
  const Bytes& b;
  size_t pos = 0;
  bool over = false;
  Reader(const Bytes& x) : b(x) {}
  int f(const char*, int bits) override {
    int v = 0;
    for (int i = 0; i < bits; ++i, ++pos) {
      int bit = 0;
      if (pos / 8 < b.size()) bit = (uint8_t)b[pos / 8] >> (7 - pos % 8) & 1;
      else over = true;
      v = v << 1 | bit;
    }
    return v;
  }
};
struct Hdr {
  bool ok = true;       // a header the specification defines
  int profile = 0, existing = 0, key = 0, altref = 0, err = 0, intra_only = 0;
  bool has_colour = false, has_size = false, has_refresh = false, has_tiles = false;
  int depth = 0, cs = 0, w = 0, h = 0, dw = 0, dh = 0, refresh = 0, fpm = 0, rows = 0, cols = 0;
};
void colour(Src& s, Hdr& h) {
  h.has_colour = true;
  h.depth = h.profile >= 2 ? (s.f("depth12", 1) ? 12 : 10) : 8;
  h.cs = s.f("cs", 3);
  bool sub = h.profile == 1 || h.profile == 3;
  if (h.cs != 7) {
    s.f("range", 1);
    if (sub) { s.f("ssx", 1); s.f("ssy", 1); if (s.f("zero", 1)) h.ok = false; }
  } else {
    if (!sub) { h.ok = false; return; }
    if (s.f("zero", 1)) h.ok = false;
  }
}
void size(Src& s, Hdr& h) {
  h.has_size = true;
  h.w = s.f("size", 16) + 1;
  h.h = s.f("size", 16) + 1;
  h.dw = h.w;
  h.dh = h.h;
  if (s.f("render", 1)) { h.dw = s.f("size", 16) + 1; h.dh = s.f("size", 16) + 1; }
}
void tail(Src& s, Hdr& h) {
  if (!h.err) { s.f("refreshctx", 1); h.fpm = s.f("fpm", 1); } else h.fpm = 1;
  s.f("ctx", 2);
  s.f("lflevel", 6);
  s.f("sharp", 3);
  if (s.f("lfdelta", 1) && s.f("lfupdate", 1)) for (int i = 0; i < 6; ++i) if (s.f("lfd", 1)) s.f("lfv", 7);
  s.f("baseq", 8);
  for (int i = 0; i < 3; ++i) if (s.f("dq", 1)) s.f("dqv", 4);
  if (s.f("seg", 1)) {
    if (s.f("segmap", 1)) {
      for (int i = 0; i < 7; ++i) if (s.f("prob", 1)) s.f("probv", 8);
      int t = s.f("temporal", 1);
      for (int i = 0; i < 3; ++i) if (t && s.f("prob", 1)) s.f("probv", 8);
    }
    if (s.f("segdata", 1)) {
      s.f("abs", 1);
      static const int bits[4] = {8, 6, 2, 0}, sign[4] = {1, 1, 0, 0};
      for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 4; ++j)
          if (s.f("feat", 1)) { if (bits[j]) s.f("featv", bits[j]); if (sign[j]) s.f("feats", 1); }
    }
  }
  int sb = ((h.w + 7) / 8 + 7) / 8, lo = 0, hi = 1;
  while ((64 << lo) < sb) ++lo;
  while ((sb >> hi) >= 4) ++hi;
  --hi;
  int cols = lo;
  while (cols < hi && s.f("tilecol", 1)) ++cols;
  int rows = s.f("tilerow", 1);
  if (rows) rows += s.f("tilerow", 1);
  h.has_tiles = true;
  h.cols = 1 << cols;
  h.rows = 1 << rows;
}
bool sync(Src& s) { int v = s.f("sync", 24); return v == 0x498342; }
// whole = also the part of non-key headers that the library does not look at
Hdr syntax(Src& s, bool whole = false) {
  Hdr h;
  if (s.f("marker", 2) != 2) { h.ok = false; return h; }
  int lo = s.f("profile", 1);
  h.profile = s.f("profile", 1) * 2 + lo;
  if (h.profile == 3 && s.f("zero", 1)) { h.ok = false; return h; }
  h.existing = s.f("existing", 1);
  if (h.existing) return h;
  h.key = !s.f("type", 1);
  h.altref = !s.f("show", 1);
  h.err = s.f("err", 1);
  if (h.key) {
    if (!sync(s)) { h.ok = false; return h; }
    colour(s, h);
    size(s, h);
    tail(s, h);
  } else {
    h.intra_only = h.altref ? s.f("intra", 1) : 0;
    if (!h.err) s.f("reset", 2);
    h.has_refresh = true;
    if (h.intra_only) {
      if (!sync(s)) { h.ok = false; return h; }
      if (h.profile > 0) colour(s, h);
      else { h.depth = 8; h.cs = 1; h.has_colour = true; }
      h.refresh = s.f("refresh", 8);
      size(s, h);
    } else {
      h.refresh = s.f("refresh", 8);
      for (int i = 0; i < 3; ++i) { s.f("ref", 3); s.f("bias", 1); }
      bool found = false;
      for (int i = 0; i < 3 && !found; ++i) found = s.f("found", 1);
      if (!found) size(s, h);
    }
  }
  (void)whole;
  return h;
}
struct Gen : Src {
  mc::Chooser& c;
  Bytes out;
  size_t n = 0;
  bool key, intra, bad;   // bad: also values the specification forbids
  bool deep = false;      // the optional parts (loop filter deltas, segmentation) are there unless deviated from
  Gen(mc::Chooser& cc, bool k, bool i, bool b) : c(cc), key(k), intra(i), bad(b) {}
  void put(int v, int bits) {
    for (int i = bits - 1; i >= 0; --i, ++n) {
      if (n % 8 == 0) out.push_back(0);
      if (v >> i & 1) out.back() |= (char)(0x80 >> n % 8);
    }
  }
  int f(const char* name, int bits) override {
    std::string s = name;
    int v = 0;
    static const int sizes[] = {351, 0, 1, 7, 8, 15, 16, 62, 63, 64, 127, 128, 254, 255, 256, 447, 448, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4159,
                                4160, 8191, 8192, 16383, 16384, 32767, 32768, 65534, 65535};
    if (s == "marker") v = bad ? 2 ^ c.dev(4) : 2;
    else if (s == "zero") v = bad ? c.dev(2) : 0;
    else if (s == "existing") v = bad ? c.dev(2) : 0;
    else if (s == "type") v = key ? 0 : 1;
    else if (s == "show") v = intra ? 0 : !c.dev(2);
    else if (s == "intra") v = intra;
    else if (s == "sync") { int k = bad ? c.dev(25) : 0; v = k ? 0x498342 ^ 1 << (k - 1) : 0x498342; }
    else if (s == "profile") v = c.pick(2);
    else if (s == "cs") { v = (1 + c.dev(8)) % 8; }
    else if (s == "size") v = sizes[c.dev(sizeof sizes / sizeof *sizes)];
    else if (deep && (s == "seg" || s == "segmap" || s == "temporal" || s == "segdata" || s == "lfdelta" || s == "lfupdate" || s == "tilerow")) v = !c.dev(2);
    else if (bits == 1) v = c.dev(2);
    else if (bits == 2) v = c.dev(4);
    else if (bits == 8 && s == "refresh") { static const int r[] = {0, 1, 0x80, 0xff, 0x55, 0x2a}; v = r[c.dev(6)]; }
    else { int k = c.dev(3); v = k == 0 ? 0 : k == 1 ? (1 << bits) - 1 : 1 << (bits - 1); }
    put(v, bits);
    return v;
  }
};
typedef vp9_parser::Vp9HeaderParser P;
bool parse(P& p, const Bytes& b) {
  Quiet q;
  std::unique_ptr<uint8_t[]> d(new uint8_t[b.size()]);   // exact bounds
  memcpy(d.get(), b.data(), b.size());
  mc::tick();
  return p.ParseUncompressedHeader(d.get(), b.size());
}
struct Prev { int depth = 0, w = 0, h = 0, dw = 0, dh = 0; };
void expect(const P& p, const Hdr& h, size_t len, Prev* pv, const char* when) {
  auto eq = [&](const char* what, int got, int want) {
    if (got != want) FAIL("%s: %s is %d, the specification says %d", when, what, got, want);
  };
  CHECK(p.frame_size() == len, "%s: frame size %zu for %zu bytes", when, p.frame_size(), len);
  eq("profile", p.profile(), h.profile);
  eq("key", p.key() != 0, h.key);
  eq("altref", p.altref() != 0, h.altref);
  if (h.existing) return;
  eq("error resilience", p.error_resilient_mode() != 0, h.err);
  if (h.has_colour) { eq("bit depth", p.bit_depth(), h.depth); eq("colour space", p.color_space(), h.cs); pv->depth = h.depth; }
  else eq("bit depth (inherited)", p.bit_depth(), pv->depth);
  if (h.has_size) {
    eq("width", p.width(), h.w); eq("height", p.height(), h.h);
    eq("display width", p.display_width(), h.dw); eq("display height", p.display_height(), h.dh);
    pv->w = h.w; pv->h = h.h;
  } else { eq("width (inherited)", p.width(), pv->w); eq("height (inherited)", p.height(), pv->h); }
  if (h.has_refresh) eq("refresh flags", p.refresh_frame_flags(), h.refresh);
  if (h.has_tiles) { eq("tile columns", p.column_tiles(), h.cols); eq("tile rows", p.row_tiles(), h.rows); eq("parallel mode", p.frame_parallel_mode() != 0, h.fpm); }
}
// A parser that has seen a frame before, with every field different from what most headers carry.
const Bytes& warm(int k) {
  static const Bytes b[2] = {
      // profile 2 key frame, 12 bit, 4097 x 33 display 99 x 77, error resilient, 16 tile columns
      [] {
        struct W : Src { Bytes o; size_t n = 0;
          int f(const char* nm, int bits) override {
            std::string s = nm; int v = 0;
            if (s == "marker") v = 2; else if (s == "sync") v = 0x498342; else if (s == "show" || s == "err" || s == "depth12" || s == "render") v = 1;
            else if (s == "profile") v = pr++ ? 1 : 0; else if (s == "cs") v = 5; else if (s == "size") { static const int z[] = {4096, 32, 98, 76}; v = z[sz++]; }
            else if (s == "tilecol" || s == "tilerow") v = 1;
            for (int i = bits - 1; i >= 0; --i, ++n) { if (n % 8 == 0) o.push_back(0); if (v >> i & 1) o.back() |= (char)(0x80 >> n % 8); }
            return v; }
          int pr = 0, sz = 0; } w;
        syntax(w);
        return w.o; }(), Bytes("\x88", 1)};
  return b[k];
}
void header(const Bytes& h) {
  // (0) exactly the header, (1) followed by data, on a fresh and on a used parser; (2) every truncation
  for (int used = 0; used < 2; ++used)
    for (int more = 0; more < 2; ++more) {
      if (!mc::sub(used * 2 + more)) continue;
      P p;
      Prev pv;
      if (used) {
        CHECK(parse(p, warm(0)), "the warm-up frame is refused");
        Reader wr(warm(0));
        Hdr wh = syntax(wr);
        expect(p, wh, warm(0).size(), &pv, "warm-up frame");
      }
      Bytes b = h + (more ? Bytes("\xff\x00\xa5\xff\xff", 5) : Bytes());
      Reader r(b);
      Hdr e = syntax(r);
      bool ok = parse(p, b);
      mc::state();
      if (!e.ok) continue;   // not a header the specification defines: only safety is required
      if (r.over) CHECK(!ok, "a truncated header of %zu bytes (%s) is accepted", b.size(), mc::hex(b.data(), b.size()).c_str());
      else CHECK(ok, "the header %s is refused", mc::hex(b.data(), b.size()).c_str());
      if (ok) expect(p, e, b.size(), &pv, strf("header %s%s", mc::hex(b.data(), b.size()).c_str(), used ? " after another frame" : "").c_str());
    }
  for (size_t n = 1; n < h.size(); ++n) {
    if (!mc::sub(10 + n)) continue;
    P p;
    Prev pv;
    Bytes b = h.substr(0, n);
    Reader r(b);
    Hdr e = syntax(r);
    bool ok = parse(p, b);
    mc::state();
    if (!e.ok) continue;
    CHECK(ok == !r.over, "%zu of %zu bytes of the header %s: %s", n, h.size(), mc::hex(h.data(), h.size()).c_str(), ok ? "accepted" : "refused");
  }
  mc::outcome(mc::hstr(h));
}
mc::Exec gen_hdr(mc::Chooser& c, bool key, bool intra, bool bad, int budget, bool deep = false) {
  c.set_budget(budget);
  Gen g(c, key, intra, bad);
  g.deep = deep;
  syntax(g);
  Bytes b = g.out;
  return [b] { R.desc = "header " + mc::hex(b.data(), b.size()); header(b); };
}
}  // namespace

SPACE(C24, key) { return gen_hdr(c, true, false, false, R.thorough ? 4 : 3); }
SPACE(C24, optional) { return gen_hdr(c, true, false, false, R.thorough ? 3 : 2, true); }
SPACE(C24, inter) { return gen_hdr(c, false, false, false, R.thorough ? 5 : 3); }
SPACE(C24, intra) { return gen_hdr(c, false, true, false, R.thorough ? 5 : 3); }
SPACE(C24, invalid) { bool k = c.flag(), i = !k && c.flag(); return gen_hdr(c, k, i, true, R.thorough ? 3 : 2); }
SPACE(C24, tiles) {   // every width at every tile count of key frames
  int w = c.pick(R.thorough ? 65536 : 4224);
  return [w] {
    R.desc = strf("width %d", w + 1);
    int sb = (w / 8 + 1 + 7) / 8, most = 1;
    while (sb >> most >= 4) ++most;
    for (int ones = 0; ones <= most; ++ones)
      for (int rows = 0; rows < 3; ++rows) {
        if (!mc::sub(ones * 3 + rows)) continue;
        struct W : Src { Bytes o; size_t n = 0; int w, ones, rows;
          int f(const char* nm, int bits) override {
            std::string s = nm; int v = 0;
            if (s == "marker") v = 2; else if (s == "sync") v = 0x498342; else if (s == "show") v = 1;
            else if (s == "size") { v = sz++ ? 100 : w; }
            else if (s == "tilecol") v = ones-- > 0;
            else if (s == "tilerow") v = rows-- > 0;
            for (int i = bits - 1; i >= 0; --i, ++n) { if (n % 8 == 0) o.push_back(0); if (v >> i & 1) o.back() |= (char)(0x80 >> n % 8); }
            return v; }
          int sz = 0; } g;
        g.w = w; g.ones = ones; g.rows = rows;
        syntax(g);
        Reader r(g.o);
        Hdr e = syntax(r);
        P p;
        Prev pv;
        mc::state();
        CHECK(parse(p, g.o), "width %d refused", w + 1);
        expect(p, e, g.o.size(), &pv, strf("width %d", w + 1).c_str());
        mc::outcome(mc::hstr(g.o));
      }
  };
}
SPACE(C24, bytes) {   // all short byte strings, and all two bytes behind every kind of header start
  int k = c.pick(R.thorough ? 9 : 7);
  int b0 = c.pick(256);
  return [k, b0] {
    static const Bytes pre[9] = {Bytes(), Bytes("\x82\x49\x83\x42", 4), Bytes("\xa2\x49\x83\x42", 4), Bytes("\x92\x49\x83\x42", 4), Bytes("\xb1\x24\xc1\xa1", 4), Bytes("\x86", 1), Bytes("\x85", 1),
                                 Bytes("\x82\x49\x83\x42\x00\x01\x00\x01", 8), Bytes("\xb1\x24\xc1\xa1\x00\x10\x00\x10\x00", 9)};
    for (int b1 = -1; b1 < 256; ++b1) {
      Bytes b = pre[k];
      b.push_back((char)b0);
      if (b1 >= 0) b.push_back((char)b1);
      if (!mc::sub(b1 + 1)) continue;
      R.desc = "bytes " + mc::hex(b.data(), b.size());
      P p;
      Prev pv;
      Reader r(b);
      Hdr e = syntax(r);
      bool ok = parse(p, b);
      mc::state();
      if (!e.ok) continue;
      CHECK(ok == !r.over, "%s is %s", mc::hex(b.data(), b.size()).c_str(), ok ? "accepted" : "refused");
      if (ok) expect(p, e, b.size(), &pv, "bytes");
      mc::outcome(mc::hstr(b));
    }
  };
}
SPACE(C24, sequences) {   // histories of headers on one parser: what is inherited and what is not
  struct Sp { const char* v; };
  int n = R.thorough ? 4 : 3;
  std::vector<int> ks;
  for (int i = 0; i < n; ++i) ks.push_back(c.pick(12));
  return [ks] {
    P p;
    Prev pv;
    bool any = false;
    std::string d;
    for (int k : ks) {
      struct W : Src { Bytes o; size_t n = 0; int k, sz = 0, pr = 0, fr = 0;
        int f(const char* nm, int bits) override {
          std::string s = nm; int v = 0;
          bool key = k < 4, intra = k == 4 || k == 5;
          int prof = (k % 4) == 0 ? 0 : k == 1 ? 2 : k == 2 ? 1 : k == 3 ? 3 : k == 5 ? 2 : 0;
          if (s == "marker") v = 2; else if (s == "sync") v = 0x498342;
          else if (s == "profile") v = prof >> pr++ & 1;
          else if (s == "existing") v = k == 11;
          else if (s == "type") v = !key;
          else if (s == "show") v = !(intra || k == 7 || k == 2);
          else if (s == "intra") v = intra;
          else if (s == "err") v = k == 3 || k == 8;
          else if (s == "cs") v = 2 + k % 3;
          else if (s == "depth12") v = k == 1;
          else if (s == "fpm") v = k == 2;
          else if (s == "size") v = 200 * (k + 1) + 700 * sz++;
          else if (s == "render") v = k == 1 || k == 5;
          else if (s == "refresh") v = 1 << k % 8;
          else if (s == "found") v = k >= 8 ? fr++ == k - 8 : 0;
          else if (s == "seg" || s == "segmap") v = k == 3;
          else if (s == "tilecol") v = k & 1; else if (s == "tilerow") v = k >> 1 & 1;
          for (int i = bits - 1; i >= 0; --i, ++n) { if (n % 8 == 0) o.push_back(0); if (v >> i & 1) o.back() |= (char)(0x80 >> n % 8); }
          return v; } } w;
      w.k = k;
      syntax(w);
      Reader r(w.o);
      Hdr e = syntax(r);
      d += strf(" %d", k);
      R.desc = "frames" + d;
      CHECK(parse(p, w.o), "frame of kind %d refused", k);
      mc::state();
      if (!any && !e.has_colour && !e.existing) { pv.depth = p.bit_depth(); }
      if (!any && !e.has_size && !e.existing) { pv.w = p.width(); pv.h = p.height(); }
      any = true;
      expect(p, e, w.o.size(), &pv, R.desc.c_str());
    }
    mc::outcome(mc::hstr(d));
  };
}
// ---- superframe indexes
namespace {
// Reference: ranges of the frames, or none.  "broken" = an index that does not fit its data.
bool ref_super(const Bytes& b, std::vector<std::pair<size_t, size_t>>* out, bool* broken) {
  *broken = false;
  uint8_t m = b.back();
  if (m >> 5 != 6) return false;
  size_t n = (m & 7) + 1, w = (m >> 3 & 3) + 1, idx = 2 + n * w;
  if (b.size() < idx || (uint8_t)b[b.size() - idx] != m) { *broken = true; return false; }
  size_t room = b.size() - idx, at = 0, q = b.size() - idx + 1;
  for (size_t i = 0; i < n; ++i) {
    size_t len = 0;
    for (size_t k = 0; k < w; ++k) len |= (size_t)(uint8_t)b[q++] << (8 * k);
    if (len > room - at) { *broken = true; return false; }
    out->push_back({at, len});
    at += len;
  }
  return true;
}
void super_case(const Bytes& b) {
  R.desc = "superframe " + mc::hex(b.data(), b.size());
  std::vector<std::pair<size_t, size_t>> want;
  bool broken;
  bool is = ref_super(b, &want, &broken);
  std::unique_ptr<uint8_t[]> d(new uint8_t[b.size()]);
  memcpy(d.get(), b.data(), b.size());
  libwebm::Ranges got;
  bool err = false;
  bool ok;
  { Quiet q; ok = libwebm::ParseVP9SuperFrameIndex(d.get(), b.size(), &got, &err); }
  mc::tick();
  mc::state();
  CHECK(ok == is, "superframe index %s, expected %s", ok ? "found" : "not found", is ? "found" : "not found");
  CHECK(err == broken, "error %d, expected %d", err, broken);
  if (!is) return;
  CHECK(got.size() == want.size(), "%zu frames, expected %zu", got.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    CHECK(got[i].offset == want[i].first && got[i].length == want[i].second, "frame %zu at %zu+%zu, expected %zu+%zu", i, got[i].offset, got[i].length, want[i].first, want[i].second);
  mc::outcome(mc::hstr(b));
}
}  // namespace
SPACE(C24, superframes) {   // every marker x frame sizes around the room there is
  int m = c.pick(256), big = c.pick(5);
  c.set_budget(R.thorough ? 3 : 2);
  size_t n = (m & 7) + 1, w = (m >> 3 & 3) + 1;
  static const size_t rooms[] = {0, 3, 300, 70000, 16777300};
  size_t room = rooms[big];
  Bytes idx;
  idx.push_back((char)m);
  size_t sum = 0;
  for (size_t i = 0; i < n; ++i) {
    size_t lim = w == 4 ? 0xffffffff : ((size_t)1 << 8 * w) - 1;
    size_t def = std::min<size_t>(lim, room / n);
    size_t left = room > sum ? room - sum : 0;
    size_t opts[] = {def, 0, 1, left, left + 1, lim, (size_t)1 << (8 * w - 1), left > 0 ? left - 1 : 0};
    size_t v = std::min(opts[c.dev(8)], lim);
    for (size_t k = 0; k < w; ++k) idx.push_back((char)(v >> 8 * k));
    sum += v;
  }
  int first = c.dev(3);   // marker at the start of the index: right, wrong, missing
  idx.push_back((char)m);
  if (first == 1) idx[0] ^= 1;
  return [=] {
    Bytes b;
    if (room <= 4096) { b.assign(room, '\x81'); b += idx; }
    if (first == 2) b = b.substr(0, room) + idx.substr(std::min<size_t>(idx.size() - 1, 1));
    if (room > 4096) {
      static std::unique_ptr<uint8_t[]> buf(new uint8_t[16777300 + 64]);
      static bool init = false;
      if (!init) { memset(buf.get(), 0x81, 16777300 + 64); init = true; }
      Bytes tl = first == 2 ? idx.substr(1) : idx;
      R.desc = strf("superframe of %zu bytes + %s", room, mc::hex(tl.data(), tl.size()).c_str());
      memcpy(buf.get() + room, tl.data(), tl.size());
      Bytes whole((const char*)buf.get() + (room - 64), 64 + tl.size());
      // reference on numbers only
      size_t total = room + tl.size();
      uint8_t mk = tl.back();
      bool is = mk >> 5 == 6, broken = false;
      std::vector<size_t> lens;
      if (is) {
        size_t nn = (mk & 7) + 1, ww = (mk >> 3 & 3) + 1, il = 2 + nn * ww;
        const uint8_t* q = buf.get() + total - il;
        if (*q != mk) { is = false; broken = true; }
        else {
          size_t rm = total - il, at = 0;
          ++q;
          for (size_t i = 0; i < nn && is; ++i) {
            size_t len = 0;
            for (size_t k = 0; k < ww; ++k) len |= (size_t)*q++ << 8 * k;
            if (len > rm - at) { is = false; broken = true; }
            lens.push_back(len);
            at += len;
          }
        }
      }
      libwebm::Ranges got;
      bool err = false, ok;
      { Quiet qq; ok = libwebm::ParseVP9SuperFrameIndex(buf.get(), total, &got, &err); }
      mc::tick();
      mc::state();
      memset(buf.get() + room, 0x81, 64);
      CHECK(ok == is && err == broken, "found %d error %d, expected %d %d", ok, err, is, broken);
      if (!is) return;
      CHECK(got.size() == lens.size(), "%zu frames, expected %zu", got.size(), lens.size());
      size_t at = 0;
      for (size_t i = 0; i < lens.size(); ++i) {
        CHECK(got[i].offset == at && got[i].length == lens[i], "frame %zu at %zu+%zu, expected %zu+%zu", i, got[i].offset, got[i].length, at, lens[i]);
        at += lens[i];
      }
      mc::outcome(mc::mix(mc::hstr(tl), room));
      return;
    }
    if (b.empty()) return;
    super_case(b);
  };
}
SPACE(C24, superbytes) {   // all short strings over the bytes that matter
  static const int al[] = {0, 1, 2, 3, 0xc0, 0xc1, 0xc8, 0xc9, 0xd0, 0xff, 0xe0, 0xa0};
  int n = 1 + c.pick(R.thorough ? 6 : 5);
  Bytes b;
  for (int i = 0; i < n; ++i) b.push_back((char)al[c.pick(12)]);
  return [b] { super_case(b); };
}
// ---- codec private data
SPACE(C24, private) {
  static const int ids[] = {1, 2, 3, 4, 0, 5, 0x81, 0xff};
  static const int lens[] = {1, 0, 2, 0xff};
  int n = 1 + c.pick(3);
  c.set_budget(R.thorough ? 4 : 2);
  Bytes b;
  for (int i = 0; i < n; ++i) {
    int id = ids[c.pick(R.thorough ? 8 : 6)];
    b.push_back((char)id);
    b.push_back((char)lens[c.dev(4)]);
    static const int v1[] = {0, 1, 2, 3, 4, 128, 255}, v2[] = {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62, 0, 1, 12, 22, 53, 63, 255}, v3[] = {8, 10, 12, 0, 9, 11, 13, 255};
    int few = n == 3 && !R.thorough ? 1 : 0;
    static const int w2[] = {10, 62, 12}, w3[] = {8, 12, 9}, w1[] = {0, 3, 4};
    int v = few ? (id == 2 ? w2 : id == 3 ? w3 : w1)[c.pick(3)] : id == 2 ? v2[c.pick(21)] : id == 3 ? v3[c.pick(8)] : id == 1 || id == 4 ? v1[c.pick(7)] : c.pick(2);
    b.push_back((char)v);
  }
  int tail = c.dev(3), cut = c.dev(3);
  for (int i = 0; i < tail; ++i) b.push_back((char)(i + 1));
  b.resize(b.size() - cut);
  return [b] {
    R.desc = "codec private " + mc::hex(b.data(), b.size());
    std::unique_ptr<uint8_t[]> d(new uint8_t[b.size()]);
    memcpy(d.get(), b.data(), b.size());
    libwebm::Vp9CodecFeatures f;
    f.profile = 77;
    bool ok = libwebm::ParseVpxCodecPrivate(d.get(), (int)b.size(), &f);
    mc::tick();
    mc::state();
    const int none = libwebm::Vp9CodecFeatures::kValueNotPresent;
    int want[4] = {none, none, none, none};
    bool good = b.size() >= 3;
    for (size_t i = 0; good && i + 3 <= b.size(); i += 3) {
      int id = (uint8_t)b[i], len = (uint8_t)b[i + 1], v = (uint8_t)b[i + 2];
      if (id < 1 || id > 4 || len != 1) { good = false; break; }
      bool valid = id == 1 || id == 4 ? v <= 3 : id == 3 ? v == 8 || v == 10 || v == 12 : (v >= 10 && v <= 62 && v / 10 != 0 && (v % 10 <= 1 || ((v / 10 == 5 || v / 10 == 6) && v % 10 == 2)));
      if (!valid || (want[id - 1] != none && want[id - 1] != v)) { good = false; break; }
      want[id - 1] = v;
    }
    if (b.size() % 3) {    // an incomplete feature: only what was decoded matters
      if (!ok || !good) return;
    }
    CHECK(ok == good, "codec private data is %s", ok ? "accepted" : "refused");
    if (!ok) return;
    int got[4] = {f.profile, f.level, f.bit_depth, f.chroma_subsampling};
    for (int i = 0; i < 4; ++i) CHECK(got[i] == want[i], "feature %d is %d, expected %d", i + 1, got[i], want[i]);
    mc::outcome(mc::hstr(b));
  };
}

// ---- level statistics
namespace {
struct Frame { bool key = false, alt = false, intra = false, existing = false; int w = 0, h = 0, depth = 8, refresh = 0, cols = 0; size_t bytes = 0; ll ns = 0; };
struct Row { int level; double rate, size, breadth, bitrate, cpb, ratio; int tiles, alt, refs; };
// VP9 levels as published by the WebM project (CPB size not limited from 5.2 on)
const Row kRows[14] = {
    {10, 829440, 36864, 512, 200, 400, 2, 1, 4, 8},         {11, 2764800, 73728, 768, 800, 1000, 2, 1, 4, 8},
    {20, 4608000, 122880, 960, 1800, 1500, 2, 1, 4, 8},     {21, 9216000, 245760, 1344, 3600, 2800, 2, 2, 4, 8},
    {30, 20736000, 552960, 2048, 7200, 6000, 2, 4, 4, 8},   {31, 36864000, 983040, 2752, 12000, 10000, 2, 4, 4, 8},
    {40, 83558400, 2228224, 4160, 18000, 16000, 4, 4, 4, 8}, {41, 160432128, 2228224, 4160, 30000, 18000, 4, 4, 5, 6},
    {50, 311951360, 8912896, 8384, 60000, 36000, 6, 8, 6, 4}, {51, 588251136, 8912896, 8384, 120000, 46000, 8, 8, 10, 4},
    {52, 1176502272, 8912896, 8384, 180000, 0, 8, 8, 10, 4}, {60, 1176502272, 35651584, 16832, 180000, 0, 8, 16, 10, 4},
    {61, 2353004544., 35651584, 16832, 240000, 0, 8, 16, 10, 4}, {62, 4706009088., 35651584, 16832, 480000, 0, 8, 16, 10, 4}};

struct Expect {
  ll rate = 0, size = 0, breadth = 0, cpb_bytes = 0;
  double bitrate = 0, ratio = 0;
  bool bitrate_defined = false;
  int cols = 0, alt = -1, refs = 0, level = 0;
  bool level_clear = true;   // no limit is within rounding distance
};
Expect ref_stats(const std::vector<Frame>& fs, ll duration, bool estimate, double grace) {
  Expect e;
  ll total = 0, shown = 0;
  double raw = 0;
  int since = 0, nalt = 0, slots = 0;
  for (size_t i = 0; i < fs.size(); ++i) {
    const Frame& f = fs[i];
    ll pic = (ll)f.w * f.h;
    e.size = std::max(e.size, pic);
    e.breadth = std::max<ll>(e.breadth, std::max(f.w, f.h));
    ll win = 0;
    for (size_t j = 0; j <= i; ++j) if (fs[j].ns > f.ns - 1000000000) win += (ll)fs[j].w * fs[j].h;
    e.rate = std::max(e.rate, win);
    ll four = 0;
    for (size_t j = i >= 3 ? i - 3 : 0; j <= i; ++j) four += fs[j].bytes;
    e.cpb_bytes = std::max(e.cpb_bytes, four);
    total += f.bytes;
    e.cols = std::max(e.cols, f.cols);
    if (f.alt) { if (nalt++) e.alt = e.alt < 0 ? since : std::min(e.alt, since); since = 0; }
    else { ++since; ++shown; raw += (double)pic * f.depth * 3 / 2; }
    if (f.key) slots = 0;
    else { slots |= f.refresh; e.refs = std::max(e.refs, __builtin_popcount(slots)); }
  }
  e.ratio = raw / (8.0 * total);
  ll span = fs.back().ns - fs[0].ns;
  double dur = (duration == -1 ? span : duration) / 1e9;
  bool add = estimate && (duration == -1 || duration <= span);
  if (add && shown >= 2) dur += span / 1e9 / (shown - 1);
  e.bitrate_defined = !(add && shown < 2) && dur > 0;
  if (e.bitrate_defined) e.bitrate = total * 8 / dur / 1000;
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); };
  auto chk = [&](double v, double lim, bool exact) { if (!exact && near(v, lim)) e.level_clear = false; return v <= lim; };
  e.level = 0;
  for (auto& r : kRows) {
    bool ok = chk(e.rate, r.rate * (grace / 100 + 1), grace == 0) && e.size <= r.size && e.breadth <= r.breadth && chk(e.bitrate, r.bitrate, false) &&
              (r.cpb == 0 || e.cpb_bytes * 8 <= r.cpb * 1000) && e.cols <= r.tiles && (e.alt < 0 || e.alt >= r.alt) && e.refs <= r.refs && chk(r.ratio, e.ratio, false);
    if (ok) { e.level = r.level; break; }
  }
  return e;
}
// Encodes the header of a frame; the frame itself is that header followed by anything.
Bytes encode(const Frame& f, bool sized) {
  struct W : Src { Bytes o; size_t n = 0; const Frame* fr; bool sized; int pr = 0, sz = 0, want_cols = 0;
    int f(const char* nm, int bits) override {
      std::string s = nm; int v = 0;
      int prof = fr->depth == 8 ? 0 : 2;
      if (s == "marker") v = 2; else if (s == "sync") v = 0x498342;
      else if (s == "profile") v = prof >> pr++ & 1;
      else if (s == "existing") v = fr->existing;
      else if (s == "type") v = !fr->key; else if (s == "show") v = !fr->alt; else if (s == "intra") v = fr->intra;
      else if (s == "depth12") v = fr->depth == 12; else if (s == "cs") v = 2;
      else if (s == "size") v = (sz++ == 0 ? fr->w : fr->h) - 1;
      else if (s == "refresh") v = fr->refresh;
      else if (s == "found") v = !sized;
      else if (s == "tilecol") v = want_cols-- > 0;
      for (int i = bits - 1; i >= 0; --i, ++n) { if (n % 8 == 0) o.push_back(0); if (v >> i & 1) o.back() |= (char)(0x80 >> n % 8); }
      return v; } } w;
  w.fr = &f;
  w.sized = sized;
  int sb = ((f.w + 7) / 8 + 7) / 8, lo = 0;
  while ((64 << lo) < sb) ++lo;
  int lg = 0;
  while (1 << lg < f.cols) ++lg;
  w.want_cols = lg - lo;
  syntax(w);
  return w.o;
}
struct Feed { Frame f; bool sized = true; };
void stats_case(std::vector<Feed> in, ll duration, bool estimate, double grace) {
  static const size_t kMax = 64 << 20;
  static uint8_t* buf = new uint8_t[kMax]();
  P p;
  vp9_parser::Vp9LevelStats st;
  if (grace != 1.5) st.set_max_luma_sample_rate_grace_percent(grace);
  if (!estimate) st.set_estimate_last_frame_duration(false);
  std::vector<Frame> fs;
  int w = 0, h = 0, depth = 0, cols = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    Frame f = in[i].f;
    Bytes b = encode(f, in[i].sized);
    if (f.bytes < b.size()) f.bytes = b.size();
    if (f.bytes > kMax) f.bytes = kMax;
    // what a decoder would know about the frame
    Reader r(b);
    Hdr hd = syntax(r);
    if (hd.has_size) { w = hd.w; h = hd.h; }
    if (hd.has_colour) depth = hd.depth;
    if (hd.has_tiles) cols = hd.cols;
    f.w = w; f.h = h; f.depth = depth; f.cols = cols; f.refresh = hd.refresh; f.key = hd.key; f.alt = hd.altref;
    memcpy(buf, b.data(), b.size());
    bool ok;
    { Quiet q; ok = p.ParseUncompressedHeader(buf, f.bytes); }
    memset(buf, 0, b.size());
    CHECK(ok, "frame %zu refused", i);
    st.AddFrame(p, f.ns);
    mc::tick();
    fs.push_back(f);
    if (i + 1 < in.size()) { (void)st.GetLevel(); (void)st.GetAverageBitRate(); }   // asking early changes nothing
  }
  if (duration != -1) st.set_duration(duration);
  Expect e = ref_stats(fs, duration, estimate, grace);
  mc::state();
  CHECK(st.GetMaxLumaSampleRate() == e.rate, "luma sample rate %lld, expected %lld", (ll)st.GetMaxLumaSampleRate(), e.rate);
  CHECK(st.GetMaxLumaPictureSize() == e.size, "luma picture size %lld, expected %lld", (ll)st.GetMaxLumaPictureSize(), e.size);
  CHECK(st.GetMaxLumaPictureBreadth() == e.breadth, "luma picture breadth %lld, expected %lld", (ll)st.GetMaxLumaPictureBreadth(), e.breadth);
  auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); };
  CHECK(close(st.GetMaxCpbSize(), e.cpb_bytes * 8 / 1000.0), "CPB size %.9g, expected %.9g", st.GetMaxCpbSize(), e.cpb_bytes * 8 / 1000.0);
  CHECK(close(st.GetCompressionRatio(), e.ratio), "compression ratio %.9g, expected %.9g", st.GetCompressionRatio(), e.ratio);
  CHECK(st.GetMaxColumnTiles() == e.cols, "column tiles %d, expected %d", st.GetMaxColumnTiles(), e.cols);
  CHECK(st.GetMinimumAltrefDistance() == e.alt, "altref distance %d, expected %d", st.GetMinimumAltrefDistance(), e.alt);
  CHECK(st.GetMaxReferenceFrames() == e.refs, "reference frames %d, expected %d", st.GetMaxReferenceFrames(), e.refs);
  if (e.bitrate_defined) {
    CHECK(close(st.GetAverageBitRate(), e.bitrate), "bit rate %.9g, expected %.9g", st.GetAverageBitRate(), e.bitrate);
    if (e.level_clear) {
      CHECK((int)st.GetLevel() == e.level, "level %d, expected %d", (int)st.GetLevel(), e.level);
      CHECK((int)st.GetLevel() == e.level, "level %d when asked again, expected %d", (int)st.GetLevel(), e.level);
    }
  }
  mc::outcome(mc::mix(mc::mix(mc::mix(mc::mix(e.rate, e.size), e.cpb_bytes), e.level * 64 + e.alt), e.refs * 64 + e.cols));
}
}  // namespace

SPACE(C25, sequences) {   // every short history of frame kinds and time steps
  int n = 2 + c.pick(R.thorough ? 5 : 4);
  int conf = c.pick(3);
  c.set_budget(R.thorough ? 3 : 2);
  std::vector<Feed> v;
  std::string d = strf("conf %d:", conf);
  ll t = conf == 2 ? 5000000000ll : 0;
  for (int i = 0; i < n; ++i) {
    if (i == 3 && !c.mine()) return nullptr;
    int k = c.pick(i == 0 ? 2 : 7);
    Feed x;
    Frame& f = x.f;
    f.w = 64; f.h = 48; f.depth = 8; f.bytes = 40 + 13 * i; f.cols = 1;
    switch (k) {
      case 0: f.key = true; break;
      case 1: f.key = true; f.w = 600; f.h = 300; f.depth = 10; f.cols = 2; f.bytes = 900; break;
      case 2: x.sized = false; f.refresh = 1; break;                                  // shown inter frame
      case 3: x.sized = false; f.alt = true; f.refresh = 4; break;                    // hidden alternate reference
      case 4: f.alt = true; f.intra = true; f.w = 500; f.h = 700; f.refresh = 0xf0; f.bytes = 700; break;
      case 5: f.w = 100; f.h = 200; f.refresh = 0; f.bytes = 3000; break;              // resized inter frame
      case 6: f.existing = true; f.bytes = 1; break;                                   // shows a frame there is
    }
    static const ll steps[] = {33000000, 0, 999999999, 1000000000, 1000000001, 499999999, 500000000, 3000000000ll};
    if (i) { int s = c.dev(8); t += steps[s]; d += strf(" +%lld", steps[s]); }
    f.ns = t;
    d += strf(" kind%d", k);
    v.push_back(x);
  }
  int dur = c.dev(4);
  ll span = v.back().f.ns - v[0].f.ns;
  ll duration = dur == 0 ? -1 : dur == 1 ? span : dur == 2 ? span + 40000000 : 10000000000ll;
  return [=] {
    R.desc = d + strf(" duration %lld", duration);
    stats_case(v, duration, conf != 1, conf == 1 ? 0 : 1.5);
  };
}
SPACE(C25, levels) {      // every limit of every level approached from both sides, singly and in pairs
  c.set_budget(R.thorough ? 3 : 2);
  int grace = c.pick(2);
  // base: tiny level 1 stream, 20 frames, 10 per second
  int row = c.pick(14);
  const Row& r = kRows[row];
  int w = 64, h = 64;
  switch (c.dev(9)) {
    case 1: w = (int)r.breadth; h = 8; break;
    case 2: w = (int)r.breadth + 1; h = 8; break;
    case 3: w = 8; h = (int)r.breadth + 1; break;
    case 4: w = 256; h = (int)(r.size / 256); break;
    case 5: w = 256; h = (int)(r.size / 256) + 1; break;
    case 6: w = (int)r.breadth; h = (int)(r.size / r.breadth); break;
    case 7: w = (int)r.breadth; h = (int)(r.size / r.breadth) + 1; break;
    case 8: w = 65536; h = 65536; break;
  }
  w = std::min(w, 65536); h = std::min(h, 65536);
  ll pic = (ll)w * h;
  double lim = r.rate * (grace ? 1.015 : 1);
  ll fit = std::max<ll>(1, (ll)(lim / pic));           // frames per second within the limit
  int per = 10;
  switch (c.dev(3)) { case 1: per = (int)std::min<ll>(fit, 3000); break; case 2: per = (int)std::min<ll>(fit + 1, 3000); break; }
  int n = std::max(20, per + 2);
  ll step = (1000000000ll + per - 1) / per;            // exactly that many in any second
  // bytes: average bit rate around the limit
  double secs = (double)step * n / 1e9;
  size_t bytes = 40, peak = 0;
  switch (c.dev(3)) {
    case 1: bytes = (size_t)(r.bitrate * 125 * secs / n); break;
    case 2: bytes = (size_t)(r.bitrate * 125 * secs / n) + 1; break;
  }
  if (r.cpb > 0) switch (c.dev(3)) { case 1: peak = (size_t)(r.cpb * 125 / 4); break; case 2: peak = (size_t)(r.cpb * 125 / 4) + 1; break; }
  int cols = 1;
  { int sb = ((w + 7) / 8 + 7) / 8, lo = 0, hi = 1; while ((64 << lo) < sb) ++lo; while ((sb >> hi) >= 4) ++hi; --hi; cols = 1 << lo; int extra = c.dev(hi - lo + 1); cols <<= extra; }
  int alt = c.dev(6);
  static const int alts[] = {0, 3, 4, 5, 6, 10};
  int refs = c.dev(9);
  return [=] {
    R.desc = strf("row %d: %dx%d, %d frames %d per second, %zu bytes, peak %zu, %d tile columns, altref every %d, %d references, grace %d", r.level, w, h, n, per, bytes, peak, cols, alts[alt], refs, grace);
    std::vector<Feed> v;
    ll t = 0;
    int since = 0;
    for (int i = 0; i < n; ++i) {
      Feed x;
      Frame& f = x.f;
      f.w = w; f.h = h; f.cols = cols;
      f.key = i == 0;
      x.sized = i == 0;
      f.bytes = peak && i >= 8 && i < 12 ? peak : bytes;
      if (i) f.refresh = i <= refs ? 1 << (i - 1) : 0;
      if (alt && i) { if (since == alts[alt]) { f.alt = true; since = 0; } else ++since; }
      f.ns = t;
      t += step;
      v.push_back(x);
    }
    stats_case(v, -1, true, grace ? 1.5 : 0);
  };
}
SPACE(C25, ratios) {      // every level reached by bit rate or by size, with compression ratios around every limit
  int row = c.pick(14), by = c.pick(3), fps = c.pick(2) ? 30 : 10, q = c.pick(16), rate = c.pick(4);
  const Row& r = kRows[row];
  static const double ratios[] = {0.5, 1, 1.9, 1.999, 2.001, 2.1, 3.9, 3.999, 4.001, 5, 5.999, 6.001, 7, 7.999, 8.001, 20};
  static const double rates[] = {0.999, 0.9, 1.001, 0.5};
  double bits = r.bitrate * 1000 * rates[rate];             // per second
  if (by == 1) bits = r.cpb > 0 ? r.cpb * 1000 * fps / 4.0 * rates[rate] : 1e6;     // the four frame limit
  if (by == 2) bits = r.size * fps * 12.0 * rates[rate] / ratios[q];           // by the picture size
  double pic = bits * ratios[q] / 12 / fps;
  int w = 64, h;
  while ((double)w * w < pic && w < 32768) w *= 2;
  h = (int)(pic / w);
  if (h < 1 || h > 65536) return nullptr;
  pic = (double)w * h;
  size_t bytes = (size_t)(pic * 12 / 8 / ratios[q]);
  if (bytes < 40 || bytes > (64u << 20)) return nullptr;
  int refs = c.pick(3), alt = c.pick(3);      // none, the limit, beyond it
  refs = refs ? r.refs + refs - 1 : 0;
  alt = alt ? r.alt - alt + 1 : -1;
  return [=] {
    R.desc = strf("row %d: %dx%d at %d per second, %zu bytes each, ratio %g", r.level, w, h, fps, bytes, ratios[q]);
    int cols = 1, sb = ((w + 7) / 8 + 7) / 8;
    while (64 * cols < sb) cols *= 2;
    std::vector<Feed> v;
    int since = 0;
    for (int i = 0; i < 24; ++i) {
      Feed x;
      if (i) x.f.refresh = i <= refs ? 1 << (i - 1) : 0;
      if (i && alt >= 0) { if (since == alt) { x.f.alt = true; since = 0; } else ++since; }
      x.f.w = w; x.f.h = h; x.f.cols = cols; x.f.key = i == 0; x.sized = i == 0; x.f.bytes = bytes; x.f.ns = i * (1000000000ll / fps);
      v.push_back(x);
    }
    stats_case(v, -1, true, 1.5);
  };
}
