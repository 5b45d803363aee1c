// Pull parser properties: C09 (safety), C10 (incremental), C11 (conformance, both parsers), C26 (lookups).
#include <algorithm>
#include <climits>
#include <csetjmp>
#include <cstring>
#include <memory>
#include "docgen.h"
#include "gapdoc.h"
#include "pulllib.h"
#include "wpref.h"
using namespace pl;
using mc::R;
using mc::strf;
typedef unsigned long long ull;
typedef long long ll;
namespace {
struct Doc { Bytes b; std::string desc; };
std::string note(const Bytes& b) { return strf(" | %zu bytes: %s", b.size(), mc::hex(b.data(), b.size(), 700).c_str()); }
const char* mode_name[] = {"Load", "LoadCluster", "ParseNext"};
const std::vector<int> ALL = {dg::TINY, dg::AV, dg::TRACK, dg::META, dg::LACES, dg::LIVE, dg::CHAIN, dg::FRONT, dg::BACK};

#define BAD(...) do { if (getenv("PULL_COLLECT")) { printf("%s | %s\n", R.desc.c_str(), strf(__VA_ARGS__).substr(0, 330).c_str()); return; } FAIL(__VA_ARGS__); } while (0)
bool over_max(const eb::Node& n) {
  for (auto& s : eb::table()) {
    if (s.parent != n.id || !s.max) continue;
    int k = 0;
    for (auto& c : n.kids) k += c.id == s.id;
    if (k > s.max && !(n.id == 0)) return true;
  }
  for (auto& c : n.kids) if (c.id != eb::Void && over_max(c)) return true;
  return false;
}
// A document that is well formed and in the supported range; its meaning in *want.
bool valid(const Bytes& b, std::string* want, std::string* why) {
  eb::Node root;
  eb::foreign_ok = true;
  *why = eb::read_doc(b, &root, false);
  if (why->empty() && over_max(root)) *why = "more than the allowed number";
  if (!why->empty()) return false;
  *want = expect(root, b, why);
  return why->empty();
}
void push_agrees(const Bytes& b) {
  wp::Policy none;
  wp::Pred w = wp::predict(b, none);
  wp::ScriptReader r(b);
  wp::LogCb cb;
  cb.pol = &none;
  webm::WebmParser p;
  wp::RunOut x = wp::feed_all(p, cb, r);
  if (cb.log != w.log) FAIL("push parser: %s%s", wp::diff(w.log, cb.log).c_str(), note(b).c_str());
  if (x.status != w.status) FAIL("push parser: status %d instead of %d%s", x.status, w.status, note(b).c_str());
}
void conform(const Bytes& b, const std::string& want) {
  for (int m = 0; m < NMODES; ++m) {
    MemReader r(b);
    Out o = walk(r, (Mode)m, Grow());
    mc::state();
    if (!o.breach.empty()) BAD("%s: %s%s", mode_name[m], o.breach.c_str(), note(b).c_str());
    if (o.status) BAD("%s: %s fails with %ld on a valid document (%s)%s", mode_name[m], o.where.c_str(), o.status, diff(want, o.log).c_str(), note(b).c_str());
    if (o.log != want) BAD("%s: %s%s", mode_name[m], diff(want, o.log).c_str(), note(b).c_str());
    mc::tick((unsigned)r.reads);
  }
  mc::outcome(mc::hstr(want));
  // clusters visited out of order before they are loaded: all subsets, both directions
  std::vector<ll> at;
  for (size_t i = 0; (i = want.find("cluster at ", i)) != std::string::npos; i += 11) at.push_back(atoll(want.c_str() + i + 11));
  if (at.size() > 4) at.resize(4);
  for (unsigned set = 1; set < (1u << at.size()); ++set)
    for (int rev = 0; rev < 2; ++rev)
      for (int m = INC; m <= NEXT; ++m) {
        Grow g;
        for (size_t i = 0; i < at.size(); ++i) if (set >> i & 1) g.preload.push_back(at[i]);
        if (rev) { if (g.preload.size() < 2) continue; std::reverse(g.preload.begin(), g.preload.end()); }
        g.preparse = rev ? 1 : m == INC ? 3 : 4;
        MemReader r(b);
        Out o = walk(r, (Mode)m, g);
        mc::state();
        if (o.status || o.log != want)
          BAD("%s after visiting clusters %x %s: %s %ld %s%s", mode_name[m], set, rev ? "from the last" : "from the first", o.where.c_str(), o.status, diff(want, o.log).c_str(), note(b).c_str());
      }
  push_agrees(b);
}
mc::Exec c11(std::shared_ptr<Doc> d) {
  return [d]() {
    R.desc = d->desc;
    std::string want, why;
    if (!valid(d->b, &want, &why)) { if (getenv("PULL_WHY")) printf("%s: %s\n", d->desc.c_str(), why.c_str()); return; }
    mc::sample(d->desc);
    conform(d->b, want);
  };
}
}  // namespace

SPACE(C11, documents) {
  std::string desc;
  dg::EditCfg cfg;
  cfg.zero = false;
  dg::Doc d = dg::pick(c, ALL, 1, cfg, &desc);
  if (d.empty()) return nullptr;
  auto x = std::make_shared<Doc>();
  x->b = dg::enc(d);
  x->desc = desc;
  return c11(x);
}
SPACE(C11, pairs) {
  std::string desc;
  dg::EditCfg cfg;
  cfg.zero = false;
  cfg.values = R.thorough;
  dg::Doc d = dg::pick(c, R.thorough ? ALL : std::vector<int>{dg::TINY, dg::LIVE, dg::LACES, dg::BACK}, 2, cfg, &desc);
  if (d.empty()) return nullptr;
  auto x = std::make_shared<Doc>();
  x->b = dg::enc(d);
  x->desc = desc;
  return c11(x);
}
SPACE(C11, blocks) {
  std::string desc;
  bool simple = c.flag(), wide = R.thorough;
  Bytes blk = dg::pick_block(c, simple, wide, &desc);
  if (!c.mine()) return nullptr;
  auto x = std::make_shared<Doc>();
  dg::Doc d = dg::seed(dg::TINY);
  auto& cl = d[1].kids[2];
  cl.kids[0] = eb::eu(eb::Timecode, 40000);
  eb::El b = eb::es(simple ? eb::SimpleBlock : eb::Block, blk);
  cl.kids.insert(cl.kids.begin() + 1, simple ? b : eb::El(eb::BlockGroup, {b}));
  x->b = dg::enc(d);
  x->desc = desc;
  return c11(x);
}

static std::shared_ptr<Doc> laced(mc::Chooser& c) {
  auto x = std::make_shared<Doc>();
  bool simple = c.flag();
  Bytes blk = dg::pick_laces(c, R.thorough, &x->desc);
  if (!c.mine()) return nullptr;
  dg::Doc d = dg::seed(dg::TINY);
  auto& cl = d[1].kids[2];
  cl.kids[0] = eb::eu(eb::Timecode, 40000);
  eb::El b = eb::es(simple ? eb::SimpleBlock : eb::Block, blk);
  cl.kids.insert(cl.kids.begin() + 1, simple ? b : eb::El(eb::BlockGroup, {b}));
  x->b = dg::enc(d);
  return x;
}
SPACE(C11, laces) {
  auto x = laced(c);
  return x ? c11(x) : nullptr;
}
SPACE(C11, many) {
  auto x = std::make_shared<Doc>();
  dg::Doc d = dg::pick_many(c, R.thorough, &x->desc);
  if (!c.mine()) return nullptr;
  x->b = dg::enc(d);
  return c11(x);
}

// Elements of many gigabytes.
namespace {
struct GapReader : mkvparser::IMkvReader {
  const gd::Gap& g;
  explicit GapReader(const gd::Gap& x) : g(x) {}
  int Read(long long p, long n, unsigned char* out) override {
    if (p < 0 || n < 0 || (uint64_t)p + n > g.total()) return -1;
    g.get((uint64_t)p, (size_t)n, out);
    return 0;
  }
  int Length(long long* t, long long* a) override { if (t) *t = (ll)g.total(); if (a) *a = (ll)g.total(); return 0; }
};
struct Val { const char* what; ll pos, end, v; int kind; };   // kind 0: plain, 1: position, 2: size of [pos, end)
std::vector<Val> survey(const gd::Gap& g, int mode) {
  std::vector<Val> o;
  GapReader r(g);
  mkvparser::EBMLHeader h;
  ll pos = 0;
  CHECK(h.Parse(&r, pos) == 0, "header");
  mkvparser::Segment* raw = nullptr;
  CHECK(mkvparser::Segment::CreateInstance(&r, pos, raw) == 0, "segment");
  std::unique_ptr<mkvparser::Segment> s(raw);
  auto at = [&](const char* w, ll p) { o.push_back(Val{w, 0, 0, p, 1}); };
  auto sz = [&](const char* w, ll p, ll n) { o.push_back(Val{w, p, n < 0 ? 0 : p + n, n, n < 0 ? 0 : 2}); };
  if (mode == 0) { long st = s->Load(); CHECK(st >= 0, "Load %ld", st); }
  else {
    long long st = s->ParseHeaders();
    CHECK(st == 0, "ParseHeaders %lld", st);
    if (mode == 2) { long x = s->LoadCluster(); CHECK(x == 0, "LoadCluster %ld", x); }
    if (mode == 1) for (;;) { long x = s->LoadCluster(); CHECK(x >= 0, "LoadCluster %ld", x); if (x > 0) break; }
  }
  CHECK(s->GetInfo() && s->GetTracks(), "no headers");
  at("segment", s->m_start);
  sz("segment", s->m_element_start, s->m_size < 0 ? -1 : s->m_size + (s->m_start - s->m_element_start));
  at("info", s->GetInfo()->m_element_start);
  sz("info", s->GetInfo()->m_element_start, s->GetInfo()->m_element_size);
  at("tracks", s->GetTracks()->m_element_start);
  sz("tracks", s->GetTracks()->m_element_start, s->GetTracks()->m_element_size);
  at("track", s->GetTracks()->GetTrackByIndex(0)->m_element_start);
  sz("track", s->GetTracks()->GetTrackByIndex(0)->m_element_start, s->GetTracks()->GetTrackByIndex(0)->m_element_size);
  if (const mkvparser::SeekHead* sh = s->GetSeekHead()) at("seek entry", sh->GetEntry(0)->pos + s->m_start);
  const mkvparser::Cluster* c = s->GetFirst();
  int n = 0;
  while (c && !c->EOS()) {
    CHECK(++n < 9, "too many clusters");
    at("cluster", c->m_element_start);
    at("cluster position", c->GetPosition() + s->m_start);
    o.push_back(Val{"cluster time", 0, 0, c->GetTime(), 0});
    const mkvparser::BlockEntry* e = nullptr;
    long st = c->GetFirst(e);
    CHECK(st >= 0, "block %ld", st);
    while (e && !e->EOS()) {
      const mkvparser::Block* b = e->GetBlock();
      at("block", b->m_start);
      sz("block", b->m_start, b->m_size);
      at("frame", b->GetFrame(0).pos);
      sz("frame", b->GetFrame(0).pos, b->GetFrame(0).len);
      o.push_back(Val{"time", 0, 0, b->GetTime(c), 0});
      st = c->GetNext(e, e);
      CHECK(st >= 0, "next block %ld", st);
    }
    sz("cluster", c->m_element_start, c->GetElementSize());
    if (mode < 2) c = s->GetNext(c);
    else {
      const mkvparser::Cluster* nx = nullptr;
      ll p;
      long len;
      long x = s->ParseNext(c, nx, p, len);
      CHECK(x >= 0, "ParseNext %ld", x);
      c = x > 0 ? nullptr : nx;
    }
  }
  const mkvparser::Cues* q = s->GetCues();
  if (!q) {
    ll p;
    long len;
    const mkvparser::SeekHead* sh = s->GetSeekHead();
    CHECK(sh && s->ParseCues(sh->GetEntry(0)->pos, p, len) == 0, "ParseCues");
    q = s->GetCues();
  }
  CHECK(q, "no cues");
  at("cues", q->m_element_start);
  sz("cues", q->m_element_start, q->m_element_size);
  while (!q->DoneParsing()) q->LoadCuePoint();
  const mkvparser::Track* t = s->GetTracks()->GetTrackByIndex(0);
  for (const mkvparser::CuePoint* cp = q->GetFirst(); cp; cp = q->GetNext(cp)) {
    const mkvparser::CuePoint::TrackPosition* tp = cp->Find(t);
    CHECK(tp, "no position");
    at("cue", tp->m_pos + s->m_start);
    const mkvparser::BlockEntry* e = q->GetBlock(cp, tp);
    CHECK(e && !e->EOS(), "the cue at %lld leads to no block", (ll)tp->m_pos);
    at("block of the cue", e->GetBlock()->m_start);
  }
  return o;
}
}  // namespace
SPACE(C11, huge) {
  gd::Gap g = gd::pick(c);
  if (g.small.empty()) return nullptr;
  int mode = c.pick(3);
  if (!c.mine()) return nullptr;
  return [=]() {
    R.desc = g.desc + ", " + (mode < 2 ? mode_name[mode] : "ParseNext");
    gd::Gap tw = g;
    tw.run = 8;
    tw.head = g.small.substr(0, g.at);
    tw.tail = g.small.substr(g.at + 8);
    std::vector<Val> want = survey(tw, mode), got = survey(g, mode);
    mc::state();
    mc::tick((unsigned)got.size());
    CHECK(want.size() == got.size() && want.size() > 20, "%zu values instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
      const Val &w = want[i], &x = got[i];
      ll v = w.kind == 1 ? (ll)g.pos((uint64_t)w.v) : w.kind == 2 ? (ll)g.size((uint64_t)w.pos, (uint64_t)w.end, (uint64_t)w.v) : w.v;
      CHECK(x.v == v, "%s %s is %lld instead of %lld", w.kind == 1 ? "position of" : w.kind == 2 ? "size of" : "value of", w.what, x.v, v);
    }
    mc::outcome(mc::hstr(R.desc));
  };
}

// ---------------------------------------------------------------- C10: data that arrives gradually
namespace {
struct Sched { std::vector<ll> cuts; ll step = 0; bool total = true; };
void gradual(const Bytes& b, Mode m, const Sched& sc, const Out& whole, const char* what, ll arg, ll arg2) {
  MemReader r(b);
  r.total_known = sc.total;
  size_t next = 0;
  ll n = (ll)b.size();
  auto advance = [&]() {
    if (r.avail >= n) {
      if (r.total_known) return false;
      r.total_known = true;   // the end of the stream is learnt at last
      return true;
    }
    if (sc.step) r.avail = std::min(n, r.avail + sc.step);
    else r.avail = next < sc.cuts.size() ? std::min(n, sc.cuts[next++]) : n;
    return true;
  };
  r.avail = 0;
  advance();
  Grow g;
  g.f = advance;
  g.limit = (int)n + 16;
  Out o = walk(r, m, g);
  mc::state();
  mc::tick((unsigned)r.reads);
  auto id = [&]() { return strf("%s, %s %lld %lld, length %s", mode_name[m], what, arg, arg2, sc.total ? "known" : "unknown"); };
  if (!o.breach.empty()) BAD("%s: %s%s", id().c_str(), o.breach.c_str(), note(b).c_str());
  if (o.status != whole.status) BAD("%s: %s gives %ld instead of %ld (%s)%s", id().c_str(), o.where.c_str(), o.status, whole.status, diff(whole.log, o.log).c_str(), note(b).c_str());
  if (o.log != whole.log) BAD("%s: %s%s", id().c_str(), diff(whole.log, o.log).c_str(), note(b).c_str());
}
mc::Exec c10(std::shared_ptr<Doc> d, bool pairs) {
  return [d, pairs]() {
    R.desc = d->desc;
    std::string want, why;
    if (!valid(d->b, &want, &why)) return;
    const Bytes& b = d->b;
    ll n = (ll)b.size();
    mc::sample(d->desc);
    mc::outcome(mc::hstr(want));
    long long k = 0;
    // The size of a segment is not used while the length of the stream is unknown: only one segment then.
    int segs = 0;
    { eb::Node root; eb::read_doc(b, &root, false); for (auto& x : root.kids) segs += x.id == eb::Segment; }
    for (int m = INC; m <= NEXT; ++m) {
      for (int tk = 0; tk < (segs > 1 ? 1 : 2); ++tk) {
        // everything available from the start
        Out whole;
        {
          MemReader r(b);
          r.total_known = tk == 0;
          Grow g;
          g.f = [&]() { if (r.total_known) return false; return r.total_known = true; };
          whole = walk(r, (Mode)m, g);
          if (whole.status) BAD("%s: %s fails with %ld, all available, length %s%s", mode_name[m], whole.where.c_str(), whole.status, tk ? "unknown" : "known", note(b).c_str());
        }
        Sched s;
        s.total = tk == 0;
        for (ll c = 0; c <= n; ++c) {
          if (!mc::sub(k++)) continue;
          s.cuts = {c};
          gradual(b, (Mode)m, s, whole, "first part", c, 0);
        }
        s.cuts.clear();
        for (ll st : {1, 2, 3, 7, 16}) {
          if (!mc::sub(k++)) continue;
          s.step = st;
          gradual(b, (Mode)m, s, whole, "steps of", st, 0);
        }
        s.step = 0;
        if (pairs)
          for (ll c = 0; c <= n; ++c)
            for (ll e = c + 1; e <= n; ++e) {
              if (!mc::sub(k++)) continue;
              s.cuts = {c, e};
              gradual(b, (Mode)m, s, whole, "parts", c, e);
            }
      }
    }
  };
}
}  // namespace
SPACE(C10, boundaries) {
  std::string desc;
  dg::EditCfg cfg;
  cfg.zero = cfg.foreign = false;
  cfg.values = false;
  dg::Doc d = dg::pick(c, ALL, 1, cfg, &desc);
  if (d.empty()) return nullptr;
  auto x = std::make_shared<Doc>();
  x->b = dg::enc(d);
  x->desc = desc;
  return c10(x, false);
}
SPACE(C10, pairs) {
  std::string desc;
  dg::EditCfg cfg;
  cfg.zero = cfg.foreign = cfg.values = false;
  cfg.structure = R.thorough;
  dg::Doc d = dg::pick(c, {dg::TINY, dg::LIVE, dg::LACES, dg::BACK}, R.thorough ? 1 : 0, cfg, &desc);
  if (d.empty()) return nullptr;
  auto x = std::make_shared<Doc>();
  x->b = dg::enc(d);
  x->desc = desc;
  return c10(x, true);
}

// ---------------------------------------------------------------- C09: arbitrary bytes
namespace {
// How the stream is offered: complete; growing by single bytes, length unknown; with one failing read.
void c09_one(const Bytes& b, int m, int way, ll fail_at, ll* reads, uint64_t* h) {
  MemReader r(b);
  Grow g;
  ll n = (ll)b.size();
  g.limit = (int)n + 40;
  r.fail_at = fail_at;
  if (way) {
    r.total_known = false;
    r.avail = 0;
    g.f = [&]() {
      if (r.avail < n) { r.avail += std::min<ll>(n - r.avail, way); return true; }
      if (r.total_known) return false;
      return r.total_known = true;
    };
  }
  Out o = walk(r, (Mode)m, g, true);
  mc::state();
  mc::tick((unsigned)r.reads);
  auto id = [&]() { return strf("%s%s%s", mode_name[m], way ? ", growing" : "", fail_at >= 0 ? strf(", read %lld fails", fail_at).c_str() : ""); };
  if (!o.breach.empty()) BAD("%s: %s%s", id().c_str(), o.breach.c_str(), note(b).c_str());
  if (!r.breach.empty()) BAD("%s: %s%s", id().c_str(), r.breach.c_str(), note(b).c_str());
  if (o.log.size() > 400 * (size_t)n + 20000) BAD("%s: %zu bytes of results for %lld bytes of input%s", id().c_str(), o.log.size(), n, note(b).c_str());
  ll lim = 3000 * n + 200000;
  if (r.reads > lim) BAD("%s: %lld reads for %lld bytes of input%s", id().c_str(), r.reads, n, note(b).c_str());
  if (reads) *reads = r.reads;
  if (h) *h = mc::mix(*h, mc::mix(mc::hstr(o.log), (uint64_t)o.status));
}
jmp_buf assert_env;
bool assert_armed;
void c09_run(const Bytes& b, bool growing, bool failing = false, bool jump = true) {
  uint64_t h = 0;
  ll k = 0;
  for (int m = 0; m < NMODES; ++m)
    for (int way = 0; way < (growing && m != LOAD ? 3 : 1); ++way) {
      if (getenv("PULL_COLLECT")) {
        if (setjmp(assert_env)) { printf("%s %s\n", mode_name[m], note(b).c_str()); continue; }
        assert_armed = true;
      }
      size_t before = mc::live_bytes();
      mc::watch_alloc();
      ll reads = 0;
      c09_one(b, m, way == 2 ? 5 : way, -1, &reads, &h);
      size_t big = mc::biggest_alloc();
      if (big > (24u << 20)) BAD("%s: %zu bytes allocated at once for %zu bytes of input%s", mode_name[m], big, b.size(), note(b).c_str());
      if (mc::live_bytes() > before && k) BAD("%s: %zu bytes leaked%s", mode_name[m], mc::live_bytes() - before, note(b).c_str());
      ++k;
      if (jump && !way && m != LOAD && b.size() > 8) {
        // first jump to everything that looks like a cluster, and to places that are none
        std::vector<ll> at;
        size_t seg = b.find("\x18\x53\x80\x67");
        ll base = seg == Bytes::npos || seg + 5 > b.size() ? 0 : (ll)seg + 4 + ((unsigned char)b[seg + 4] & 0x80 ? 1 : (unsigned char)b[seg + 4] & 0x40 ? 2 : 8);
        for (size_t i = 0; (i = b.find("\x1f\x43\xb6\x75", i)) != Bytes::npos; ++i) if ((ll)i >= base) at.push_back((ll)i - base);
        for (int kind = 0; kind < 3; ++kind) {
          Grow g;
          g.preload = at;
          g.preparse = kind == 1 ? 4 : 2;
          if (kind == 1) std::reverse(g.preload.begin(), g.preload.end());
          if (kind == 2) { g.preload.insert(g.preload.begin(), {0, 5, (ll)b.size() / 2}); g.preload.push_back((ll)b.size() - base); g.preload.push_back(LLONG_MAX / 2); }
          MemReader r(b);
          size_t bf = mc::live_bytes();
          { Out o = walk(r, (Mode)m, g, true); h = mc::mix(h, mc::hstr(o.log)); if (!r.breach.empty()) BAD("%s after preloading %d: %s%s", mode_name[m], kind, r.breach.c_str(), note(b).c_str()); }
          mc::state();
          mc::tick((unsigned)r.reads);
          if (mc::live_bytes() > bf) BAD("%s after preloading %d: %zu bytes leaked%s", mode_name[m], kind, mc::live_bytes() - bf, note(b).c_str());
        }
      }
      if (failing && !way)
        for (ll i = 0; i < reads && i < 6000; ++i) {
          size_t bf = mc::live_bytes();
          c09_one(b, m, 0, i, nullptr, &h);
          if (mc::live_bytes() > bf) BAD("%s, read %lld fails: %zu bytes leaked%s", mode_name[m], i, mc::live_bytes() - bf, note(b).c_str());
        }
    }
  mc::outcome(h);
}
void size_field(const Bytes& b, uint64_t q, uint32_t id, int* idl, int* f) {
  *idl = id > 0xffffff ? 4 : id > 0xffff ? 3 : id > 0xff ? 2 : 1;
  *f = 1;
  while (!((unsigned char)b[q + *idl] & (0x80 >> (*f - 1)))) ++*f;
}
SPACE(C09, laces) {
  auto x = laced(c);
  if (!x) return nullptr;
  return [x]() {
    R.desc = x->desc;
    c09_run(x->b, false);
  };
}
SPACE(C09, many) {
  std::string desc;
  dg::Doc d = dg::pick_many(c, R.thorough, &desc);
  if (!c.mine()) return nullptr;
  Bytes b = dg::enc(d);
  return [=]() {
    R.desc = desc;
    c09_run(b, false);
  };
}
}  // namespace
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept(true) {
  printf("assert %s:%u %s | ", strrchr(f, '/') ? strrchr(f, '/') + 1 : f, l, e);
  if (assert_armed) longjmp(assert_env, 1);
  fflush(stdout);
  fprintf(stderr, "assertion failed: %s:%u: %s\n", f, l, e);
  abort();
}
SPACE(C09, bytes1) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  int at = c.pick((int)b.size());
  bool all = R.thorough || s == dg::TINY || s == dg::LACES || s == dg::LIVE;
  static const int crit[] = {0x00, 0x01, 0x02, 0x08, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  int v = all ? c.pick(256) : crit[c.pick(12)];
  if ((unsigned char)b[at] == v) return nullptr;
  b[at] = (char)v;
  return [=]() {
    R.desc = strf("%s with byte %d = %02x", dg::seed_name(s), at, v);
    c09_run(b, R.thorough);
  };
}
SPACE(C09, bytes2) {
  static const std::vector<int> docs = R.thorough ? std::vector<int>{dg::TINY, dg::LIVE, dg::LACES, dg::BACK} : std::vector<int>{dg::TINY};
  int s = docs[c.pick((int)docs.size())];
  Bytes b = dg::enc(dg::seed(s));
  static const int crit[] = {0x00, 0x01, 0x40, 0x7f, 0x80, 0xff};
  int at = c.pick((int)b.size() - 1);
  int v = crit[c.pick(6)];
  if (!c.mine()) return nullptr;
  int at2 = at + 1 + c.pick((int)b.size() - at - 1);
  int v2 = crit[c.pick(6)];
  if ((unsigned char)b[at] == v || (unsigned char)b[at2] == v2) return nullptr;
  b[at] = (char)v;
  b[at2] = (char)v2;
  return [=]() {
    R.desc = strf("%s with byte %d = %02x and %d = %02x", dg::seed_name(s), at, v, at2, v2);
    c09_run(b, false, false, R.thorough);
  };
}
SPACE(C09, sizes) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  static std::map<int, wp::Pred> memo;
  if (!memo.count(s)) memo[s] = wp::predict(b, wp::Policy());
  auto& els = memo[s].elems;
  int i = c.pick((int)els.size());
  static const char* sz[] = {"\x80", "\x81", "\xfe", "\xff", "\x40\x00", "\x7f\xfe", "\x7f\xff", "\x10\x00\x00\x00", "\x1f\xff\xff\xfe", "\x18\x00\x00\x00",
                             "\x08\x40\x00\x00\x00", "\x04\x7f\xff\xff\xff\xff", "\x02\x7f\xff\xff\xff\xff\xff", "\x01\x7f\xff\xff\xff\xff\xff\xff", "\x01\xff\xff\xff\xff\xff\xff\xfe",
                             "\x01\xff\xff\xff\xff\xff\xff\xff", "\x01\x00\x00\x00\x00\x00\x00\x00", "\x01\x00\x00\x00\x00\x00\x00\x01"};
  static const int szl[] = {1, 1, 1, 1, 2, 2, 2, 4, 4, 4, 5, 6, 7, 8, 8, 8, 8, 8};
  int k = c.pick(18), parents = c.pick(3);   // enclosing sizes: as they are, huge, unknown
  uint64_t pos = els[i].pos;
  int idl, fl;
  size_field(b, pos, els[i].id, &idl, &fl);
  Bytes m = b;
  m.replace(pos + idl, fl, Bytes(sz[k], szl[k]));
  if (parents) {
    std::vector<std::pair<uint64_t, int>> open;
    for (int j = 0; j < i; ++j) {
      uint64_t q = els[j].pos;
      int il, f;
      size_field(b, q, els[j].id, &il, &f);
      uint64_t v = (unsigned char)b[q + il] & (0xff >> f);
      for (int t = 1; t < f; ++t) v = v << 8 | (unsigned char)b[q + il + t];
      if (v != (1ull << (7 * f)) - 1 && q + il + f + v > pos) open.push_back({q + il, f});
    }
    if (open.empty()) return nullptr;
    for (size_t t = open.size(); t-- > 0;)
      m.replace(open[t].first, open[t].second, parents == 1 ? Bytes("\x01\xff\xff\xff\xff\xff\xff\xfe", 8) : Bytes("\x01\xff\xff\xff\xff\xff\xff\xff", 8));
  }
  uint32_t id = els[i].id;
  return [=]() {
    R.desc = strf("%s: size field of %s @%llu replaced by variant %d, enclosing sizes %d", dg::seed_name(s), eb::name_of(id), (ull)pos, k, parents);
    c09_run(m, true);
  };
}
SPACE(C09, tokens) {
  static const std::vector<Bytes> T = {
      Bytes("\x1f\x43\xb6\x75\xff"), Bytes("\x1f\x43\xb6\x75\x80"), Bytes("\x1f\x43\xb6\x75\x8a"), Bytes("\xe7\x81\x05"), Bytes("\xe7\x80"), Bytes("\xe7\x88\xff\xff\xff\xff\xff\xff\xff\xff"),
      Bytes("\xe7\x88\x7f\xff\xff\xff\xff\xff\xff\xff"), Bytes("\xa0\x80"), Bytes("\xa0\x89"), Bytes("\xa1\x85\x81\x00\x00\x00\x01", 7), Bytes("\xa3\x85\x81\x00\x00\x80\x01", 7), Bytes("\xa3\x85\x81\xff\xfe\x80\x01", 7),
      Bytes("\xa3\x87\x81\x00\x00\x06\x01\x81\x01", 9), Bytes("\xa3\x85\x82\x00\x00\x80\x01", 7), Bytes("\xec\x80"), Bytes("\xec\x81\x00", 3), Bytes("\xec\xff"), Bytes("\xfb\x81\x01"), Bytes("\x9b\x81\x07"),
      Bytes("\x1c\x53\xbb\x6b\x80"), Bytes("\x1c\x53\xbb\x6b\x8d\xbb\x8b\xb3\x81\x05\xb7\x86\xf7\x81\x01\xf1\x81\x00", 18), Bytes("\x1c\x53\xbb\x6b\x8d\xbb\x8b\xb3\x81\x05\xb7\x86\xf7\x81\x01\xf1\x81\x1f", 18),
      Bytes("\x1c\x53\xbb\x6b\x82\xbb\x80"), Bytes("\x11\x4d\x9b\x74\x8e\x4d\xbb\x8b\x53\xab\x84\x1f\x43\xb6\x75\x53\xac\x81\x1f"), Bytes("\x1a\x45\xdf\xa3\x80"), Bytes("\x18\x53\x80\x67\xff"), Bytes("\x16\x54\xae\x6b\x80"), Bytes("\xff"), Bytes("\x00", 1)};
  bool unk = c.flag();
  int n = 1 + c.pick(R.thorough ? 5 : 4);
  Bytes body;
  std::string desc = unk ? "segment of unknown size, tokens" : "tokens";
  for (int i = 0; i < n; ++i) {
    int t = c.pick((int)T.size());
    if (i == 1 && !c.mine()) return nullptr;
    body += T[t];
    desc += strf(" %d", t);
  }
  return [=]() {
    R.desc = desc;
    dg::Doc d = dg::seed(dg::TINY);
    d[1].kids.resize(2);
    Bytes b = dg::enc({d[0]}), hd;
    for (auto& e : d[1].kids) hd += dg::enc({e});
    hd += body;
    b += Bytes("\x18\x53\x80\x67");
    b += unk ? Bytes("\x01\xff\xff\xff\xff\xff\xff\xff") : Bytes("\x01\x00\x00\x00\x00\x00", 6) + (char)(hd.size() >> 8) + (char)(hd.size());
    b += hd;
    c09_run(b, n <= 3, false, n <= 3 || R.thorough);
  };
}
SPACE(C09, blockbytes) {
  static const int crit[] = {0x00, 0x01, 0x02, 0x04, 0x06, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  int kind = c.pick(2);
  int flags = c.pick(4) << 1;
  int n = c.pick(R.thorough ? 6 : 4);
  if (!c.mine()) return nullptr;
  Bytes k("\x81\x00\x01", 3);
  k += (char)flags;
  for (int i = 0; i < n; ++i) k += (char)crit[c.pick(12)];
  int tail = c.pick(3);
  k += Bytes(tail * 3, 'x');
  eb::El cl(eb::Cluster, {eb::eu(eb::Timecode, 3)});
  if (kind == 0) cl.add(eb::es(eb::SimpleBlock, k));
  else cl.add(eb::El(eb::BlockGroup, {eb::es(eb::Block, k), eb::eu(eb::BlockDuration, 1)}));
  dg::Doc doc = dg::seed(dg::TINY);
  doc[1].kids[2] = cl;
  Bytes b = dg::enc(doc);
  return [=]() {
    R.desc = "block contents " + mc::hex(k.data(), k.size());
    c09_run(b, false);
  };
}
SPACE(C09, cuts) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  b.resize(c.pick((int)b.size() + 1));
  int pad = c.pick(2);
  return [=]() {
    R.desc = strf("%s, first %zu bytes%s", dg::seed_name(s), b.size(), pad ? " and zeros" : "");
    c09_run(pad ? b + Bytes(20, 0) : b, true, false);
  };
}
SPACE(C09, failures) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  return [=]() {
    R.desc = strf("%s, every read failing", dg::seed_name(s));
    c09_run(b, false, true);
  };
}
SPACE(C09, edits) {
  std::string desc;
  dg::EditCfg cfg;
  cfg.unknown_any = true;
  dg::Doc d = dg::pick(c, ALL, 1, cfg, &desc);
  if (d.empty()) return nullptr;
  Bytes b = dg::enc(d);
  return [=]() {
    R.desc = desc;
    c09_run(b, true);
  };
}
SPACE(C09, edits2) {
  std::string desc;
  dg::EditCfg cfg;
  cfg.values = R.thorough;
  cfg.foreign = false;
  dg::Doc d = dg::pick(c, R.thorough ? ALL : std::vector<int>{dg::TINY, dg::LIVE, dg::BACK}, 2, cfg, &desc);
  if (d.empty()) return nullptr;
  Bytes b = dg::enc(d);
  return [=]() {
    R.desc = desc;
    c09_run(b, false);
  };
}
