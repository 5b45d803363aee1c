#include <functional>
// Push parser properties C12-C18.
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include "docgen.h"
#include "gapdoc.h"
#include "webm/buffer_reader.h"
#include "webm/file_reader.h"
#include "webm/istream_reader.h"
#include "wpref.h"
using namespace wp;
using mc::R;
using mc::strf;
typedef unsigned long long ull;

namespace {
struct Doc { Bytes b; std::string desc; };
std::string bytes_note(const Bytes& b) { return strf(" | %zu bytes: %s", b.size(), mc::hex(b.data(), b.size(), 700).c_str()); }

struct Real { std::string log; int status = 0; int events = 0, pauses = 0; std::string breach; };
// Whole document in one go.
Real plain_run(const Bytes& b, const Policy& pol, uint64_t chunk = 0, bool strict_end = false) {
  Real o;
  ScriptReader r(b);
  if (strict_end) r.max_pos = b.size();
  LogCb cb;
  cb.pol = &pol;
  cb.chunk = chunk;
  webm::WebmParser p;
  RunOut x = feed_all(p, cb, r);
  o.log = std::move(cb.log);
  o.status = x.status;
  o.events = cb.events;
  o.breach = cb.breach.empty() ? r.breach : cb.breach;
  return o;
}
void same(const Pred& w, const std::string& log, int status, const std::string& breach, const Bytes& b, const char* what) {
  if (!breach.empty()) FAIL("%s: %s%s", what, breach.c_str(), bytes_note(b).c_str());
  if (log != w.log) FAIL("%s: %s%s", what, diff(w.log, log).c_str(), bytes_note(b).c_str());
  if (status != w.status) FAIL("%s: status %d instead of %d%s", what, status, w.status, bytes_note(b).c_str());
}
const std::vector<int> ALL = {dg::TINY, dg::AV, dg::TRACK, dg::META, dg::LACES, dg::LIVE, dg::CHAIN};
const std::vector<int> SMALL = {dg::TINY, dg::LACES, dg::LIVE, dg::CHAIN};
// Long runs are cut into parts so that they spread over the shards.
int g_part = 0, g_parts = 1;
bool take(long long k) { return k % g_parts == g_part && mc::sub(k); }
void part(int i, int n) { g_part = i; g_parts = n; }
}  // namespace

// ---------------------------------------------------------------- C14: structure and metadata
static mc::Exec c14(std::shared_ptr<Doc> d) {
  return [d]() {
    R.desc = d->desc;
    Policy none;
    Pred w = predict(d->b, none);
    Real g = plain_run(d->b, none);
    mc::state(w.events + 1);
    same(w, g.log, g.status, g.breach, d->b, "whole document");
    mc::outcome(mc::hstr(g.log));
    mc::sample(d->desc);
  };
}
SPACE(C14, edits) {
  auto d = std::make_shared<Doc>();
  d->b = dg::enc(dg::pick(c, R.thorough ? ALL : SMALL, 2, dg::EditCfg(), &d->desc));
  return d->b.empty() ? nullptr : c14(d);
}
SPACE(C14, edit1) {
  auto d = std::make_shared<Doc>();
  dg::EditCfg e;
  e.unknown_any = true;
  d->b = dg::enc(dg::pick(c, ALL, 1, e, &d->desc));
  return c14(d);
}
SPACE(C14, blocks) {
  auto d = std::make_shared<Doc>();
  bool simple = c.pick(2) == 0;
  Bytes k = dg::pick_block(c, simple, R.thorough, &d->desc);
  eb::El cl(eb::Cluster, {eb::eu(eb::Timecode, 3)});
  if (simple) cl.add(eb::es(eb::SimpleBlock, k));
  else cl.add(eb::El(eb::BlockGroup, {eb::es(eb::Block, k), eb::eu(eb::BlockDuration, 1)}));
  cl.add(eb::es(eb::SimpleBlock, eb::enc_block(1, 9, 0, 0, {"end"})));
  dg::Doc doc = dg::seed(dg::TINY);
  doc[1].kids[2] = cl;
  d->b = dg::enc(doc);
  return c14(d);
}

static std::shared_ptr<Doc> laced(mc::Chooser& c) {
  auto d = std::make_shared<Doc>();
  bool simple = c.pick(2) == 0;
  Bytes k = dg::pick_laces(c, R.thorough, &d->desc);
  if (!c.mine()) return nullptr;
  eb::El cl(eb::Cluster, {eb::eu(eb::Timecode, 3)});
  if (simple) cl.add(eb::es(eb::SimpleBlock, k));
  else cl.add(eb::El(eb::BlockGroup, {eb::es(eb::Block, k), eb::eu(eb::BlockDuration, 1)}));
  cl.add(eb::es(eb::SimpleBlock, eb::enc_block(1, 9, 0, 0, {"end"})));
  dg::Doc doc = dg::seed(dg::TINY);
  doc[1].kids[2] = cl;
  d->b = dg::enc(doc);
  return d;
}
SPACE(C14, laces) {
  auto d = laced(c);
  return d ? c14(d) : nullptr;
}
SPACE(C14, many) {
  auto d = std::make_shared<Doc>();
  dg::Doc doc = dg::pick_many(c, R.thorough, &d->desc);
  if (!c.mine()) return nullptr;
  d->b = dg::enc(doc);
  return c14(d);
}

// Elements of unknown size within elements of known size and the other way round, one of them with a wrong size.
SPACE(C14, bounds) {
  auto d = std::make_shared<Doc>();
  int s = ALL[c.pick((int)ALL.size())], k = c.pick(5);
  dg::Doc doc = dg::seed(s);
  std::function<void(eb::El&, int)> rec = [&](eb::El& e, int depth) {
    if (e.leaf) return;
    if (e.id != eb::EBML && (k == 0 ? e.id == eb::Cluster : k == 1 ? depth == 1 : k == 2 ? depth >= 2 : k == 3 ? depth != 1 && depth % 2 == 0 : depth > 0)) e.unknown = true;
    for (auto& x : e.kids) rec(x, depth + 1);
  };
  for (auto& e : doc) rec(e, 0);
  doc.push_back(eb::evoid(20));
  Bytes b = dg::enc(doc);
  Pred full = predict(b, Policy());
  std::set<uint64_t> at;
  for (auto& e : full.elems) {
    size_t q = e.pos + (e.id > 0xffffff ? 4 : e.id > 0xffff ? 3 : e.id > 0xff ? 2 : 1);
    if (q < b.size() && (uint8_t)b[q] > 0x80 && (uint8_t)b[q] < 0xff) at.insert(q);
  }
  if (at.empty()) return nullptr;
  auto it = at.begin();
  std::advance(it, c.pick((int)at.size()));
  static const int deltas[] = {1, -1, 2, 3, -2, 4, 5, 7, 9, 11, 12, 13, 14, 16, 18, 20, 21, 22, 23, 24, 40, -3, -4};
  int delta = deltas[c.pick(R.thorough ? 23 : 20)], v = ((uint8_t)b[*it] & 0x7f) + delta;
  if (v < 0 || v > 126 || !c.mine()) return nullptr;
  b[*it] = (char)(0x80 | v);
  d->b = b;
  d->desc = strf("%s, unknown sizes %d, size byte @%llu %+d", dg::seed_name(s), k, (ull)*it, delta);
  return c14(d);
}

// Elements of many gigabytes, through a reader that makes up the zeros and through a sparse file.
namespace {
struct Ev { const char* what; uint64_t id, pos, hs, size; };
struct GapCb : webm::Callback {
  std::vector<Ev> ev;
  bool skip_clusters = false;
  webm::Status ok() { return webm::Status(webm::Status::kOkCompleted); }
  void add(const char* w, const webm::ElementMetadata& m) { ev.push_back(Ev{w, (uint64_t)m.id, m.position, m.header_size, m.size}); }
  webm::Status OnElementBegin(const webm::ElementMetadata& m, webm::Action* a) override { add("element", m); *a = skip_clusters && m.id == webm::Id::kCluster ? webm::Action::kSkip : webm::Action::kRead; return ok(); }
  webm::Status OnUnknownElement(const webm::ElementMetadata& m, webm::Reader* r, uint64_t* n) override { add("unknown", m); return webm::Callback::OnUnknownElement(m, r, n); }
  webm::Status OnVoid(const webm::ElementMetadata& m, webm::Reader* r, uint64_t* n) override { add("void", m); return webm::Callback::OnVoid(m, r, n); }
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata& m, const webm::SimpleBlock& b, webm::Action* a) override { add("block", m); *a = webm::Action::kRead; return ok(); }
  webm::Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r, uint64_t* n) override { ev.push_back(Ev{"frame", 0, m.position, 0, m.size}); return webm::Callback::OnFrame(m, r, n); }
  webm::Status OnClusterEnd(const webm::ElementMetadata& m, const webm::Cluster&) override { add("clusterend", m); return ok(); }
  webm::Status OnCuePoint(const webm::ElementMetadata& m, const webm::CuePoint&) override { add("cuepoint", m); return ok(); }
  webm::Status OnInfo(const webm::ElementMetadata& m, const webm::Info&) override { add("info", m); return ok(); }
  webm::Status OnTrackEntry(const webm::ElementMetadata& m, const webm::TrackEntry&) override { add("track", m); return ok(); }
  webm::Status OnSegmentEnd(const webm::ElementMetadata& m) override { add("segmentend", m); return ok(); }
};
struct GapReader : webm::Reader {
  const gd::Gap& g;
  uint64_t p = 0, most;
  GapReader(const gd::Gap& x, uint64_t m) : g(x), most(m) {}
  webm::Status Read(size_t n, uint8_t* out, uint64_t* got) override {
    uint64_t k = std::min<uint64_t>(std::min<uint64_t>(n, most), g.total() - p);
    *got = k;
    if (!k) return webm::Status(webm::Status::kEndOfFile);
    g.get(p, (size_t)k, out);
    p += k;
    return webm::Status(k == n ? webm::Status::kOkCompleted : webm::Status::kOkPartial);
  }
  webm::Status Skip(uint64_t n, uint64_t* got) override {
    uint64_t k = std::min(std::min(n, most), g.total() - p);
    *got = k;
    if (!k) return webm::Status(webm::Status::kEndOfFile);
    p += k;
    return webm::Status(k == n ? webm::Status::kOkCompleted : webm::Status::kOkPartial);
  }
  uint64_t Position() const override { return p; }
};
void gap_run(const gd::Gap& g, const std::vector<Ev>& want, bool skip, webm::Reader* r, const char* how) {
  GapCb cb;
  cb.skip_clusters = skip;
  webm::WebmParser p;
  webm::Status st = p.Feed(&cb, r);
  mc::state();
  mc::tick((unsigned)cb.ev.size());
  CHECK(st.code == webm::Status::kOkCompleted, "%s: status %d", how, (int)st.code);
  CHECK(r->Position() == g.total(), "%s: ends at %llu of %llu", how, (ull)r->Position(), (ull)g.total());
  for (size_t i = 0; i < want.size() && i < cb.ev.size(); ++i) {
    const Ev &a = want[i], &b = cb.ev[i];
    CHECK(!strcmp(a.what, b.what) && a.id == b.id && a.pos == b.pos && a.hs == b.hs && a.size == b.size, "%s: notification %zu is %s %llx at %llu+%llu, %llu bytes, instead of %s %llx at %llu+%llu, %llu bytes", how, i,
          b.what, (ull)b.id, (ull)b.pos, (ull)b.hs, (ull)b.size, a.what, (ull)a.id, (ull)a.pos, (ull)a.hs, (ull)a.size);
  }
  CHECK(want.size() == cb.ev.size(), "%s: %zu notifications instead of %zu", how, cb.ev.size(), want.size());
}
void gap_check(const gd::Gap& g, bool skip) {
  R.desc = g.desc + (skip ? ", clusters skipped" : "");
  gd::Gap tw = g;
  tw.run = 8;
  tw.head = g.small.substr(0, g.at);
  tw.tail = g.small.substr(g.at + 8);
  GapCb cb;
  cb.skip_clusters = skip;
  { GapReader r(tw, ~0ull); webm::WebmParser p; CHECK(p.Feed(&cb, &r).code == webm::Status::kOkCompleted, "small twin"); }
  CHECK(cb.ev.size() > (skip ? 10u : 20u), "few notifications");
  std::vector<Ev> want = cb.ev;
  for (auto& e : want) {
    uint64_t end = e.size == webm::kUnknownElementSize ? 0 : e.pos + e.hs + e.size;
    e.size = g.size(e.pos, end, e.size);
    e.pos = g.pos(e.pos);
  }
  { GapReader r(g, ~0ull); gap_run(g, want, skip, &r, "whole"); }
  uint64_t step = std::max<uint64_t>(1, g.run / 5);
  { GapReader r(g, step); gap_run(g, want, skip, &r, "in parts"); }
  if (g.run < 0x300000000ull) {
    struct File {
      Bytes path = mc::scratch() + strf("/gap%d", (int)getpid());
      ~File() { unlink(path.c_str()); }
    } f;
    FILE* o = fopen(f.path.c_str(), "wb");
    if (!o) abort();
    fwrite(g.head.data(), 1, g.head.size(), o);
    fseeko(o, (off_t)g.run, SEEK_CUR);
    fwrite(g.tail.data(), 1, g.tail.size(), o);
    if (fclose(o)) { fprintf(stderr, "scratch space\n"); abort(); }
    webm::FileReader r(fopen(f.path.c_str(), "rb"));
    gap_run(g, want, skip, &r, "from a file");
  }
  mc::outcome(mc::hstr(g.desc));
}
}  // namespace
SPACE(C14, huge) {
  gd::Gap g = gd::pick(c);
  if (g.small.empty()) return nullptr;
  if (!c.mine()) return nullptr;
  return [=]() { gap_check(g, false); };
}
SPACE(C15, huge) {
  gd::Gap g = gd::pick(c);
  if (g.small.empty()) return nullptr;
  if (!c.mine()) return nullptr;
  return [=]() { gap_check(g, true); };
}

// ---------------------------------------------------------------- C12: delivery of the input
namespace {
// Reader call shapes of the plain run: every Read/Skip request, in order.
struct Calls { std::vector<uint64_t> want; };
struct Delivery {
  std::map<long long, std::vector<Answer>> at;   // answers given before call n is answered fully (n counts full answers)
};
// Delivers with deviations: before (or instead of) the full answer at the n-th *request*.
struct Script {
  std::map<long long, Answer> dev;   // call ordinal -> deviation
  int every = 0;                     // 1: one byte per call; 2: block before every call; 3: both; 4: error code before every call
  bool blocked = false;
  int code = -77;
  Answer operator()(long long call, uint64_t want) {
    Answer a;
    if (every) {
      if (every >= 2) {
        blocked = !blocked;
        if (blocked) { if (every == 4) { a.k = Answer::ERR; a.code = code; } else a.k = Answer::BLOCK; return a; }
      }
      if (every == 1 || every == 3) { a.k = Answer::PART; a.n = 1; }
      return a;
    }
    auto it = dev.find(call);
    if (it != dev.end()) return it->second;
    return a;
  }
};
// Runs under a script, resuming after every stop, and requires each stop to be reported unchanged.
void run_scripted(const Pred& w, const Bytes& b, const Policy& pol, Script s, uint64_t chunk, bool strict, const std::string& what, Calls* calls = nullptr) {
  ScriptReader r(b);
  if (strict) r.max_pos = b.size();
  bool stop = false;
  int stop_code = 0;
  r.script = [&](long long call, uint64_t want) {
    if (calls) calls->want.push_back(want);
    Answer a = s(call, want);
    if (a.k == Answer::BLOCK) { stop = true; stop_code = webm::Status::kWouldBlock; }
    if (a.k == Answer::ERR) { stop = true; stop_code = a.code; }
    return a;
  };
  LogCb cb;
  cb.pol = &pol;
  cb.chunk = chunk;
  webm::WebmParser p;
  int code = 0, feeds = 0;
  const int limit = 4 * (int)b.size() + 1000;
  while (true) {
    CHECK(++feeds < limit, "%s: no end after %d calls%s", what.c_str(), feeds, bytes_note(b).c_str());
    stop = false;
    code = p.Feed(&cb, &r).code;
    if (stop) {
      CHECK(code == stop_code, "%s: the reader stopped with %d, the parser reports %d%s", what.c_str(), stop_code, code, bytes_note(b).c_str());
      continue;
    }
    if (code == webm::Status::kOkPartial) continue;
    break;
  }
  mc::tick(feeds);
  mc::state(1);
  same(w, cb.log, code, cb.breach.empty() ? r.breach : cb.breach, b, what.c_str());
}
// Deviations available at a request of `want` bytes.
std::vector<Answer> deviations(uint64_t want, bool deep) {
  std::vector<Answer> v;
  Answer a;
  a.k = Answer::BLOCK;
  v.push_back(a);
  a.k = Answer::ERR;
  a.code = -77;
  v.push_back(a);
  a.k = Answer::PART;
  a.code = 0;
  std::set<uint64_t> ns;
  if (want > 1) {
    if (deep) for (uint64_t i = 1; i < want && i < 24; ++i) ns.insert(i);
    ns.insert(1);
    ns.insert(want / 2);
    ns.insert(want - 1);
  }
  for (auto n : ns) if (n >= 1 && n < want) { a.n = n; v.push_back(a); }
  return v;
}
std::string dev_name(const Answer& a) {
  return a.k == Answer::BLOCK ? "no data yet" : a.k == Answer::ERR ? strf("error %d", a.code) : strf("only %llu bytes", (ull)a.n);
}
// ord: -1 none, otherwise the action-bearing notification that is skipped.
void c12_run(const Bytes& b, bool valid, int pairs, bool deep, uint64_t chunk, const Policy& pol) {
  Pred w = predict(b, pol);
  bool strict = valid && w.status == 0 && pol.skip.empty();
  Calls calls;
  long long k = 0;
  Script none;
  run_scripted(w, b, pol, none, chunk, strict, "all at once", &calls);
  for (int e = 1; e <= 4; ++e)
    if (take(k++)) { Script s; s.every = e; run_scripted(w, b, pol, s, chunk, strict, e == 1 ? "one byte per read" : e == 2 ? "no data yet before every read" : e == 3 ? "one byte per read, each after a stop" : "an error before every read"); }
  size_t n = calls.want.size();
  for (size_t i = 0; i < n; ++i) {
    std::vector<Answer> di = deviations(calls.want[i], deep);
    for (auto& a : di) {
      if (!take(k++)) continue;
      Script s;
      s.dev[(long long)i] = a;
      run_scripted(w, b, pol, s, chunk, strict, strf("%s at read %zu of %llu bytes", dev_name(a).c_str(), i, (ull)calls.want[i]));
    }
  }
  if (pairs) {
    // Two stops: the second within the next `pairs` reads after the first.
    for (size_t i = 0; i < n; ++i)
      for (auto& a : deviations(calls.want[i], false))
        for (long long d = 1; d <= pairs; ++d)
          for (int kind = 0; kind < 3; ++kind) {
            if (!take(k++)) continue;
            Script s;
            s.dev[(long long)i] = a;
            Answer a2;
            a2.k = kind == 0 ? Answer::BLOCK : kind == 1 ? Answer::ERR : Answer::PART;
            a2.n = 1;
            a2.code = -78;
            s.dev[(long long)i + d] = a2;
            run_scripted(w, b, pol, s, chunk, strict, strf("%s at read %zu, then %s %lld reads later", dev_name(a).c_str(), i, dev_name(a2).c_str(), d));
          }
  }
  mc::outcome(mc::mix(mc::hstr(w.log), chunk));
}
}  // namespace
SPACE(C12, seeds) {
  int s = ALL[c.pick((int)ALL.size())];
  int chunk = c.pick(3);
  int pairs = R.thorough ? 6 : 3;
  int pt = c.pick(32);
  return [=]() {
    part(pt, 32);
    R.desc = strf("%s, frame data fetched %s", dg::seed_name(s), chunk == 0 ? "at once" : chunk == 1 ? "by single bytes" : "by two bytes");
    c12_run(dg::enc(dg::seed(s)), true, pairs, true, chunk, Policy());
  };
}
SPACE(C12, edits) {
  auto d = std::make_shared<Doc>();
  dg::EditCfg e;
  d->b = dg::enc(dg::pick(c, R.thorough ? ALL : std::vector<int>{dg::TINY, dg::LACES, dg::LIVE, dg::CHAIN}, 1, e, &d->desc));
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c12_run(d->b, false, 0, false, 0, Policy());
  };
}
SPACE(C12, skips) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  static std::map<int, int> n;
  if (!n.count(s)) n[s] = predict(b, Policy()).actions;
  int o = c.pick(n[s]);
  return [=]() {
    part(0, 1);
    Policy p;
    p.skip.insert(o);
    R.desc = strf("%s, action notification %d skipped", dg::seed_name(s), o);
    c12_run(b, true, 0, false, 0, p);
  };
}
SPACE(C12, blocks) {
  auto d = std::make_shared<Doc>();
  Bytes k = dg::pick_block(c, true, false, &d->desc);
  if (k.size() > 300) return nullptr;
  eb::El cl(eb::Cluster, {eb::eu(eb::Timecode, 3), eb::es(eb::SimpleBlock, k)});
  dg::Doc doc = {eb::El(eb::EBML, {}), eb::El(eb::Segment, {cl})};
  d->b = dg::enc(doc);
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c12_run(d->b, false, R.thorough ? 2 : 0, false, 0, Policy());
  };
}

SPACE(C12, laces) {
  auto d = laced(c);
  if (!d) return nullptr;
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    Policy none;
    Pred w = predict(d->b, none);
    for (int e = 1; e <= 3; ++e) {
      Script s;
      s.every = e;
      run_scripted(w, d->b, none, s, 0, false, e == 1 ? "one byte per read" : e == 2 ? "no data yet before every read" : "one byte per read, each after a stop");
    }
    mc::outcome(mc::hstr(w.log));
  };
}

// ---------------------------------------------------------------- C13: pauses
namespace {
void c13_one(const Pred& w, const Bytes& b, const Policy& pol, const std::map<int, int>& pause, int code, uint64_t chunk, int reader, const std::string& what, bool stop_in_data = false) {
  ScriptReader r(b);
  Script s;
  s.every = reader;
  if (reader) r.script = [&](long long c, uint64_t n) { return s(c, n); };
  LogCb cb;
  cb.pol = &pol;
  cb.pause = pause;
  cb.pause_code = code;
  cb.chunk = chunk;
  if (stop_in_data) cb.chunk_code = code;
  webm::WebmParser p;
  int st = 0, feeds = 0;
  const int limit = 8 * (int)b.size() + 2000;
  while (true) {
    CHECK(++feeds < limit, "%s: no end%s", what.c_str(), bytes_note(b).c_str());
    int before = cb.pauses, ev = cb.events;
    long long calls = r.calls;
    st = p.Feed(&cb, &r).code;
    if (cb.pauses != before) {
      CHECK(cb.pauses == before + 1, "%s: %d notifications were made after one of them paused%s", what.c_str(), cb.pauses - before, bytes_note(b).c_str());
      CHECK(st == code, "%s: the callback stopped with %d, the parser reports %d%s", what.c_str(), code, st, bytes_note(b).c_str());
      continue;
    }
    (void)ev; (void)calls;
    if (st == webm::Status::kOkPartial || st == webm::Status::kWouldBlock) continue;
    break;
  }
  mc::tick(feeds);
  mc::state(1);
  int left = 0;
  for (auto& x : cb.pause) left += x.second;
  if (w.status != 0) left = 0;
  std::string note = left ? strf("%s (%d pauses never happened)", what.c_str(), left) : what;
  same(w, cb.log, st, cb.breach.empty() ? r.breach : cb.breach, b, note.c_str());
  CHECK(left == 0, "%s", note.c_str());
}
void c13_run(const Bytes& b, const Policy& pol, int pairs, bool codes) {
  Pred w = predict(b, pol);
  long long k = 0;
  std::vector<int> cs = {webm::Status::kWouldBlock};
  if (codes) { cs.push_back(webm::Status::kOkPartial); cs.push_back(-77); cs.push_back(5); cs.push_back(webm::Status::kEndOfFile); }
  for (int code : cs) {
    for (int times = 1; times <= 2; ++times)
      if (take(k++)) {
        std::map<int, int> all;
        for (int i = 0; i < w.events; ++i) all[i] = times;
        c13_one(w, b, pol, all, code, 0, 0, strf("every notification paused %d times with %d", times, code));
      }
    for (int i = 0; i < w.events; ++i)
      if (take(k++)) c13_one(w, b, pol, {{i, 1}}, code, 0, 0, strf("notification %d paused with %d", i, code));
    for (uint64_t ch = 1; ch <= 3; ++ch)
      if (take(k++)) c13_one(w, b, pol, {}, code, ch, 0, strf("frame data fetched by %llu bytes, stopping with %d in between", (ull)ch, code), true);
  }
  if (pairs) {
    for (int i = 0; i < w.events; ++i)
      for (int j = i + 1; j < w.events && j <= i + pairs; ++j)
        if (take(k++)) c13_one(w, b, pol, {{i, 1}, {j, 2}}, webm::Status::kWouldBlock, 0, 0, strf("notifications %d and %d paused", i, j));
    for (int rd = 1; rd <= 3; ++rd)
      for (int i = 0; i < w.events; ++i)
        if (take(k++)) c13_one(w, b, pol, {{i, 1}}, webm::Status::kWouldBlock, rd == 2 ? 1 : 0, rd, strf("notification %d paused, input delivered in manner %d", i, rd));
  }
  mc::outcome(mc::hstr(w.log));
}
}  // namespace
SPACE(C13, seeds) {
  int s = ALL[c.pick((int)ALL.size())];
  int pairs = R.thorough ? 1000 : 12;
  int pt = c.pick(32);
  return [=]() {
    part(pt, 32);
    R.desc = dg::seed_name(s);
    c13_run(dg::enc(dg::seed(s)), Policy(), pairs, true);
  };
}
SPACE(C13, edits) {
  auto d = std::make_shared<Doc>();
  dg::EditCfg e;
  e.values = false;
  d->b = dg::enc(dg::pick(c, R.thorough ? ALL : std::vector<int>{dg::TINY, dg::LACES, dg::LIVE, dg::CHAIN, dg::META}, 1, e, &d->desc));
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c13_run(d->b, Policy(), 0, false);
  };
}
SPACE(C13, skips) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  static std::map<int, int> n;
  if (!n.count(s)) n[s] = predict(b, Policy()).actions;
  int o = c.pick(n[s]);
  return [=]() {
    part(0, 1);
    Policy p;
    p.skip.insert(o);
    R.desc = strf("%s, action notification %d skipped", dg::seed_name(s), o);
    c13_run(b, p, 0, false);
  };
}

// ---------------------------------------------------------------- C15: skipping
namespace {
void c15_run(const Bytes& b, int pairs, bool slow = false) {
  Policy none;
  Pred full = predict(b, none);
  if (full.status != 0) return;
  long long k = 0;
  auto one = [&](std::set<int> sk) {
    Policy p;
    p.skip = sk;
    Pred w = predict(b, p);
    Real g = plain_run(b, p);
    mc::state(1);
    std::string what = "skip of action notification";
    for (int x : sk) what += strf(" %d", x);
    same(w, g.log, g.status, g.breach, b, what.c_str());
    if (slow && sk.size() == 1)       // the same while the document arrives byte by byte, with pauses, or both
      for (int e = 1; e <= 3; ++e) { Script s; s.every = e; run_scripted(w, b, p, s, 0, true, what + strf(", slow delivery %d", e)); }
    mc::outcome(mc::hstr(w.log));
    return w.actions;
  };
  for (int i = 0; i < full.actions; ++i) {
    int m = -1;
    if (take(k++)) m = one({i});
    if (!pairs) continue;
    if (m < 0) { Policy p; p.skip = {i}; m = predict(b, p).actions; }
    for (int j = i + 1; j < m && j <= i + pairs; ++j)
      if (take(k++)) one({i, j});
  }
}
}  // namespace
SPACE(C15, seeds) {
  int s = ALL[c.pick((int)ALL.size())];
  int pt = c.pick(32);
  return [=]() {
    part(pt, 32);
    R.desc = dg::seed_name(s);
    c15_run(dg::enc(dg::seed(s)), 1000, true);
  };
}
SPACE(C15, edits) {
  auto d = std::make_shared<Doc>();
  dg::EditCfg e;
  d->b = dg::enc(dg::pick(c, ALL, 1, e, &d->desc));
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c15_run(d->b, 0, R.thorough);
  };
}
SPACE(C15, edits2) {
  auto d = std::make_shared<Doc>();
  dg::EditCfg e;
  e.values = false;
  d->b = dg::enc(dg::pick(c, R.thorough ? std::vector<int>{dg::TINY, dg::LIVE, dg::LACES, dg::CHAIN} : std::vector<int>{dg::CHAIN}, 2, e, &d->desc));
  if (d->b.empty()) return nullptr;
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c15_run(d->b, 0);
  };
}
SPACE(C15, blocks) {
  auto d = std::make_shared<Doc>();
  bool simple = c.pick(2) == 0;
  Bytes k = dg::pick_block(c, simple, false, &d->desc);
  eb::El cl(eb::Cluster, {eb::eu(eb::Timecode, 3)});
  if (simple) cl.add(eb::es(eb::SimpleBlock, k));
  else cl.add(eb::El(eb::BlockGroup, {eb::es(eb::Block, k), eb::eu(eb::BlockDuration, 1)}));
  cl.add(eb::es(eb::SimpleBlock, eb::enc_block(1, 9, 0, 0, {"end"})));
  dg::Doc doc = {eb::El(eb::EBML, {}), eb::El(eb::Segment, {cl})};
  d->b = dg::enc(doc);
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c15_run(d->b, 0);
  };
}

// ---------------------------------------------------------------- C16: seeking
namespace {
// The application stops the parser at event `at` (or after `reads` reads when at < 0), repositions, and goes on.
void c16_one(const Bytes& b, const Pred& from, int at, int reads, uint64_t target, int reader, const Pred& w, const std::string& what, const Bytes* damaged = nullptr, const Policy* pol = nullptr) {
  ScriptReader r(damaged ? *damaged : b);
  Script s;
  s.every = reader;
  bool armed = reads >= 0;
  r.script = [&](long long c, uint64_t n) {
    Answer a;
    if (armed && c == reads) { a.k = Answer::BLOCK; return a; }
    return s(c, n);
  };
  LogCb cb;
  if (at >= 0) cb.pause[at] = 1;
  cb.pol = pol;
  webm::WebmParser p;
  if (at >= 0 || reads >= 0 || damaged || pol) {
    int feeds = 0;
    while (true) {
      CHECK(++feeds < 100000, "%s: no end", what.c_str());
      int before = cb.pauses;
      long long cl = r.calls;
      int st = p.Feed(&cb, &r).code;
      (void)cl;
      if (cb.pauses != before) break;
      if (reads >= 0 && r.calls > reads) break;
      if (st != webm::Status::kOkPartial && st != webm::Status::kWouldBlock) break;
    }
    mc::tick(feeds);
  }
  armed = false;
  LogCb after;
  r.b = b;
  r.pos = target;
  p.DidSeek();
  int code = 0, feeds = 0;
  while (true) {
    CHECK(++feeds < 100000, "%s: no end after the seek", what.c_str());
    code = p.Feed(&after, &r).code;
    if (code != webm::Status::kOkPartial && code != webm::Status::kWouldBlock) break;
  }
  mc::tick(feeds);
  mc::state(1);
  same(w, after.log, code, after.breach.empty() ? r.breach : after.breach, b, what.c_str());
}
void c16_run(const Bytes& b, const dg::Doc& doc, bool cross) {
  Policy none;
  Pred full = predict(b, none);
  if (full.status != 0) return;
  long long k = 0;
  // All element positions of the document (including inside elements that the parser treats as leaves: none).
  std::map<uint64_t, uint32_t> at;
  for (auto& e : full.elems) at[e.pos] = e.id;
  std::vector<std::pair<uint64_t, uint32_t>> els(at.begin(), at.end());
  for (size_t i = 0; i < els.size(); ++i) {
    Pred w = predict(b, none, els[i].first);
    if (take(k++)) c16_one(b, full, -1, -1, els[i].first, 0, w, strf("start at %s @%llu", eb::name_of(els[i].second), (ull)els[i].first));
    int step = cross ? 1 : 7;
    for (int e = (int)(i % step); e < full.events; e += step)
      if (take(k++)) c16_one(b, full, e, -1, els[i].first, 0, w, strf("seek to %s @%llu while notification %d is paused", eb::name_of(els[i].second), (ull)els[i].first, e));
    if (cross) {
      if (take(k++)) c16_one(b, full, full.events - 1, -1, els[i].first, 1, w, strf("seek to %s @%llu at the last notification, single byte reads", eb::name_of(els[i].second), (ull)els[i].first));
      if (take(k++)) c16_one(b, full, full.events + 5, -1, els[i].first, 0, w, strf("seek to %s @%llu after the end", eb::name_of(els[i].second), (ull)els[i].first));
      if (take(k++)) c16_one(b, full, 3, -1, els[i].first, 3, w, strf("seek to %s @%llu, then single byte reads with stops", eb::name_of(els[i].second), (ull)els[i].first));
      for (size_t j = 0; j < els.size(); j += 3) {
        if (!take(k++)) continue;
        Bytes bad = b;
        bad[els[j].first] = 0;
        c16_one(b, full, -1, -1, els[i].first, 0, w, strf("seek to %s @%llu after an error @%llu", eb::name_of(els[i].second), (ull)els[i].first, (ull)els[j].first), &bad);
      }
      for (int n = 0; n < 60; n += 1)
        if (take(k++)) c16_one(b, full, -1, n, els[i].first, 0, w, strf("seek to %s @%llu when read %d has no data", eb::name_of(els[i].second), (ull)els[i].first, n));
    }
    mc::outcome(mc::hstr(w.log));
  }
}
}  // namespace
SPACE(C16, seeds) {
  int s = ALL[c.pick((int)ALL.size())];
  int pt = c.pick(64);
  return [=]() {
    part(pt, 64);
    R.desc = dg::seed_name(s);
    dg::Doc d = dg::seed(s);
    c16_run(dg::enc(d), d, true);
  };
}
SPACE(C16, skips) {      // something was, or is being, skipped when the application seeks
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  static std::map<int, int> n;
  if (!n.count(s)) n[s] = predict(b, Policy()).actions;
  int o = c.pick(n[s]);
  return [=]() {
    part(0, 1);
    Policy none, p;
    p.skip.insert(o);
    R.desc = strf("%s, action notification %d skipped", dg::seed_name(s), o);
    Pred full = predict(b, none), cut = predict(b, p);
    if (full.status != 0) return;
    std::map<uint64_t, uint32_t> at;
    for (auto& e : full.elems) at[e.pos] = e.id;
    long long k = 0;
    for (auto& e : at) {
      Pred w = predict(b, none, e.first);
      std::string what = strf("seek to %s @%llu", eb::name_of(e.second), (ull)e.first);
      if (take(k++)) c16_one(b, full, -1, -1, e.first, 0, w, what + " at the end", nullptr, &p);
      for (int v = o % 9; v < cut.events; v += R.thorough ? 1 : 9)
        if (take(k++)) c16_one(b, full, v, -1, e.first, 0, w, what + strf(" while notification %d is paused", v), nullptr, &p);
      for (int n = 1; n < 60; n += R.thorough ? 1 : 13)
        if (take(k++)) c16_one(b, full, -1, n, e.first, 0, w, what + strf(" when read %d has no data", n), nullptr, &p);
      mc::outcome(mc::hstr(w.log));
    }
  };
}
SPACE(C16, edits) {
  std::string desc;
  dg::EditCfg e;
  e.foreign = false;
  auto d = std::make_shared<dg::Doc>(dg::pick(c, R.thorough ? ALL : SMALL, 1, e, &desc));
  return [=]() {
    part(0, 1);
    R.desc = desc;
    c16_run(dg::enc(*d), *d, false);
  };
}

// Elements in places where they do not belong, around the element sought.
SPACE(C16, strays) {
  static const int where[] = {0, 1, 2};
  int s = SMALL[c.pick((int)SMALL.size())], w = where[c.pick(3)], kind = c.pick(9), twice = c.pick(2), uns = c.pick(2);
  return [=]() {
    part(0, 1);
    dg::Doc d = dg::seed(s);
    auto stray = [](int k) {
      switch (k) {
        case 0: return eb::El(eb::Cluster, {eb::eu(eb::Timecode, 77), eb::es(eb::SimpleBlock, eb::enc_block(1, 9, 0, 0, {"stray"}))});
        case 1: return eb::El(eb::Info, {eb::eu(eb::TimecodeScale, 3)});
        case 2: return eb::es(eb::SimpleBlock, eb::enc_block(1, 9, 0, 0, {"stray"}));
        case 3: return eb::eu(eb::Timecode, 5);
        case 4: return eb::es(eb::Void, "vvv");
        case 5: return eb::es(0x4DBA, "uuuu");
        case 6: return eb::eu(eb::EBMLVersion, 1);
        case 7: return eb::El(eb::Cues, {});
        default: return eb::El(eb::EBML, {eb::eu(eb::EBMLVersion, 1)});
      }
    };
    for (int i = 0; i <= twice; ++i) d.insert(w == 0 ? d.begin() : w == 1 ? d.begin() + 1 : d.end(), stray((kind + i * 4) % 9));
    if (uns) for (auto& e : d) if (e.id == eb::Segment) e.unknown = true;
    R.desc = strf("%s with %s%s %s", dg::seed_name(s), eb::name_of(stray(kind).id), twice ? " and another" : "", w == 0 ? "in front" : w == 1 ? "before the segment" : "at the end");
    c16_run(dg::enc(d), d, R.thorough);
  };
}

// ---------------------------------------------------------------- C17: truncation, persistence, bundled readers
namespace {
int mem_file(const Bytes& b) {
  static int fd = -1;
  if (fd < 0) fd = memfd_create("doc", 0);
  CHECK(fd >= 0, "harness: memfd");
  CHECK(ftruncate(fd, 0) == 0 && pwrite(fd, b.data(), b.size(), 0) == (ssize_t)b.size(), "harness: memfd write");
  return fd;
}
enum { RD_SCRIPT, RD_BUFFER, RD_FILE, RD_PIPE, RD_SSTREAM, RD_FSTREAM, RD_KINDS };
const char* rd_name[] = {"own reader", "BufferReader", "FileReader", "FileReader on a pipe", "IstreamReader on a string", "IstreamReader on a file"};
std::unique_ptr<webm::Reader> make_reader(int kind, const Bytes& b) {
  switch (kind) {
    case RD_BUFFER: return std::unique_ptr<webm::Reader>(new webm::BufferReader(std::vector<uint8_t>(b.begin(), b.end())));
    case RD_FILE: {
      std::string path = strf("/proc/self/fd/%d", mem_file(b));
      FILE* f = fopen(path.c_str(), "rb");
      CHECK(f, "harness: fopen");
      return std::unique_ptr<webm::Reader>(new webm::FileReader(f));
    }
    case RD_PIPE: {
      int p[2];
      CHECK(pipe(p) == 0, "harness: pipe");
      CHECK(write(p[1], b.data(), b.size()) == (ssize_t)b.size(), "harness: pipe write");
      close(p[1]);
      return std::unique_ptr<webm::Reader>(new webm::FileReader(fdopen(p[0], "rb")));
    }
    case RD_SSTREAM: return std::unique_ptr<webm::Reader>(new webm::IstreamReader(std::istringstream(b)));
    case RD_FSTREAM: {
      std::string path = strf("/proc/self/fd/%d", mem_file(b));
      return std::unique_ptr<webm::Reader>(new webm::IstreamReader(std::ifstream(path, std::ios::binary)));
    }
    default: return std::unique_ptr<webm::Reader>(new ScriptReader(b));
  }
}
void c17_one(const Pred& w, const Bytes& b, const Policy& pol, int kind, const std::string& what) {
  auto r = make_reader(kind, b);
  LogCb cb;
  cb.pol = &pol;
  webm::WebmParser p;
  RunOut x = feed_all(p, cb, *r);
  mc::state(1);
  std::string n = what + ", " + rd_name[kind];
  same(w, cb.log, x.status, cb.breach, b, n.c_str());
  for (int again = 0; again < 2; ++again) {
    int ev = cb.events;
    int st = p.Feed(&cb, r.get()).code;
    CHECK(cb.events == ev, "%s: status was %d; fed again, the parser notified%s", n.c_str(), x.status, bytes_note(b).c_str());
    CHECK(st == x.status, "%s: status was %d; fed again, the parser says %d%s", n.c_str(), x.status, st, bytes_note(b).c_str());
  }
  if (parsing_error(x.status)) {
    // Whatever the reader does now.
    for (int again = 0; again < 2; ++again) {
      ScriptReader other(dg::enc(dg::seed(dg::TINY)));
      LogCb cb2;
      int st = p.Feed(&cb2, &other).code;
      CHECK(cb2.events == 0 && st == x.status, "%s: after error %d new input is accepted (status %d, %d notifications)%s", n.c_str(), x.status, st, cb2.events, bytes_note(b).c_str());
    }
  }
}
void c17_cuts(const Bytes& b, const Policy& pol, bool all_readers, int step, int from) {
  Pred full = predict(b, pol);
  long long k = 0;
  for (size_t n = from; n <= b.size(); n += step) {
    Bytes cut = b.substr(0, n);
    Pred w = predict(cut, pol);
    if (w.status == webm::Status::kEndOfFile && full.log.find(" s? ") == std::string::npos)
      CHECK(full.log.compare(0, w.log.size(), w.log) == 0, "reference parser: the log of %zu bytes is no prefix of the whole log", n);
    for (int kind = 0; kind < (all_readers ? (int)RD_KINDS : (int)RD_BUFFER + 1); ++kind)
      if (take(k++)) c17_one(w, cut, pol, kind, strf("cut to %zu of %zu bytes", n, b.size()));
    mc::outcome(mc::mix(mc::hstr(w.log), w.status));
  }
}
}  // namespace
SPACE(C17, cuts) {
  int s = ALL[c.pick((int)ALL.size())];
  int pt = c.pick(32);
  return [=]() {
    part(pt, 32);
    R.desc = strf("%s", dg::seed_name(s));
    c17_cuts(dg::enc(dg::seed(s)), Policy(), true, 1, 0);
  };
}
SPACE(C17, edits) {
  auto d = std::make_shared<Doc>();
  dg::EditCfg e;
  e.values = R.thorough;
  d->b = dg::enc(dg::pick(c, R.thorough ? ALL : SMALL, 1, e, &d->desc));
  return [d]() {
    part(0, 1);
    R.desc = d->desc;
    c17_cuts(d->b, Policy(), false, 1, 0);
  };
}
SPACE(C17, skips) {
  static const std::vector<int> docs = R.thorough ? ALL : SMALL;
  int s = docs[c.pick((int)docs.size())];
  Bytes b = dg::enc(dg::seed(s));
  static std::map<int, int> n;
  if (!n.count(s)) n[s] = predict(b, Policy()).actions;
  int o = c.pick(n[s]);
  return [=]() {
    part(0, 1);
    Policy p;
    p.skip.insert(o);
    R.desc = strf("%s, action notification %d skipped", dg::seed_name(s), o);
    c17_cuts(b, p, true, R.thorough ? 1 : 3, o % 3);
  };
}
// Errors other than truncation: single-byte changes of the structure bytes, all bundled readers.
SPACE(C17, errors) {
  static const std::vector<int> docs = R.thorough ? ALL : SMALL;
  int s = docs[c.pick((int)docs.size())];
  Bytes b = dg::enc(dg::seed(s));
  int at = c.pick((int)b.size());
  static const int vals[] = {0x00, 0x01, 0x10, 0x40, 0x7f, 0x80, 0xff};
  int v = vals[c.pick(7)];
  if ((unsigned char)b[at] == v) return nullptr;
  b[at] = (char)v;
  return [=]() {
    part(0, 1);
    R.desc = strf("%s with byte %d = %02x", dg::seed_name(s), at, v);
    // Agreement of the readers and persistence; the exact error is C14's and C18's business.
    Real g = plain_run(b, Policy());
    Pred w;
    w.log = g.log;
    w.status = g.status;
    for (int kind = 0; kind < RD_KINDS; ++kind)
      if (take(kind)) c17_one(w, b, Policy(), kind, R.desc);
    mc::outcome(mc::mix(mc::hstr(g.log), g.status));
  };
}
// The readers themselves: every short sequence of requests.
SPACE(C17, readers) {
  static const int lens[] = {0, 1, 2, 5, 1023, 1024, 1025, 3000};
  static const uint64_t amounts[] = {1, 2, 4, 5, 6, 1024, 1025, 5000};
  int len = lens[c.pick(8)];
  int depth = R.thorough ? 4 : 3;
  std::vector<int> ops;
  for (int i = 0; i < depth; ++i) ops.push_back(c.pick(R.thorough ? 17 : 16));
  return [=]() {
    Bytes b(len, 0);
    for (int i = 0; i < len; ++i) b[i] = (char)(i * 31 + (i >> 8));
    for (int kind = RD_BUFFER; kind < RD_KINDS; ++kind) {
      if (!mc::sub(kind)) continue;
      auto r = make_reader(kind, b);
      uint64_t pos = 0;
      std::string hist = strf("%s over %d bytes:", rd_name[kind], len);
      for (int o : ops) {
        if (o == 16) continue;
        uint64_t n = amounts[o % 8], got = 77;
        bool rd = o < 8;
        std::vector<uint8_t> buf(n + 1, 0xEE);
        hist += strf(" %s %llu", rd ? "read" : "skip", (ull)n);
        R.desc = hist;
        int st = rd ? r->Read(n, buf.data(), &got).code : r->Skip(n, &got).code;
        uint64_t have = std::min<uint64_t>(n, b.size() - pos);
        mc::tick();
        // The contract allows delivering less, but never nothing while there is data, and never more.
        int want = have == 0 ? webm::Status::kEndOfFile : got == n ? webm::Status::kOkCompleted : webm::Status::kOkPartial;
        CHECK(st == want, "%s: status %d, expected %d (%llu of %llu bytes)", hist.c_str(), st, want, (ull)got, (ull)n);
        CHECK(have == 0 ? got == 0 : got >= 1 && got <= have, "%s: %llu bytes, but only %llu are there", hist.c_str(), (ull)got, (ull)have);
        if (rd) CHECK(memcmp(buf.data(), b.data() + pos, got) == 0 && buf[n] == 0xEE, "%s: wrong bytes", hist.c_str());
        pos += got;
        CHECK(r->Position() == pos, "%s: position %llu, expected %llu", hist.c_str(), (ull)r->Position(), (ull)pos);
        mc::outcome(mc::mix(mc::mix(pos, st), len));
      }
      mc::state(1);
    }
  };
}

// ---------------------------------------------------------------- C18: arbitrary bytes
namespace {
bool documented(int c) { return c == 0 || c == webm::Status::kEndOfFile || (c <= -1025 && c >= -1031); }
void c18_run(const Bytes& b, bool slow, const Policy& pol = Policy()) {
  size_t before = 0;
  uint64_t h = 0;
  for (int mode = 0; mode < (slow ? 2 : 1); ++mode) {
    before = mc::live_bytes();
    mc::watch_alloc();
    size_t big = 0;
    {
      ScriptReader r(b);
      Script s;
      s.every = mode ? 3 : 0;
      if (mode) r.script = [&](long long c, uint64_t n) { return s(c, n); };
      LogCb cb;
      cb.pol = &pol;
      webm::WebmParser p;
      int st, feeds = 0, limit = 6 * (int)b.size() + 200;
      do {
        CHECK(++feeds < limit, "no end after %d feeds%s", feeds, bytes_note(b).c_str());
        st = p.Feed(&cb, &r).code;
      } while (st == webm::Status::kWouldBlock || st == webm::Status::kOkPartial);
      CHECK(documented(st), "undocumented status %d%s", st, bytes_note(b).c_str());
      CHECK(r.breach.empty(), "%s%s", r.breach.c_str(), bytes_note(b).c_str());
      CHECK(cb.breach.empty(), "%s%s", cb.breach.c_str(), bytes_note(b).c_str());
      CHECK(cb.events <= 6 * (int)b.size() + 20, "%d notifications%s", cb.events, bytes_note(b).c_str());
      mc::tick(feeds);
      mc::state();
      uint64_t g = mc::mix(mc::hstr(cb.log), (uint64_t)st);
      CHECK(!mode || g == h, "slow delivery changes the outcome (status %d)%s", st, bytes_note(b).c_str());
      h = g;
      big = mc::biggest_alloc();
    }
    CHECK(big <= (16u << 20), "%zu bytes allocated at once for %zu bytes of input%s", big, b.size(), bytes_note(b).c_str());
    CHECK(mc::live_bytes() <= before || mode == 0, "%zu bytes leaked%s", mc::live_bytes() - before, bytes_note(b).c_str());
  }
  mc::outcome(h);
}
}  // namespace
SPACE(C18, bytes1) {
  int s = ALL[c.pick((int)ALL.size())];
  Bytes b = dg::enc(dg::seed(s));
  int at = c.pick((int)b.size());
  bool all = R.thorough || s == dg::TINY || s == dg::LACES || s == dg::LIVE;
  static const int crit[] = {0x00, 0x01, 0x02, 0x08, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  int v = all ? c.pick(256) : crit[c.pick(12)];
  if ((unsigned char)b[at] == v) return nullptr;
  b[at] = (char)v;
  return [=]() {
    R.desc = strf("%s with byte %d = %02x", dg::seed_name(s), at, v);
    c18_run(b, true);
  };
}
SPACE(C18, bytes2) {
  static const std::vector<int> docs = R.thorough ? SMALL : std::vector<int>{dg::TINY};
  int s = docs[c.pick((int)docs.size())];
  Bytes b = dg::enc(dg::seed(s));
  static const int crit[] = {0x00, 0x01, 0x40, 0x7f, 0x80, 0xff};
  int at = c.pick((int)b.size() - 1);
  int v = crit[c.pick(6)];
  if (!c.mine()) return nullptr;
  int at2 = at + 1 + c.pick((int)b.size() - at - 1);
  int v2 = crit[c.pick(6)];
  if ((unsigned char)b[at] == v || (unsigned char)b[at2] == v2) return nullptr;
  b[at] = (char)v;
  b[at2] = (char)v2;
  return [=]() {
    R.desc = strf("%s with byte %d = %02x and %d = %02x", dg::seed_name(s), at, v, at2, v2);
    c18_run(b, false);
  };
}
// Truncations with a wrong size: every element's size field replaced.
SPACE(C18, sizes) {
  int s = ALL[c.pick((int)ALL.size())];
  dg::Doc d = dg::seed(s);
  Bytes b = dg::enc(d);
  static std::map<int, Pred> memo;
  if (!memo.count(s)) memo[s] = predict(b, Policy());
  auto& els = memo[s].elems;
  int i = c.pick((int)els.size());
  static const char* sz[] = {"\x80", "\x81", "\xfe", "\xff", "\x40\x00", "\x7f\xfe", "\x7f\xff", "\x10\x00\x00\x00", "\x1f\xff\xff\xfe", "\x18\x00\x00\x00",
                             "\x08\x40\x00\x00\x00", "\x04\x7f\xff\xff\xff\xff", "\x02\x7f\xff\xff\xff\xff\xff", "\x01\x7f\xff\xff\xff\xff\xff\xff", "\x01\xff\xff\xff\xff\xff\xff\xfe",
                             "\x01\xff\xff\xff\xff\xff\xff\xff", "\x01\x00\x00\x00\x00\x00\x00\x00", "\x01\x00\x00\x00\x00\x00\x00\x01"};
  static const int szl[] = {1, 1, 1, 1, 2, 2, 2, 4, 4, 4, 5, 6, 7, 8, 8, 8, 8, 8};
  int k = c.pick(18);
  int parents = c.pick(2);   // also make every size around it unlimited
  uint64_t pos = els[i].pos;
  int idl = els[i].id > 0xffffff ? 4 : els[i].id > 0xffff ? 3 : els[i].id > 0xff ? 2 : 1;
  int fl = 1;
  while (!((unsigned char)b[pos + idl] & (0x80 >> (fl - 1)))) ++fl;
  Bytes m = b;
  m.replace(pos + idl, fl, Bytes(sz[k], szl[k]));
  if (parents) {
    // enclosing masters get the largest size (from the inside out, so that offsets stay valid)
    std::vector<std::pair<uint64_t, int>> open;
    for (int j = 0; j < i; ++j) {
      uint64_t q = els[j].pos;
      int il = els[j].id > 0xffffff ? 4 : els[j].id > 0xffff ? 3 : els[j].id > 0xff ? 2 : 1, f = 1;
      while (!((unsigned char)b[q + il] & (0x80 >> (f - 1)))) ++f;
      uint64_t v = (unsigned char)b[q + il] & (0xff >> f);
      for (int t = 1; t < f; ++t) v = v << 8 | (unsigned char)b[q + il + t];
      bool unk = v == (1ull << (7 * f)) - 1;
      if (!unk && q + il + f + v > pos) open.push_back({q + il, f});
    }
    if (open.empty()) return nullptr;
    for (size_t t = open.size(); t-- > 0;) m.replace(open[t].first, open[t].second, Bytes("\x01\xff\xff\xff\xff\xff\xff\xfe", 8));
  }
  uint32_t id = els[i].id;
  return [=]() {
    R.desc = strf("%s: size field of %s @%llu replaced by variant %d%s", dg::seed_name(s), eb::name_of(id), (ull)pos, k, parents ? ", enclosing sizes huge" : "");
    c18_run(m, true);
  };
}
// All strings of element-header tokens.
SPACE(C18, tokens) {
  static const std::vector<Bytes> T = {
      Bytes("\x1a\x45\xdf\xa3\x80"), Bytes("\x18\x53\x80\x67\xff"), Bytes("\x18\x53\x80\x67\x8a"), Bytes("\x1f\x43\xb6\x75\xff"), Bytes("\x1f\x43\xb6\x75\x80"),
      Bytes("\xe7\x81\x05"), Bytes("\xa0\xff"), Bytes("\xa0\x80"), Bytes("\xa1\x85\x81\x00\x00\x00\x01"), Bytes("\xa3\x85\x81\x00\x00\x80\x01", 7),
      Bytes("\xa3\x87\x81\x00\x00\x06\x01\x81\x01", 9), Bytes("\xec\x80"), Bytes("\xec\x81\x00", 3), Bytes("\xec\xff"), Bytes("\xbf\x80"), Bytes("\xbf\xff"),
      Bytes("\x1c\x53\xbb\x6b\xff"), Bytes("\xbb\xff"), Bytes("\xb7\xff"), Bytes("\xf1\x80"), Bytes("\x10\x43\xa7\x70\xff"), Bytes("\x45\xb9\xff"), Bytes("\xb6\xff"),
      Bytes("\x12\x54\xc3\x67\xff"), Bytes("\x73\x73\xff"), Bytes("\x67\xc8\xff"), Bytes("\x16\x54\xae\x6b\xff"), Bytes("\xae\xff"), Bytes("\xe0\xff"), Bytes("\x15\x49\xa9\x66\xff")};
  int depth = R.thorough ? 5 : 4;
  Bytes b;
  std::string desc = "tokens";
  int n = 1 + c.pick(depth);
  for (int i = 0; i < n; ++i) {
    int t = c.pick(R.thorough || n < 4 ? (int)T.size() : 20);
    if (i == 1 && !c.mine()) return nullptr;
    b += T[t];
    desc += strf(" %d", t);
  }
  return [=]() {
    R.desc = desc;
    c18_run(b, n <= 3);
  };
}
// Every short string of critical bytes as the contents of a block, with the rest of the document missing or present.
SPACE(C18, blockbytes) {
  static const int crit[] = {0x00, 0x01, 0x02, 0x04, 0x06, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  int kind = c.pick(2);
  int flags = c.pick(4) << 1;
  int n = c.pick(R.thorough ? 6 : 4);
  if (!c.mine()) return nullptr;
  Bytes k("\x81\x00\x01", 3);
  k += (char)flags;
  for (int i = 0; i < n; ++i) k += (char)crit[c.pick(12)];
  int tail = c.pick(3);
  k += Bytes(tail * 3, 'x');
  eb::El cl(eb::Cluster, {eb::eu(eb::Timecode, 3)});
  if (kind == 0) cl.add(eb::es(eb::SimpleBlock, k));
  else cl.add(eb::El(eb::BlockGroup, {eb::es(eb::Block, k), eb::eu(eb::BlockDuration, 1)}));
  dg::Doc doc = {eb::El(eb::EBML, {}), eb::El(eb::Segment, {cl})};
  Bytes b = dg::enc(doc);
  return [=]() {
    R.desc = "block contents " + mc::hex(k.data(), k.size());
    c18_run(b, n <= 3);
  };
}
SPACE(C18, laces) {
  auto d = laced(c);
  if (!d) return nullptr;
  return [d]() {
    R.desc = d->desc;
    c18_run(d->b, false);
  };
}
SPACE(C18, many) {
  std::string desc;
  dg::Doc doc = dg::pick_many(c, R.thorough, &desc);
  if (!c.mine()) return nullptr;
  Bytes b = dg::enc(doc);
  return [=]() {
    R.desc = desc;
    c18_run(b, false);
  };
}
// Deep nesting of recursive elements.
SPACE(C18, nesting) {
  int kind = c.pick(2), unk = c.pick(2), depth = 1 + c.pick(40);
  return [=]() {
    R.desc = strf("%s nested %d deep%s", kind ? "SimpleTag" : "ChapterAtom", depth, unk ? ", unknown sizes" : "");
    eb::El x(kind ? eb::SimpleTag : eb::ChapterAtom, {});
    x.unknown = unk;
    for (int i = 1; i < depth; ++i) {
      eb::El y(x.id, {x});
      y.unknown = unk;
      x = y;
    }
    eb::El top = kind ? eb::El(eb::Tags, {eb::El(eb::Tag, {x})}) : eb::El(eb::Chapters, {eb::El(eb::EditionEntry, {x})});
    dg::Doc doc = {eb::El(eb::EBML, {}), eb::El(eb::Segment, {top})};
    c18_run(dg::enc(doc), true);
  };
}
