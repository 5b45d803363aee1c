// Muxer properties C01 C02 C03 C05 C08: all call histories x configurations within the profile.
#include <map>
#include <set>
#include "muxlib.h"
using namespace mx;
using mc::R;

namespace {
typedef void (*Check)(const Case&, const Result&, const MemWriter&, const View&);

mc::Exec make(mc::Chooser& c, const Profile& p, Check chk, bool must_accept = true) {
  auto k = std::make_shared<Case>(gen(c, p));
  if (k->ops.empty() && p.len > 0) return nullptr;    // another shard's part
  return [k, chk, must_accept]() {
    R.desc = k->str();
    MemWriter w;
    Result r;
    mx::run(*k, w, &r);
    mc::state();
    if (!r.all_ok) {
      if (must_accept) {
        if (r.first_fail_op >= 0) FAIL("valid call refused: op %d (%s)", r.first_fail_op, k->ops[r.first_fail_op].str().c_str());
        FAIL("finalisation of a valid history failed");
      }
      mc::outcome(1);
      return;
    }
    View v;
    std::string e = view(w.buf, &v);
    if (!e.empty()) FAIL("output not well-formed: %s", e.c_str());
    chk(*k, r, w, v);
    mc::outcome(mc::fnv(w.buf.data(), w.buf.size()));
    mc::sample(R.desc);
  };
}
void c01(const Case& c, const Result& r, const MemWriter&, const View& v) { check_frames(c, r, v); }
void c02(const Case& c, const Result& r, const MemWriter& w, const View& v) { check_structure(c, w, v); }
void c03(const Case& c, const Result& r, const MemWriter&, const View& v) { check_index(c, r, v); }
void c05(const Case& c, const Result& r, const MemWriter&, const View& v) { check_clusters(c, r, v); }
void c08(const Case& c, const Result& r, const MemWriter&, const View& v) { check_info(c, r, v); }

// quick: every history of 3 frames with 2 deviations, of 4 frames with 1; thorough: one frame more each.
Profile seq2() { Profile p{3, true, 2}; if (R.thorough) { p.len = 4; p.wide = true; } return p; }
Profile seq1() { Profile p{4, true, 1}; if (R.thorough) { p.len = 6; p.wide = true; } return p; }
Profile longs() { Profile p{11, false, 2}; if (R.thorough) { p.len = 9; p.budget = 3; } return p; }
Profile many() { Profile p{1, true, 1}; p.period = 2; p.wide = R.thorough; if (R.thorough) p.budget = 2; return p; }
Profile many3() { Profile p{1, true, R.thorough ? 1 : 0}; p.period = 3; return p; }
Profile sizes() { Profile p{1, true, 1}; p.sizes = 1; return p; }
Profile sizes2() { Profile p{1, true, R.thorough ? 1 : 0}; p.sizes = 2; return p; }
Profile adds() { Profile p{1, true, 1}; p.sizes = 3; return p; }
Profile adds2() { Profile p{1, true, 0}; p.sizes = 4; return p; }
Profile none() { Profile p{0, true, R.thorough ? 3 : 2}; return p; }
}  // namespace

SPACE(C01, disorder) { Profile p{R.thorough ? 4 : 3, true, 2}; p.disorder = true; return make(c, p, c01, false); }
SPACE(C01, short2) { return make(c, seq2(), c01); }
SPACE(C01, seq1) { return make(c, seq1(), c01); }
SPACE(C01, streams) { return make(c, longs(), c01); }
SPACE(C02, short2) { return make(c, seq2(), c02); }
SPACE(C02, seq1) { return make(c, seq1(), c02); }
SPACE(C02, streams) { return make(c, longs(), c02); }
SPACE(C03, short2) { return make(c, seq2(), c03); }
SPACE(C03, seq1) { return make(c, seq1(), c03); }
SPACE(C03, streams) { return make(c, longs(), c03); }
SPACE(C05, short2) { return make(c, seq2(), c05); }
SPACE(C05, seq1) { return make(c, seq1(), c05); }
SPACE(C05, streams) { return make(c, longs(), c05); }
SPACE(C08, short2) { return make(c, seq2(), c08); }
SPACE(C08, seq1) { return make(c, seq1(), c08); }
SPACE(C08, streams) { return make(c, longs(), c08); }
SPACE(C01, many) { return make(c, many(), c01); }
SPACE(C01, many3) { return make(c, many3(), c01); }
SPACE(C01, sizes) { return make(c, sizes(), c01); }
SPACE(C01, add_sizes) { return make(c, adds(), c01); }
SPACE(C01, add_sizes2) { return make(c, adds2(), c01); }
SPACE(C01, sizes2) { return make(c, sizes2(), c01); }
SPACE(C02, many) { return make(c, many(), c02); }
SPACE(C02, many3) { return make(c, many3(), c02); }
SPACE(C02, sizes) { return make(c, sizes(), c02); }
SPACE(C02, add_sizes) { return make(c, adds(), c02); }
SPACE(C02, add_sizes2) { return make(c, adds2(), c02); }
SPACE(C02, sizes2) { return make(c, sizes2(), c02); }
SPACE(C03, many) { return make(c, many(), c03); }
SPACE(C03, many3) { return make(c, many3(), c03); }
SPACE(C03, sizes) { return make(c, sizes(), c03); }
SPACE(C03, add_sizes) { return make(c, adds(), c03); }
SPACE(C03, add_sizes2) { return make(c, adds2(), c03); }
SPACE(C03, sizes2) { return make(c, sizes2(), c03); }
SPACE(C05, many) { return make(c, many(), c05); }
SPACE(C05, many3) { return make(c, many3(), c05); }
SPACE(C08, many) { return make(c, many(), c08); }
SPACE(C08, many3) { return make(c, many3(), c08); }
SPACE(C02, none) { return make(c, none(), c02, false); }    // nothing but headers
SPACE(C03, none) { return make(c, none(), c03, false); }

// ---------------------------------------------------------------- files of several gigabytes
#include <sys/mman.h>
namespace {
typedef unsigned long long ull;
struct SparseWriter : mkvmuxer::IMkvWriter {   // keeps small writes, remembers the extent of large ones
  struct W { int64_t pos, len; Bytes b; };
  std::vector<W> w;
  int64_t pos = 0, end = 0;
  mkvmuxer::int32 Write(const void* d, mkvmuxer::uint32 n) override {
    W x{pos, (int64_t)n, Bytes()};
    if (n < (1u << 20)) x.b.assign((const char*)d, n);
    if (n) w.push_back(x);
    pos += n;
    end = std::max(end, pos);
    return 0;
  }
  mkvmuxer::int64 Position() const override { return pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override { if (p < 0 || p > end) return -1; pos = p; return 0; }
  bool Seekable() const override { return true; }
  void ElementStartNotify(mkvmuxer::uint64, mkvmuxer::int64) override {}
  uint8_t at(int64_t p) const {
    CHECK(p >= 0 && p < end, "the file has %lld bytes, read at %lld", (long long)end, (long long)p);
    for (size_t i = w.size(); i--;) if (p >= w[i].pos && p < w[i].pos + w[i].len) return w[i].b.empty() ? 0 : (uint8_t)w[i].b[p - w[i].pos];
    FAIL("a hole at %lld", (long long)p);
    return 0;
  }
  uint64_t num(int64_t p, int n) const { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | at(p + i); return v; }
};
struct Elem { uint32_t id; int64_t pos, body, end; };
Elem elem(const SparseWriter& f, int64_t p, int64_t limit) {
  Elem e;
  e.pos = p;
  int l = 1;
  while (l < 4 && !(f.at(p) & (0x80 >> (l - 1)))) ++l;
  e.id = (uint32_t)f.num(p, l);
  p += l;
  int s = 1;
  while (s < 8 && !(f.at(p) & (0x80 >> (s - 1)))) ++s;
  uint64_t v = f.num(p, s) & ((s == 8 ? (1ull << 56) : (1ull << (7 * s))) - 1);
  CHECK(v != (1ull << (7 * s)) - 1, "unknown size of %x at %lld", e.id, (long long)e.pos);
  e.body = p + s;
  e.end = e.body + (int64_t)v;
  CHECK(e.end <= limit, "%x at %lld ends at %lld, its parent at %lld", e.id, (long long)e.pos, (long long)e.end, (long long)limit);
  return e;
}
std::vector<Elem> kids(const SparseWriter& f, const Elem& e) {
  std::vector<Elem> v;
  for (int64_t p = e.body; p < e.end;) { v.push_back(elem(f, p, e.end)); p = v.back().end; }
  return v;
}
void huge(int shape, bool accurate, bool extra) {
  R.desc = mc::strf("frames of 1.1 GB, %s%s%s", shape == 0 ? "all in one cluster" : shape == 1 ? "a cluster each" : "audio between", accurate ? ", accurate durations" : "", extra ? ", with additions" : "");
  const size_t kBig = 1100000000;
  static uint8_t* zeros = (uint8_t*)mmap(nullptr, kBig, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  struct Fr { uint64_t track, ms; bool key; size_t len; };
  std::vector<Fr> fr;
  for (int i = 0; i < 5; ++i) {
    if (shape == 2) fr.push_back(Fr{2, 20 + 100ull * i - 10, true, 3});
    fr.push_back(Fr{1, 20 + 100ull * i, i == 0 || shape == 1, kBig});
  }
  fr.push_back(Fr{1, 700, true, 5});
  fr.push_back(Fr{1, 800, true, 6});
  SparseWriter w;
  {
    mkvmuxer::Segment s;
    CHECK(s.Init(&w), "Init");
    s.AccurateClusterDuration(accurate);
    CHECK(s.AddVideoTrack(16, 16, 1) == 1, "track");
    if (shape == 2) CHECK(s.AddAudioTrack(8000, 1, 2) == 2, "track");
    s.OutputCues(true);
    CHECK(s.CuesTrack(1), "CuesTrack");
    for (auto& f : fr) {
      mc::tick();
      bool ok = extra && f.track == 1 ? s.AddFrameWithAdditional(zeros, f.len, zeros, 9, 1, f.track, f.ms * 1000000, f.key) : s.AddFrame(zeros, f.len, f.track, f.ms * 1000000, f.key);
      CHECK(ok, "AddFrame at %llu ms", (ull)f.ms);
    }
    CHECK(s.Finalize(), "Finalize");
  }
  Elem h = elem(w, 0, w.end), sg = elem(w, h.end, w.end);
  CHECK(h.id == eb::EBML && sg.id == eb::Segment && sg.end == w.end, "the segment ends at %lld, the file at %lld", (long long)sg.end, (long long)w.end);
  std::map<int64_t, std::pair<uint32_t, uint64_t>> tops;   // offset -> id, cluster time
  size_t next = 0;
  std::set<std::pair<uint64_t, size_t>> seen, given;
  for (auto& f : fr) given.insert({f.track << 32 | f.ms, f.len});
  for (auto& t : kids(w, sg)) {
    uint64_t tc = 0;
    if (t.id == eb::Cluster) {
      for (auto& k : kids(w, t)) {
        if (k.id == eb::Timecode) tc = w.num(k.body, (int)(k.end - k.body));
        Elem b = k;
        if (k.id == eb::BlockGroup) b = kids(w, k)[0];
        if (b.id != eb::SimpleBlock && b.id != eb::Block) continue;
        uint64_t tr = w.at(b.body) & 0x7f, ms = tc + (int16_t)w.num(b.body + 1, 2);
        CHECK(seen.insert({tr << 32 | ms, (size_t)(b.end - b.body - 4)}).second, "frame twice");
        ++next;
      }
    }
    tops[t.pos - sg.body] = {t.id, tc};
  }
  CHECK(next == fr.size() && seen == given, "%zu frames instead of %zu, or others", next, fr.size());
  int cues = 0, seeks = 0;
  for (auto& t : kids(w, sg)) {
    if (t.id == eb::SeekHead) for (auto& k : kids(w, t)) {
      uint32_t id = 0;
      int64_t p = -1;
      for (auto& q : kids(w, k)) { if (q.id == eb::SeekID) id = (uint32_t)w.num(q.body, (int)(q.end - q.body)); else p = (int64_t)w.num(q.body, (int)(q.end - q.body)); }
      CHECK(tops.count(p) && tops[p].first == id, "seek entry of %x names %lld", id, (long long)p);
      ++seeks;
    }
    if (t.id == eb::Cues) for (auto& k : kids(w, t)) {
      uint64_t ms = 0, blk = 1;
      int64_t p = -1;
      for (auto& q : kids(w, k)) {
        if (q.id == eb::CueTime) ms = w.num(q.body, (int)(q.end - q.body));
        if (q.id == eb::CueTrackPositions) for (auto& x : kids(w, q)) {
          if (x.id == eb::CueClusterPosition) p = (int64_t)w.num(x.body, (int)(x.end - x.body));
          if (x.id == eb::CueBlockNumber) blk = w.num(x.body, (int)(x.end - x.body));
        }
      }
      CHECK(tops.count(p) && tops[p].first == eb::Cluster, "the cue at %llu ms names %lld", (ull)ms, (long long)p);
      CHECK(blk >= 1 && tops[p].second <= ms, "the cue at %llu ms names the cluster at %llu ms", (ull)ms, (ull)tops[p].second);
      ++cues;
    }
  }
  CHECK(seeks >= 3 && cues == (shape == 1 ? 7 : 3), "%d seek entries, %d cues", seeks, cues);
  mc::state();
  mc::outcome(mc::hstr(R.desc));
}
}  // namespace
SPACE(C02, huge) { int s = c.pick(3), f = c.pick(R.thorough ? 4 : 2); if (!c.mine()) return nullptr; return [=]() { huge(s, f & 1, f & 2); }; }
SPACE(C03, huge) { int s = c.pick(3), f = c.pick(R.thorough ? 4 : 2); if (!c.mine()) return nullptr; return [=]() { huge(s, R.thorough && (f & 1), R.thorough ? f & 2 : f & 1); }; }
