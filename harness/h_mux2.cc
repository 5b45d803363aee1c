// Muxer properties C04 (output faults), C06 (chunking), C27 (rejected calls), C28 (cue relocation).
#include <unistd.h>
#include <set>
#include "muxlib.h"
using namespace mx;
using mc::R;
using mc::strf;
typedef unsigned long long ull;

// ---------------------------------------------------------------- C04
namespace {
class FaultReader : public MemReader {
 public:
  long long ops = 0, fault_at = -1;
  explicit FaultReader(const Bytes& b) : MemReader(b) {}
  int Read(long long pos, long len, unsigned char* out) override {
    if (ops++ == fault_at) return -1;
    return MemReader::Read(pos, len, out);
  }
};
struct Variant { int code; bool persistent, partial; int go; };
const Variant kVariants[] = {
    {-1, false, false, 0}, {-1, false, false, 1}, {-1, false, false, 2}, {-1, false, false, 3},
    {1, false, false, 0}, {-1, true, false, 0}, {-1, true, false, 3}, {-1, false, true, 0}, {1, true, true, 1},
};
mc::Exec c04(mc::Chooser& c, const Profile& p) {
  auto k = std::make_shared<Case>(gen(c, p));
  return [k]() {
    MemWriter w0;
    Result r0;
    mx::run(*k, w0, &r0);
    long long n = w0.ops;
    CHECK(r0.all_ok, "fault-free run failed");
    long long idx = 0;
    for (long long f = 0; f < n; ++f) {
      for (auto& v : kVariants) {
        if (!mc::sub(idx++)) continue;
        mc::state();
        size_t before = mc::live_bytes();
        bool reported, faulted;
        {
          MemWriter w;
          w.fault_at = f;
          w.fault_code = v.code;
          w.persistent = v.persistent;
          w.partial = v.partial;
          Result r;
          mx::run(*k, w, &r, v.go);
          reported = r.any_fail_after_fault;
          faulted = w.faulted;
        }
        size_t after = mc::live_bytes();
        R.desc = strf("%s | output operation %lld of %lld fails with %d%s%s, caller %s", k->str().c_str(), f, n, v.code,
                      v.persistent ? ", and all later ones" : "", v.partial ? ", half written" : "",
                      v.go == 0 ? "continues" : v.go == 1 ? "finalises" : v.go == 2 ? "gives up" : "retries");
        CHECK(faulted, "operation %lld not reached: the muxer does not repeat itself", f);
        CHECK(reported, "failure of output operation %lld was swallowed", f);
        CHECK(after == before, "%lld bytes leaked after a failed output operation", (long long)after - (long long)before);
      }
    }
    mc::outcome(mc::fnv(w0.buf.data(), w0.buf.size()));
    mc::sample(k->str());
  };
}
// Faults while the cues are relocated.
mc::Exec c04_copy(mc::Chooser& c, const Profile& p) {
  auto k = std::make_shared<Case>(gen(c, p));
  k->cfg.live = false;
  k->cfg.seekable = true;
  return [k]() {
    long long nw = 0, nr = 0;
    for (int pass = 0; pass < 3; ++pass) {
      long long lim = pass == 0 ? 1 : pass == 1 ? nw * 2 : nr;
      for (long long f = 0; f < lim; ++f) {
        if (pass && !mc::sub(pass * 1000000ll + f)) continue;
        mc::state();
        R.desc = strf("%s | relocating cues, %s operation %lld fails", k->str().c_str(), pass == 1 ? "output" : "input", pass == 1 ? f / 2 : f);
        size_t before = mc::live_bytes();
        {
          MemWriter w;
          Result r;
          Hooks h;
          h.after_finalize = [&](mkvmuxer::Segment& s, MemWriter& in) {
            Bytes b = in.buf;
            FaultReader rd(b);
            MemWriter out;
            if (pass == 1) { out.fault_at = f / 2; out.fault_code = f % 2 ? 1 : -1; }
            if (pass == 2) rd.fault_at = f;
            bool ok = s.CopyAndMoveCuesBeforeClusters(&rd, &out);
            mc::tick();
            if (pass == 0) { nw = out.ops; nr = rd.ops; if (!ok) nw = nr = 0; }
            else if (ok) FAIL("failure swallowed");
          };
          mx::run(*k, w, &r, 0, &h);
        }
        size_t after = mc::live_bytes();
        CHECK(pass == 0 || after == before, "%lld bytes leaked", (long long)after - (long long)before);
      }
    }
    mc::outcome(nw);
    mc::sample(k->str());
  };
}
}  // namespace
SPACE(C04, write_faults) { Profile p{4, false, 1}; if (R.thorough) { p.len = 3; p.budget = 2; } return c04(c, p); }
SPACE(C04, write_faults_free) { Profile p{R.thorough ? 3 : 2, true, R.thorough ? 1 : 0}; return c04(c, p); }
SPACE(C04, relocation_faults) { Profile p{4, false, R.thorough ? 2 : 1}; return c04_copy(c, p); }

// ---------------------------------------------------------------- C06
namespace {
Bytes slurp(const std::string& n, bool* ok) {
  FILE* f = fopen(n.c_str(), "rb");
  *ok = f != nullptr;
  Bytes b;
  if (!f) return b;
  char t[65536];
  size_t k;
  while ((k = fread(t, 1, sizeof t, f)) > 0) b.append(t, k);
  fclose(f);
  unlink(n.c_str());
  return b;
}
mc::Exec c06_case(std::shared_ptr<Case> k);
mc::Exec c06(mc::Chooser& c, const Profile& p) {
  auto k = std::make_shared<Case>(gen(c, p));
  if (c.flag()) k->cfg.live = !k->cfg.live;
  k->cfg.seekable = true;
  return c06_case(k);
}
mc::Exec c06_case(std::shared_ptr<Case> k) {
  return [k]() {
    R.desc = k->str();
    MemWriter w0, w1;
    Result r0, r1;
    mx::run(*k, w0, &r0);
    CHECK(r0.all_ok, "unchunked run failed");
    Hooks h;
    bool set = false;
    h.before_header = [&](mkvmuxer::Segment& s) { set = s.SetChunking(true, "ck"); };
    mx::run(*k, w1, &r1, 0, &h);
    mc::state(2);
    CHECK(set, "SetChunking failed");
    CHECK(r1.all_ok, "call refused only because of chunking");
    CHECK(w1.buf.empty(), "chunked output also went to the plain writer");
    bool ok;
    Bytes all = slurp("ck.hdr", &ok);
    CHECK(ok, "no header file");
    Bytes hdr = all;
    std::vector<Bytes> chunks;
    for (int i = 0;; ++i) {
      Bytes b = slurp(strf("ck_%06d.chk", i), &ok);
      if (!ok) break;
      chunks.push_back(b);
      all += b;
    }
    if (!k->cfg.live) {
      for (size_t i = 0; i <= chunks.size() + 1; ++i) {
        Bytes b = slurp(strf("ck_%06zu.cues", i), &ok);
        if (!ok) continue;
        CHECK(i == chunks.size(), "cue file %zu after %zu chunks", i, chunks.size());
        all += b;
      }
    }
    View v0;
    std::string e = view(w0.buf, &v0);
    CHECK(e.empty(), "unchunked output: %s", e.c_str());
    CHECK(chunks.size() == v0.clusters.size(), "%zu chunks for %zu clusters", chunks.size(), v0.clusters.size());
    for (size_t i = 0; i < chunks.size(); ++i) {
      const OCluster& cl = v0.clusters[i];
      CHECK(chunks[i].size() == cl.end - cl.pos, "chunk %zu holds %zu bytes, the cluster has %llu", i, chunks[i].size(), (ull)(cl.end - cl.pos));
      CHECK(chunks[i].compare(0, 4, "\x1F\x43\xB6\x75", 4) == 0, "chunk %zu does not start with a cluster", i);
    }
    if (all != w0.buf) {
      size_t d = 0;
      while (d < all.size() && d < w0.buf.size() && all[d] == w0.buf[d]) ++d;
      FAIL("header and chunks joined differ from the unchunked output at byte %zu (%zu vs %zu bytes)", d, all.size(), w0.buf.size());
    }
    mc::outcome(mc::fnv(all.data(), all.size()));
    mc::sample(R.desc);
  };
}
}  // namespace
SPACE(C06, streams) { Profile p{7, false, R.thorough ? 2 : 1}; return c06(c, p); }
SPACE(C06, free) { Profile p{R.thorough ? 4 : 3, true, R.thorough ? 1 : 1}; return c06(c, p); }
SPACE(C06, many) {   // long runs of chunks
  static const int N[] = {8, 9, 10, 11, 15, 16, 17, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001};
  auto k = std::make_shared<Case>();
  int n = N[c.pick(R.thorough ? 19 : 16)], audio = c.pick(2), len = c.pick(3);
  k->cfg.live = c.flag();
  TrackDef v, a;
  v.req = a.req = 0;
  v.kind = TV;
  v.number = 1;
  a.kind = TA;
  a.number = 2;
  k->cfg.tracks.push_back(v);
  if (audio) k->cfg.tracks.push_back(a);
  for (int i = 0; i < n; ++i) {
    Op o;
    o.ts = (uint64_t)i * 40000000;
    o.key = true;
    o.len = len == 0 ? 3 : len == 1 ? 1 + i % 130 : 400;
    if (audio) { Op q = o; q.track = 1; k->ops.push_back(q); }
    k->ops.push_back(o);
  }
  return c06_case(k);
}

// ---------------------------------------------------------------- C27
namespace {
mc::Exec c27(mc::Chooser& c, const Profile& p) {
  auto k = std::make_shared<Case>(gen(c, p));
  bool any = false;
  for (auto& o : k->ops) any |= o.t == Op::BAD;
  if (!any) return nullptr;
  return [k]() {
    R.desc = k->str();
    Case clean;
    clean.cfg = k->cfg;
    // payloads depend on the operation index, so keep indexes: replace invalid calls by nothing via marker
    MemWriter w0, w1;
    Result r0, r1;
    mx::run(*k, w1, &r1);
    if (!r1.bad_calls) return;
    Case ref = *k;
    for (auto& o : ref.ops) if (o.t == Op::BAD) { o.bad = -1; }
    mx::run(ref, w0, &r0);
    mc::state(2);
    CHECK(r0.all_ok, "the history without the invalid calls failed");
    CHECK(r0.rc == r1.rc, "a call behaves differently after a rejected call");
    if (w0.buf != w1.buf) {
      size_t d = 0;
      while (d < w0.buf.size() && d < w1.buf.size() && w0.buf[d] == w1.buf[d]) ++d;
      FAIL("rejected call changed the output: %zu vs %zu bytes, first difference at %zu", w1.buf.size(), w0.buf.size(), d);
    }
    mc::outcome(mc::fnv(w1.buf.data(), w1.buf.size()));
    mc::sample(R.desc);
  };
}
}  // namespace
SPACE(C27, free) { Profile p{R.thorough ? 4 : 3, true, R.thorough ? 2 : 1}; p.bad_ops = true; return c27(c, p); }
SPACE(C27, streams) { Profile p{R.thorough ? 6 : 5, false, 2}; p.bad_ops = true; return c27(c, p); }
SPACE(C27, numbers) {
  static const int nums[] = {0, 1, 2, 3, 5, 126, 127, -1, 128, 256};
  auto seq = std::make_shared<std::vector<std::pair<int, int>>>();
  int len = R.thorough ? 5 : 4;
  for (int i = 0; i < len; ++i) { int n = nums[c.pick(10)]; seq->push_back({n, i == 0 ? c.pick(3) : (int)(n & 1)}); }
  return [seq]() {
    R.desc = "AddTrack";
    for (auto& s : *seq) R.desc += strf(" %c%d", "VAS"[s.second], s.first);
    MemWriter w;
    mkvmuxer::Segment seg;
    seg.Init(&w);
    std::set<uint64_t> used, uids;
    uint64_t expect_first = 0;
    for (auto& s : *seq) {
      uint64_t n = 0;
      if (s.second == 0) n = seg.AddVideoTrack(16, 16, s.first);
      else if (s.second == 1) n = seg.AddAudioTrack(8000, 1, s.first);
      else { mkvmuxer::Track* t = seg.AddTrack(s.first); n = t ? t->number() : 0; }
      mc::tick();
      bool valid = s.first >= 0 && s.first <= 126 && !used.count(s.first);
      CHECK(valid == (n != 0), "AddTrack(%d) %s", s.first, n ? "accepted" : "refused");
      if (!n) continue;
      CHECK(n >= 1 && n <= 126, "track number %llu", (ull)n);
      CHECK(s.first == 0 || n == (uint64_t)s.first, "asked for %d, got %llu", s.first, (ull)n);
      CHECK(used.insert(n).second, "number %llu assigned twice", (ull)n);
      mkvmuxer::Track* t = seg.GetTrackByNumber(n);
      CHECK(t && t->number() == n, "lookup by number");
      CHECK(t->uid() != 0, "uid 0");
      CHECK(uids.insert(t->uid()).second, "uid used twice");
      if (!expect_first) expect_first = n;
    }
    mc::state();
    mc::outcome(used.size() * 1000 + (used.empty() ? 0 : *used.rbegin()));
    mc::sample(R.desc);
  };
}
SPACE(C27, exhaust_numbers) {
  int pre = c.pick(4), extra = c.pick(3);
  return [pre, extra]() {
    R.desc = strf("fill all track numbers, pre=%d", pre);
    MemWriter w;
    mkvmuxer::Segment seg;
    seg.Init(&w);
    std::set<uint64_t> used, uids;
    auto add = [&](int num) {
      mkvmuxer::Track* t = seg.AddTrack(num);
      mc::tick();
      if (!t) return false;
      uint64_t n = t->number();
      CHECK(n >= 1 && n <= 126, "track number %llu", (ull)n);
      CHECK(used.insert(n).second, "number assigned twice");
      CHECK(t->uid() && uids.insert(t->uid()).second, "uid");
      return true;
    };
    if (pre == 1) CHECK(add(126), "126 refused");
    if (pre == 2) CHECK(add(1), "1 refused");
    if (pre == 3) CHECK(add(60) && add(125), "60/125 refused");
    int guard = 0;
    while (add(0)) CHECK(++guard < 200, "more tracks than numbers");
    for (int i = 1; i <= 126; ++i) if (!used.count(i)) CHECK(add(i), "free number %d refused", i);
    CHECK(used.size() == 126, "%zu tracks", used.size());
    for (int i = 0; i <= extra; ++i) CHECK(!add(i), "number accepted although all are taken");
    mc::state();
    mc::outcome(pre);
  };
}

// ---------------------------------------------------------------- C28
namespace {
void relocate(const Case& k, Hooks* extra) {
  R.desc = k.str();
  MemWriter w, out;
  Result r;
  Hooks h;
  bool ok = false;
  h.before_header = extra ? extra->before_header : nullptr;
  Bytes orig;
  h.after_finalize = [&](mkvmuxer::Segment& s, MemWriter& in) {
    orig = in.buf;
    MemReader rd(orig);
    ok = s.CopyAndMoveCuesBeforeClusters(&rd, &out);
    mc::tick();
  };
  mx::run(k, w, &r, 0, &h);
  mc::state();
  CHECK(r.all_ok, "muxing failed");
  View v0, v1;
  std::string e = view(orig, &v0);
  CHECK(e.empty(), "original: %s", e.c_str());
  bool has_cues = v0.seg->find(eb::Cues) != nullptr;
  if (!ok) {
    CHECK(!has_cues || k.cfg.live, "relocation failed");
    mc::outcome(0);
    return;
  }
  CHECK(has_cues, "relocation of cues that do not exist reported success");
  if (!out.defect.empty()) FAIL("%s", out.defect.c_str());
  e = view(out.buf, &v1);
  CHECK(e.empty(), "relocated file not well-formed: %s", e.c_str());
  // same elements, cues moved before the first cluster
  std::vector<const eb::Node*> a, b;
  const eb::Node *ca = nullptr, *cb = nullptr;
  bool seen_cluster = false;
  for (auto& n : v0.seg->kids) if (n.id == eb::Cues) ca = &n; else if (n.id != eb::SeekHead && n.id != eb::Void) a.push_back(&n);
  for (auto& n : v1.seg->kids) {
    if (n.id == eb::Cluster) seen_cluster = true;
    if (n.id == eb::Cues) { CHECK(!seen_cluster, "cues still behind a cluster"); cb = &n; }
    else if (n.id != eb::SeekHead && n.id != eb::Void) b.push_back(&n);
  }
  CHECK(ca && cb, "cues lost");
  CHECK(a.size() == b.size(), "%zu elements became %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) {
    CHECK(a[i]->id == b[i]->id, "%s became %s", eb::name_of(a[i]->id), eb::name_of(b[i]->id));
    CHECK(orig.compare(a[i]->pos, a[i]->end() - a[i]->pos, out.buf, b[i]->pos, b[i]->end() - b[i]->pos) == 0,
          "%s changed while being copied", eb::name_of(a[i]->id));
  }
  CHECK(ca->all(eb::CuePoint).size() == cb->all(eb::CuePoint).size(), "cue points lost");
  auto pa = ca->all(eb::CuePoint), pb = cb->all(eb::CuePoint);
  for (size_t i = 0; i < pa.size(); ++i) {
    CHECK(pa[i]->find(eb::CueTime)->u() == pb[i]->find(eb::CueTime)->u(), "cue time changed");
    auto *ta = pa[i]->find(eb::CueTrackPositions), *tb = pb[i]->find(eb::CueTrackPositions);
    CHECK(ta->find(eb::CueTrack)->u() == tb->find(eb::CueTrack)->u(), "cue track changed");
    auto *na = ta->find(eb::CueBlockNumber), *nb = tb->find(eb::CueBlockNumber);
    CHECK((na ? na->u() : 1) == (nb ? nb->u() : 1), "cue block number changed");
    uint64_t xa = ta->find(eb::CueClusterPosition)->u() + v0.seg->body(), xb = tb->find(eb::CueClusterPosition)->u() + v1.seg->body();
    int ia = -1, ib = -1;
    for (size_t j = 0; j < v0.clusters.size(); ++j) if (v0.clusters[j].pos == xa) ia = (int)j;
    for (size_t j = 0; j < v1.clusters.size(); ++j) if (v1.clusters[j].pos == xb) ib = (int)j;
    CHECK(ib >= 0, "cue %zu points at %llu, where no cluster starts", i, (ull)xb);
    CHECK(ia == ib, "cue %zu points at cluster %d instead of %d", i, ib, ia);
  }
  Case kk = k;
  kk.cfg.block_numbers = false;     // numbers compared above
  if (k.cfg.block_numbers) { bool any = false; for (auto* p : pb) any |= p->find(eb::CueTrackPositions)->find(eb::CueBlockNumber) != nullptr; if (any) kk.cfg.block_numbers = true; }
  if (!k.cfg.accurate) check_index(kk, r, v1, true);
  check_frames(k, r, v1);
  check_info(k, r, v1);
  mc::outcome(mc::fnv(out.buf.data(), out.buf.size()));
  mc::sample(R.desc);
}
}  // namespace
SPACE(C28, free) {
  Profile p{R.thorough ? 4 : 3, true, R.thorough ? 2 : 1};
  auto k = std::make_shared<Case>(gen(c, p));
  k->cfg.seekable = true;
  return [k]() { relocate(*k, nullptr); };
}
SPACE(C28, streams) {
  Profile p{R.thorough ? 11 : 9, false, 2};
  auto k = std::make_shared<Case>(gen(c, p));
  k->cfg.seekable = true;
  return [k]() { relocate(*k, nullptr); };
}
// Every alignment of cluster positions and cue table size around the coded-size boundaries.
SPACE(C28, size_boundaries) {
  auto k = std::make_shared<Case>();
  k->cfg.tracks = {{TV, 1, 0}};
  int mode = c.pick(4);
  int app = 0, n, len0 = 3, len = 3;
  if (mode == 0) { app = c.pick(R.thorough ? 300 : 140); n = 1 + c.pick(R.thorough ? 16 : 10); }              // position 255/256, cues size 127/128
  else if (mode == 1) { n = 1 + c.pick(R.thorough ? 8 : 4); len0 = 65536 - 700 + c.pick(700); }  // 65535/65536
  else if (mode == 2) { n = (R.thorough ? 900 : 1000) + c.pick(R.thorough ? 500 : 220); len = c.pick(2) ? 40 : 3; }  // cues size 16383/16384
  else { n = 1 + c.pick(6); app = c.pick(20); len = 1 + c.pick(R.thorough ? 130 : 60); }
  for (int i = 0; i < n; ++i) {
    Op o;
    o.track = 0; o.key = true; o.ts = i * 10000000ull; o.len = i ? len : len0;
    k->ops.push_back(o);
  }
  return [k, app, mode, n, len0, len]() {
    Hooks h;
    std::string a(app + 1, 'x');
    h.before_header = [&](mkvmuxer::Segment& s) { s.GetSegmentInfo()->set_writing_app(a.c_str()); };
    relocate(*k, &h);
    (void)mode; (void)n; (void)len0; (void)len;
  };
}
