// C26: lookups by time, cue and position in the pull parser, compared with a linear scan.
#include <algorithm>
#include <climits>
#include <map>
#include <memory>
#include <set>
#include "ebml.h"
#include "mc.h"
#include "mkvparser/mkvparser.h"
#include "pulllib.h"
using mc::R;
using mc::strf;
typedef long long ll;
typedef unsigned long long ull;
namespace {
const ll U = 1000000;   // nanoseconds per tick
struct Blk { int track; ll rel; bool key; ll t; int no; };          // no: number within its cluster, from 1
struct Clu { ll tc; std::vector<Blk> b; bool unknown = false; ll off = 0; };
struct Cue { ll t; int track, clu, blkno; int second = 0; };   // blkno 0: not written; second: another track position in the same cue point
using eb::Bytes;
struct File {
  std::vector<Clu> c;
  std::vector<Cue> cues;
  int place = 0;          // cues: 0 none, 1 after, 2 before the clusters
  Bytes bytes;
  std::string desc;
  std::map<ll, std::pair<int, int>> at;   // frame position -> cluster, block
  int ntracks = 2;
  void build();
};
using eb::Bytes;
int type_of(int track) { return track == 1 ? 1 : track == 2 ? 2 : 17; }
void File::build() {
  using namespace eb;
  std::vector<El> head = {El(Info, {eu(TimecodeScale, U)})};
  El tr(Tracks, {});
  for (int t = 1; t <= ntracks; ++t) {
    El e(TrackEntry, {eu(TrackNumber, t), eu(TrackUID, t), eu(TrackType, type_of(t)), es(CodecID, t == 1 ? "V_VP8" : t == 2 ? "A_OPUS" : "D_WEBVTT/SUBTITLES")});
    if (t == 1) e.add(El(Video, {eu(PixelWidth, 2), eu(PixelHeight, 2)}));
    if (t == 2) e.add(El(Audio, {eu(Channels, 1)}));
    tr.add(e);
  }
  head.push_back(tr);
  std::vector<Bytes> body;
  for (auto& k : c) {
    El e(Cluster, {eu(Timecode, k.tc)});
    int n = 0;
    for (auto& b : k.b) {
      b.t = k.tc + b.rel;
      b.no = ++n;
      Bytes p;
      p += (char)(0x80 | b.track);
      p += (char)(b.rel >> 8);
      p += (char)b.rel;
      p += (char)(b.key ? 0x80 : 0);
      p += 'x';
      e.add(es(SimpleBlock, p));
    }
    e.unknown = k.unknown;
    body.push_back(e.enc());
  }
  Bytes h;
  for (auto& e : head) h += e.enc();
  // offsets are relative to the segment payload; positions are written with a fixed width
  auto cues_bytes = [&]() {
    El q(Cues, {});
    for (auto& x : cues) {
      auto pos = [&](int track) {
        Bytes p;
        for (int i = 7; i >= 0; --i) p += (char)(c[x.clu].off >> (8 * i));
        El tp(CueTrackPositions, {eu(CueTrack, track), es(CueClusterPosition, p)});
        if (x.blkno) tp.add(eu(CueBlockNumber, x.blkno));
        return tp;
      };
      El cp(CuePoint, {eu(CueTime, x.t), pos(x.track)});
      if (x.second) cp.add(pos(x.second));
      q.add(cp);
    }
    return q.enc();
  };
  bool have = place && !cues.empty();
  ll off = h.size();
  if (have && place == 2) off += cues_bytes().size();
  for (size_t i = 0; i < c.size(); ++i) { c[i].off = off; off += body[i].size(); }
  Bytes seg = h;
  if (have && place == 2) seg += cues_bytes();
  for (auto& x : body) seg += x;
  if (have && place == 1) seg += cues_bytes();
  bytes = El(EBML, {es(DocType, "webm")}).enc();
  ll sz = seg.size();
  bytes += Bytes("\x18\x53\x80\x67\x01", 5);
  for (int i = 6; i >= 0; --i) bytes += (char)(sz >> (8 * i));
  ll start = bytes.size();
  bytes += seg;
  at.clear();
  for (size_t i = 0; i < c.size(); ++i) {
    ll p = start + c[i].off + body[i].size();
    for (size_t k = c[i].b.size(); k-- > 0;) { p -= 1; at[p] = {(int)i, (int)k}; p -= 6; }
  }
}
using namespace mkvparser;
typedef std::pair<int, int> Id;   // cluster, block; (-1,-1) end, (-2,-2) null
const Id END(-1, -1), NUL(-2, -2);
std::string show(Id i) { return i == END ? "the end" : i == NUL ? "nothing" : strf("block %d of cluster %d", i.second + 1, i.first); }
struct Check {
  File& f;
  pl::MemReader r;
  std::unique_ptr<Segment> seg;
  int loaded = 0;                 // clusters with blocks loaded
  std::vector<int> full;          // indexes of the clusters with blocks
  bool sorted = true;
  explicit Check(File& x) : f(x), r(x.bytes) {
    for (size_t i = 0; i < f.c.size(); ++i) if (!f.c[i].b.empty()) full.push_back((int)i);
    std::map<int, ll> last;
    ll lc = -1;
    for (auto& k : f.c) {
      if (k.tc < lc) sorted = false;
      lc = k.tc;
      for (auto& b : k.b) { if (last.count(b.track) && b.t < last[b.track]) sorted = false; last[b.track] = b.t; }
    }
  }
  Id id(const BlockEntry* e) {
    if (!e) return NUL;
    if (e->EOS()) return END;
    auto i = f.at.find(e->GetBlock()->GetFrame(0).pos);
    if (i == f.at.end()) return Id(-9, -9);
    return i->second;
  }
  int clu(const Cluster* c) {
    if (!c) return -2;
    if (c->EOS()) return -1;
    for (size_t i = 0; i < f.c.size(); ++i) if (f.c[i].off == c->GetPosition()) return (int)i;
    return -9;
  }
  void open() {
    ll pos = 0;
    EBMLHeader h;
    CHECK(h.Parse(&r, pos) == 0, "header");
    Segment* s = nullptr;
    CHECK(Segment::CreateInstance(&r, pos, s) == 0 && s, "segment");
    seg.reset(s);
    ll hs = seg->ParseHeaders(); CHECK(hs == 0, "ParseHeaders: %lld%s", hs, ctx().c_str());
  }
  // Loads up to n clusters in all.
  void load(int n) {
    while (loaded < n) {
      ll p;
      long l;
      long st = seg->LoadCluster(p, l);
      CHECK(st >= 0, "LoadCluster: %ld%s", st, ctx().c_str());
      if (st > 0) break;
      ++loaded;
    }
    CHECK((int)seg->GetCount() == loaded, "%lu clusters instead of %d%s", seg->GetCount(), loaded, ctx().c_str());
  }
  std::string ctx() const { return " | " + strf("%zu bytes: ", f.bytes.size()) + mc::hex(f.bytes.data(), f.bytes.size(), 600); }
  std::vector<ll> times() {
    std::vector<ll> t;
    std::set<ll> ticks;
    for (auto& k : f.c) { ticks.insert(k.tc); for (auto& b : k.b) ticks.insert(b.t); }
    for (auto& q : f.cues) ticks.insert(q.t);
    std::set<ll> s;
    for (ll x : ticks) { s.insert(x * U); s.insert(x * U - 1); s.insert(x * U + 1); s.insert(x * U + U / 2); }
    for (ll x : s) if (x >= 0) t.push_back(x);
    return t;
  }
  bool vet(const Blk& b) { return b.track != 1 || b.key; }
  // first block of the track in loaded clusters
  Id first(int track) {
    for (int i = 0; i < loaded; ++i)
      for (size_t k = 0; k < f.c[full[i]].b.size(); ++k) {
        auto& b = f.c[full[i]].b[k];
        if (b.track == track && vet(b)) return Id(full[i], (int)k);
      }
    return END;
  }
  const Blk& blk(Id i) { return f.c[i.first].b[i.second]; }
  Id entry(int ci, int track, ll ns) {   // Cluster::GetEntry(track, time)
    Id res = END;
    for (size_t k = 0; k < f.c[ci].b.size(); ++k) {
      auto& b = f.c[ci].b[k];
      if (b.track != track) continue;
      if (ns < 0) { if (vet(b)) return Id(ci, (int)k); continue; }
      if (b.t * U <= ns && vet(b)) res = Id(ci, (int)k);
    }
    return res;
  }
  Id seek(int track, ll ns) {
    Id f0 = first(track);
    if (f0 == END) return END;
    if (ns <= blk(f0).t * U) return f0;
    // last loaded cluster that does not start after the time, but not before the first block's
    int i0 = (int)(std::find(full.begin(), full.end(), f0.first) - full.begin()), hit = i0;
    for (int i = i0; i < loaded; ++i) if (f.c[full[i]].tc * U <= ns) hit = i;
    if (f.c[full[i0]].tc * U > ns) { if (track != 1) return f0; hit = i0; }
    for (int i = hit; i >= i0; --i) {
      Id x = entry(full[i], track, track == 1 ? ns : -1);
      if (x != END) return x;
    }
    return END;
  }
  void clusters_by_time() {
    if (!sorted) return;
    for (ll t : times()) {
      int want = -1;
      if (loaded) {
        want = full[0];
        for (int i = 0; i < loaded; ++i) if (f.c[full[i]].tc * U <= t) want = full[i];
        if (t <= f.c[full[0]].tc * U) want = full[0];
      }
      int got = clu(seg->FindCluster(t));
      CHECK(got == want, "FindCluster(%lld) gives cluster %d instead of %d, %d loaded%s", t, got, want, loaded, ctx().c_str());
      mc::tick();
    }
  }
  void tracks() {
    const Tracks* ts = seg->GetTracks();
    for (int tn = 1; tn <= f.ntracks; ++tn) {
      const Track* t = ts->GetTrackByNumber(tn);
      CHECK(t && t->GetNumber() == tn, "GetTrackByNumber(%d)", tn);
      // every block, in order
      std::vector<Id> want;
      bool started = false;
      for (int i = 0; i < loaded; ++i)
        for (size_t k = 0; k < f.c[full[i]].b.size(); ++k) {
          auto& b = f.c[full[i]].b[k];
          if (b.track != tn || (!started && !vet(b))) continue;
          started = true;
          want.push_back(Id(full[i], (int)k));
        }
      bool done = seg->DoneParsing();
      const BlockEntry* e = nullptr;
      long st = t->GetFirst(e);
      size_t k = 0;
      while (st == 0 && e && !e->EOS()) {
        Id g = id(e);
        CHECK(k < want.size() && g == want[k], "track %d, visit %zu: %s instead of %s, %d clusters loaded%s", tn, k, show(g).c_str(), k < want.size() ? show(want[k]).c_str() : "the end", loaded, ctx().c_str());
        CHECK(clu(e->GetCluster()) == g.first && e->GetIndex() == g.second, "track %d: %s reports cluster %d entry %ld", tn, show(g).c_str(), clu(e->GetCluster()), e->GetIndex());
        auto& b = blk(g);
        CHECK(e->GetBlock()->GetTime(e->GetCluster()) == b.t * U && e->GetBlock()->IsKey() == b.key && e->GetBlock()->GetTrackNumber() == tn, "track %d: contents of %s%s", tn, show(g).c_str(), ctx().c_str());
        ++k;
        const BlockEntry* nx = nullptr;
        st = t->GetNext(e, nx);
        e = nx;
        mc::tick();
      }
      CHECK(k == want.size(), "track %d: %zu blocks visited instead of %zu, %d clusters loaded%s", tn, k, want.size(), loaded, ctx().c_str());
      if (done) CHECK(st == 1 && e && e->EOS(), "track %d: status %ld at the end%s", tn, st, ctx().c_str());
      else CHECK(st == E_BUFFER_NOT_FULL || (st == 1 && e && e->EOS()), "track %d: status %ld before the end%s", tn, st, ctx().c_str());
      if (!sorted) continue;
      auto ts2 = times();
      ts2.push_back(-1);
      ts2.push_back(LLONG_MAX);
      for (ll q : ts2) {
        Id w = seek(tn, q);
        const BlockEntry* x = nullptr;
        long s = t->Seek(q, x);
        if (s == E_BUFFER_NOT_FULL && w == END && !done) continue;
        CHECK(s >= 0, "track %d: Seek(%lld) gives %ld%s", tn, q, s, ctx().c_str());
        CHECK(id(x) == w, "track %d: Seek(%lld) gives %s instead of %s, %d clusters loaded%s", tn, q, show(id(x)).c_str(), show(w).c_str(), loaded, ctx().c_str());
        mc::tick();
      }
      for (int i = 0; i < loaded; ++i) {
        const Cluster* c = seg->FindOrPreloadCluster(f.c[full[i]].off);
        CHECK(clu(c) == full[i] && c->GetIndex() == i, "cluster %d looked up by position: cluster %d with index %ld%s", full[i], clu(c), c ? c->GetIndex() : 0, ctx().c_str());
        for (ll q : ts2) {
          Id w = entry(full[i], tn, q), g = id(c->GetEntry(t, q));
          CHECK(g == w, "cluster %d, track %d: GetEntry(%lld) gives %s instead of %s%s", full[i], tn, q, show(g).c_str(), show(w).c_str(), ctx().c_str());
        }
      }
    }
    for (int i = 0; i < loaded; ++i) {
      const Cluster* c = seg->FindOrPreloadCluster(f.c[full[i]].off);
      auto& k = f.c[full[i]];
      CHECK(c && c->GetTime() == k.tc * U && c->GetFirstTime() == k.b.front().t * U && c->GetLastTime() == k.b.back().t * U, "cluster %d: time %lld, first %lld, last %lld%s", full[i], c->GetTime(), c->GetFirstTime(), c->GetLastTime(), ctx().c_str());
      const BlockEntry* e = nullptr;
      CHECK(c->GetLast(e) == 0 && id(e) == Id(full[i], (int)k.b.size() - 1), "cluster %d: last entry%s", full[i], ctx().c_str());
      const Cluster* nx = seg->GetNext(c);
      CHECK(clu(nx) == (i + 1 < loaded ? full[i + 1] : -1), "cluster after %d is %d%s", full[i], clu(nx), ctx().c_str());
    }
  }
  // The block a cue position names.
  Id cued(const Cue& q, int track) {
    auto& k = f.c[q.clu];
    int n = q.blkno ? q.blkno : 1;
    if (n > (int)k.b.size()) return NUL;
    if (k.b[n - 1].track == track && k.b[n - 1].t == q.t) return Id(q.clu, n - 1);
    for (size_t i = 0; i < k.b.size(); ++i) {
      auto& b = k.b[i];
      if (b.track != track || b.t < q.t) continue;
      if (b.t > q.t) return NUL;
      if (type_of(track) == 2 || (type_of(track) == 1 && b.key)) return Id(q.clu, (int)i);
      return NUL;
    }
    return NUL;
  }
  // Cue points loaded so far: n.  Looks everything up; follow: goes on from the block found.
  void cue_lookups(size_t n, bool follow) {
    const Cues* c = seg->GetCues();
    CHECK(c, "no cues%s", ctx().c_str());
    CHECK((size_t)c->GetCount() == n, "%ld cue points loaded instead of %zu%s", c->GetCount(), n, ctx().c_str());
    std::vector<const CuePoint*> pts;
    for (const CuePoint* p = c->GetFirst(); p; p = c->GetNext(p)) pts.push_back(p);
    CHECK(pts.size() == n, "%zu cue points visited instead of %zu%s", pts.size(), n, ctx().c_str());
    CHECK(c->GetLast() == (n ? pts.back() : nullptr), "last cue point%s", ctx().c_str());
    for (size_t i = 0; i < n; ++i) CHECK(pts[i]->GetTimeCode() == f.cues[i].t && pts[i]->GetTime(seg.get()) == f.cues[i].t * U, "cue point %zu: time %lld instead of %lld%s", i, pts[i]->GetTimeCode(), f.cues[i].t, ctx().c_str());
    bool in_order = true;
    for (size_t i = 1; i < n; ++i) in_order &= f.cues[i].t >= f.cues[i - 1].t;
    for (int tn = 1; tn <= f.ntracks; ++tn) {
      const Track* t = seg->GetTracks()->GetTrackByNumber(tn);
      for (ll q : times()) {
        if (!in_order) break;
        int w = n ? 0 : -1;
        for (size_t i = 0; i < n; ++i) if (f.cues[i].t * U <= q) w = (int)i;
        if (n && q <= f.cues[0].t * U) w = 0;
        bool ok = w >= 0 && (f.cues[w].track == tn || f.cues[w].second == tn);
        const CuePoint* cp = nullptr;
        const CuePoint::TrackPosition* tp = nullptr;
        bool got = c->Find(q, t, cp, tp);
        CHECK(got == ok, "Find(%lld) for track %d: %d, expected %d, %zu cue points%s", q, tn, got, ok, n, ctx().c_str());
        mc::tick();
        if (!got) continue;
        CHECK(cp == pts[w], "Find(%lld) for track %d: cue point at %lld instead of %lld%s", q, tn, cp->GetTimeCode(), f.cues[w].t, ctx().c_str());
        CHECK(tp->m_track == tn && tp->m_pos == f.c[f.cues[w].clu].off && tp->m_block == (f.cues[w].blkno ? f.cues[w].blkno : 1), "Find(%lld) for track %d: track %lld position %lld block %lld%s", q, tn, tp->m_track, tp->m_pos, tp->m_block, ctx().c_str());
      }
      for (size_t i = 0; i < n; ++i) {
        const CuePoint::TrackPosition* tp = pts[i]->Find(t);
        bool ok = f.cues[i].track == tn || f.cues[i].second == tn;
        CHECK((tp != nullptr) == ok, "cue point %zu: position for track %d%s", i, tn, ctx().c_str());
        if (!tp) continue;
        const BlockEntry* e = c->GetBlock(pts[i], tp);
        Id w = cued(f.cues[i], tn);
        CHECK(id(e) == w, "cue point %zu leads to %s instead of %s, %d clusters loaded%s", i, show(id(e)).c_str(), show(w).c_str(), loaded, ctx().c_str());
        if (!follow || w == NUL) continue;
        // from there on, every later block of the track in order
        std::vector<Id> want;
        bool pre = e->GetCluster()->GetIndex() < 0;
        for (int x = 0; x < (pre ? (int)full.size() : loaded); ++x)
          for (size_t y = 0; y < f.c[full[x]].b.size(); ++y) if (f.c[full[x]].b[y].track == tn && Id(full[x], (int)y) > w) want.push_back(Id(full[x], (int)y));
        size_t k = 0;
        long st = 0;
        while (true) {
          const BlockEntry* nx = nullptr;
          st = t->GetNext(e, nx);
          if (st || !nx || nx->EOS()) break;
          CHECK(k < want.size() && id(nx) == want[k], "after cue point %zu, visit %zu: %s%s", i, k, show(id(nx)).c_str(), ctx().c_str());
          ++k;
          e = nx;
        }
        CHECK(k == want.size(), "after cue point %zu: %zu blocks of track %d instead of %zu, %d clusters loaded%s", i, k, tn, want.size(), loaded, ctx().c_str());
      }
    }
  }
  void everything() { clusters_by_time(); tracks(); mc::state(); }
};
// clusters: number; blocks per cluster at most mb; times
bool pick_layout(mc::Chooser& c, File* f, int nc, int mb, bool third, const std::vector<ll>& rels, const std::vector<ll>& steps) {
  ll tc = 2;
  for (int i = 0; i < nc; ++i) {
    Clu k;
    if (i) tc += steps[c.pick((int)steps.size())];
    k.tc = tc;
    int n = c.pick(mb + 1);
    for (int j = 0; j < n; ++j) {
      Blk b;
      int kind = c.pick(third ? 4 : 3);   // key video, other video, audio, captions
      b.track = kind < 2 ? 1 : kind;
      b.key = kind != 1;
      b.rel = rels[c.pick((int)rels.size())];
      b.t = tc + b.rel;
      b.no = j + 1;
      if (!k.b.empty())
        for (auto& o : k.b) if (o.track == b.track && o.t > b.t) return false;
      k.b.push_back(b);
    }
    for (auto& o : f->c) for (auto& x : o.b) for (auto& b : k.b) if (x.track == b.track && x.t > b.t) return false;
    f->c.push_back(k);
    if (i == 1 && !c.mine()) return false;
  }
  if (third) f->ntracks = 3;
  return true;
}
std::string describe(const File& f) {
  std::string s;
  for (auto& k : f.c) {
    s += strf("[%lld%s:", k.tc, k.unknown ? "?" : "");
    for (auto& b : k.b) s += strf(" %s%+lld", b.track == 1 ? (b.key ? "V" : "v") : b.track == 2 ? "a" : "s", b.rel);
    s += "]";
  }
  for (auto& q : f.cues) s += strf(" cue %lld->%d.%d/%d", q.t, q.clu, q.blkno, q.track);
  return s;
}
}  // namespace

// All small layouts of clusters and blocks; every number of clusters loaded.
SPACE(C26, seek) {
  auto f = std::make_shared<File>();
  int nc = 1 + c.pick(3);
  if (!pick_layout(c, f.get(), nc, R.thorough ? 3 : 2, false, R.thorough && nc < 3 ? std::vector<ll>{-1, 0, 1, 2} : std::vector<ll>{-1, 0, 2}, nc == 3 && !R.thorough ? std::vector<ll>{0, 1, 3} : std::vector<ll>{0, 1, 2, 3})) return nullptr;
  if (nc == 1 && !c.mine()) return nullptr;
  return [f]() {
    R.desc = describe(*f);
    f->build();
    mc::outcome(mc::hstr(f->bytes));
    Check k(*f);
    k.open();
    for (int n = 0; n <= (int)k.full.size(); ++n) { k.load(n); k.everything(); }
    k.load(INT_MAX);
    k.everything();
  };
}
// The same with cues: every choice of cued blocks, visited through the cues before, between and after loading.
SPACE(C26, cues) {
  auto f = std::make_shared<File>();
  int nc = 1 + c.pick(R.thorough ? 3 : 2);
  f->place = 1 + c.pick(2);
  bool num = c.flag();
  int unk = c.pick(2);
  if (!pick_layout(c, f.get(), nc, 2, true, {0, 1}, {1, 2})) return nullptr;
  if (unk) f->c.back().unknown = true;
  std::vector<Cue> all;
  for (size_t i = 0; i < f->c.size(); ++i)
    for (auto& b : f->c[i].b) if (b.track != 1 || b.key || num) all.push_back(Cue{b.t, b.track, (int)i, num ? b.no : 0});
  if (all.empty()) return nullptr;
  int set = 1 + c.pick((1 << all.size()) - 1);
  if (!c.mine()) return nullptr;
  for (size_t i = 0; i < all.size(); ++i) if (set >> i & 1) f->cues.push_back(all[i]);
  std::stable_sort(f->cues.begin(), f->cues.end(), [](const Cue& a, const Cue& b) { return a.t < b.t; });
  return [f]() {
    R.desc = describe(*f) + (f->place == 2 ? " cues first" : "");
    f->build();
    mc::outcome(mc::hstr(f->bytes));
    Check probe(*f);
    int n = (int)probe.full.size();
    for (int before = 0; before <= n; ++before)       // clusters loaded when the cues are followed
      for (int part = 0; part < 2; ++part) {
        Check k(*f);
        k.open();
        if (f->place == 1) { ll p; long l; CHECK(k.seg->ParseCues((ll)f->bytes.rfind("\x1c\x53\xbb\x6b") - k.seg->m_start, p, l) == 0, "ParseCues%s", k.ctx().c_str()); }
        k.load(before);
        const Cues* cu = k.seg->GetCues();
        CHECK(cu, "no cues%s", k.ctx().c_str());
        size_t got = 0;
        while (!cu->DoneParsing()) {
          if (cu->LoadCuePoint()) ++got;
          if (part) k.cue_lookups(got, true);
        }
        CHECK(got == f->cues.size(), "%zu cue points instead of %zu%s", got, f->cues.size(), k.ctx().c_str());
        k.cue_lookups(got, true);
        k.everything();
        for (int m = before + 1; m <= n; ++m) { k.load(m); k.cue_lookups(got, m == n || part); k.everything(); }
        k.load(INT_MAX);
        k.cue_lookups(got, true);
        k.everything();
      }
  };
}
// A track whose blocks lie far apart: any number of clusters of the other track before, between and after them.
SPACE(C26, gaps) {
  static const int G[] = {0, 1, 15, 16, 63, 64, 98, 99, 100, 101, 102, 130, 255, 256, 300};
  int lead = G[c.pick(15)], mid = G[c.pick(15)], tn = 1 + c.pick(2), tail = c.pick(2);
  if (!c.mine()) return nullptr;
  return [=]() {
    R.desc = strf("track %d: %d clusters without it, a block, %d clusters without it, a block%s", tn, lead, mid, tail ? ", a cluster without it" : "");
    File f;
    int n = lead + mid + 2 + tail;
    for (int i = 0; i < n; ++i) {
      Clu k;
      k.tc = 2 + 3 * i;
      bool both = i == lead || i == lead + mid + 1;
      Blk b;
      b.track = 3 - tn;
      b.rel = 0;
      b.key = i % 3 == 0 || b.track == 2;
      k.b.push_back(b);
      if (both) { b.track = tn; b.rel = 1; b.key = true; k.b.push_back(b); }
      f.c.push_back(k);
    }
    f.build();
    mc::outcome(mc::hstr(f.bytes));
    Check k(f);
    k.open();
    k.load(n / 2);
    k.everything();
    k.load(INT_MAX);
    k.everything();
  };
}
// Tables that have to grow: many clusters, blocks and cue points.
SPACE(C26, many) {
  static const int N[] = {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4100};
  int kind = c.pick(3), n = N[c.pick(R.thorough ? 10 : 8)], pre = c.pick(3);
  return [=]() {
    R.desc = strf("%d %s, %s", n, kind == 0 ? "clusters" : kind == 1 ? "blocks in a cluster" : "cue points", pre == 0 ? "loaded in order" : pre == 1 ? "cues followed before loading" : "cues followed half way");
    File f;
    int clusters = kind == 1 ? 2 : kind == 0 ? n : 3;
    for (int i = 0; i < clusters; ++i) {
      Clu k;
      k.tc = 2 + 3 * (ll)i * (kind == 0 ? 1 : 5000);
      int nb = kind == 0 ? 1 + i % 2 : kind == 1 ? n : (n + 2) / 3;
      for (int j = 0; j < nb; ++j) {
        Blk b;
        b.track = 1 + (i + j) % 2;
        b.rel = j;
        b.key = (i + j / 2) % 3 != 1 || b.track == 2;
        k.b.push_back(b);
      }
      f.c.push_back(k);
    }
    f.build();
    f.place = 2;
    for (size_t i = 0; i < f.c.size(); ++i)
      for (auto& b : f.c[i].b) {
        if (kind == 2 ? (int)f.cues.size() < n : (b.no == 1 && i % 7 == 3)) f.cues.push_back(Cue{b.t, b.track, (int)i, b.no});
      }
    f.build();
    mc::outcome(mc::hstr(f.bytes));
    Check k(f);
    k.open();
    const Cues* cu = k.seg->GetCues();
    if (pre == 1 && cu) while (!cu->DoneParsing()) cu->LoadCuePoint();
    auto sparse = [&]() {
      // positions, order, and lookups around the growth points
      const Cluster* c = k.seg->GetFirst();
      int i = 0;
      for (; c && !c->EOS(); c = k.seg->GetNext(c), ++i) {
        CHECK(k.clu(c) == k.full[i] || kind == 0, "cluster %d", i);
        CHECK(c->GetPosition() == f.c[k.full[i]].off && c->GetIndex() == i && c->GetTime() == f.c[k.full[i]].tc * U, "cluster %d is at %lld with index %ld", i, c->GetPosition(), c->GetIndex());
      }
      CHECK(i == k.loaded, "%d clusters visited instead of %d", i, k.loaded);
      for (int tn = 1; tn <= 2; ++tn) {
        const Track* t = k.seg->GetTracks()->GetTrackByNumber(tn);
        std::vector<Id> want;
        bool started = false;
        for (int x = 0; x < k.loaded; ++x)
          for (size_t y = 0; y < f.c[x].b.size(); ++y) {
            auto& b = f.c[x].b[y];
            if (b.track != tn || (!started && !k.vet(b))) continue;
            started = true;
            want.push_back(Id(x, (int)y));
          }
        const BlockEntry* e = nullptr;
        long st = t->GetFirst(e);
        size_t q = 0;
        while (st == 0 && e && !e->EOS()) {
          CHECK(q < want.size() && k.id(e) == want[q], "track %d, visit %zu: %s", tn, q, show(k.id(e)).c_str());
          ++q;
          const BlockEntry* nx = nullptr;
          st = t->GetNext(e, nx);
          e = nx;
        }
        CHECK(q == want.size(), "track %d: %zu blocks instead of %zu", tn, q, want.size());
        for (int x : {0, 1, k.loaded / 2, k.loaded - 2, k.loaded - 1}) {
          if (x < 0 || x >= k.loaded) continue;
          for (int y : {0, (int)f.c[x].b.size() / 2, (int)f.c[x].b.size() - 1})
            for (ll d : {-1, 0, 1}) {
              ll at = f.c[x].b[y].t * U + d;
              const BlockEntry* z = nullptr;
              CHECK(t->Seek(at, z) >= 0 && k.id(z) == k.seek(tn, at), "track %d: Seek(%lld) gives %s instead of %s", tn, at, show(k.id(z)).c_str(), show(k.seek(tn, at)).c_str());
              mc::tick();
            }
        }
      }
    };
    auto follow = [&]() {
      if (!cu) return;
      while (!cu->DoneParsing()) cu->LoadCuePoint();
      CHECK((size_t)cu->GetCount() == f.cues.size(), "%ld cue points instead of %zu", cu->GetCount(), f.cues.size());
      size_t i = 0;
      for (const CuePoint* p = cu->GetFirst(); p; p = cu->GetNext(p), ++i) {
        const Cue& q = f.cues[i];
        const Track* t = k.seg->GetTracks()->GetTrackByNumber(q.track);
        const CuePoint::TrackPosition* tp = p->Find(t);
        CHECK(p->GetTimeCode() == q.t && tp && tp->m_pos == f.c[q.clu].off, "cue point %zu", i);
        CHECK(k.id(cu->GetBlock(p, tp)) == Id(q.clu, q.blkno - 1), "cue point %zu leads to %s", i, show(k.id(cu->GetBlock(p, tp))).c_str());
        const CuePoint* cp = nullptr;
        const CuePoint::TrackPosition* tq = nullptr;
        CHECK(cu->Find(q.t * U, t, cp, tq) && cp == p, "Find of cue point %zu", i);
      }
      CHECK(i == f.cues.size(), "%zu cue points visited", i);
    };
    if (pre == 1) follow();
    if (pre == 2) { k.load((int)k.full.size() / 2); follow(); sparse(); }
    k.load(INT_MAX);
    sparse();
    follow();
    mc::state();
  };
}
