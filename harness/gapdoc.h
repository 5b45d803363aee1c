// Documents with one element of several gigabytes: a small twin and how positions and sizes differ from it.
#ifndef VERIF_GAPDOC_H_
#define VERIF_GAPDOC_H_
#include <functional>
#include "ebml.h"
namespace gd {
using eb::Bytes;
using eb::El;
typedef unsigned long long ull;
struct Gap {
  Bytes small, head, tail;     // twin; bytes before and after the long run of zeros
  uint64_t at = 0, run = 0;    // the run starts at `at`; 8 bytes in the twin, `run` in the large document
  std::string desc;
  uint64_t delta() const { return run - 8; }
  uint64_t total() const { return head.size() + run + tail.size(); }
  uint64_t pos(uint64_t p) const { return p > at ? p + delta() : p; }
  uint64_t size(uint64_t p, uint64_t end, uint64_t n) const { return p <= at && end >= at + 8 ? n + delta() : n; }
  void get(uint64_t p, size_t n, uint8_t* out) const {
    for (size_t i = 0; i < n;) {
      uint64_t q = p + i;
      if (q < head.size()) out[i++] = (uint8_t)head[q];
      else if (q < head.size() + run) { size_t k = (size_t)std::min<uint64_t>(n - i, head.size() + run - q); memset(out + i, 0, k); i += k; }
      else out[i++] = (uint8_t)tail[q - head.size() - run];
    }
  }
};
enum { BEFORE, FOREIGN, BLOCK, INCLUSTER, BETWEEN, ATTACH, ININFO, INTRACKS, NKINDS };
inline Gap make(int kind, bool useg, bool uclu, uint64_t run) {
  static const char* name[] = {"padding before the clusters", "unknown element before the clusters", "a block", "padding in a cluster", "padding between clusters", "attachments between clusters", "padding in Info", "unknown element in Tracks"};
  Gap g;
  g.run = run;
  g.desc = mc::strf("%s of %llu bytes, segment size %s, cluster sizes %s", name[kind], (ull)run, useg ? "unknown" : "known", uclu ? "unknown" : "known");
  const Bytes mark("\x11GAPGAP\x11", 8);
  auto blk = [](int rel, const char* s) { return eb::es(eb::SimpleBlock, eb::enc_block(1, (int16_t)rel, 0x80, 0, {s})); };
  El info(eb::Info, {eb::eu(eb::TimecodeScale, 1000000), eb::es(eb::MuxingApp, "m"), eb::es(eb::WritingApp, "w")});
  if (kind == ININFO) info.add(eb::es(eb::Void, mark));
  El tracks(eb::Tracks, {El(eb::TrackEntry, {eb::eu(eb::TrackNumber, 1), eb::eu(eb::TrackUID, 9), eb::eu(eb::TrackType, 1), eb::es(eb::CodecID, "V_VP8"), El(eb::Video, {eb::eu(eb::PixelWidth, 8), eb::eu(eb::PixelHeight, 8)})})});
  if (kind == INTRACKS) tracks.kids[0].add(eb::es(0x4DBA, mark));
  El a(eb::Cluster, {eb::eu(eb::Timecode, 0), blk(0, "aa")});
  if (kind == BLOCK) a.add(eb::es(eb::SimpleBlock, Bytes("\x81\x00\x01\x00", 4) + mark));
  if (kind == INCLUSTER) a.add(eb::es(eb::Void, mark));
  a.add(blk(2, "a2"));
  El b(eb::Cluster, {eb::eu(eb::Timecode, 100), blk(0, "bb"), El(eb::BlockGroup, {eb::es(eb::Block, eb::enc_block(1, 5, 0, 0, {"cc"}))})});
  a.unknown = b.unknown = uclu;
  auto cue = [](int t) { return El(eb::CuePoint, {eb::eu(eb::CueTime, (uint64_t)t), El(eb::CueTrackPositions, {eb::eu(eb::CueTrack, 1), eb::eu(eb::CueClusterPosition, 0, 8)})}); };
  El seg(eb::Segment, {El(eb::SeekHead, {El(eb::Seek, {eb::es(eb::SeekID, Bytes("\x1C\x53\xBB\x6B", 4)), eb::eu(eb::SeekPosition, 0, 8)})}), info, tracks});
  if (kind == BEFORE) seg.add(eb::es(eb::Void, mark));
  if (kind == FOREIGN) seg.add(eb::es(0x4DBA, mark));
  seg.add(a);
  if (kind == BETWEEN) seg.add(eb::es(eb::Void, mark));
  if (kind == ATTACH) seg.add(eb::es(0x1941A469, mark));
  seg.add(b);
  seg.add(El(eb::Cues, {cue(0), cue(100)}));
  seg.unknown = useg;
  std::function<void(El&)> wide = [&](El& e) { e.size_len = 8; for (auto& k : e.kids) wide(k); };
  El h(eb::EBML, {eb::es(eb::DocType, "webm")});
  wide(seg);
  g.small = h.enc() + seg.enc();
  Bytes large = g.small;
  g.at = g.small.find(mark);
  eb::Node root;
  eb::foreign_ok = true;
  std::string why = eb::read_doc(g.small, &root, false);
  if (!why.empty() || g.at == Bytes::npos) { fprintf(stderr, "gap document: %s\n", why.c_str()); abort(); }
  // foreign elements are not in the tree: find the size field right before the run
  auto grow = [&](uint64_t body) { Bytes s = eb::enc_size(g.delta() + (uint64_t)eb::dec_uint(large.substr(body - 7, 7)), 8); large.replace(body - 8, 8, s); };
  if (kind == BLOCK) grow(g.at - 4); else grow(g.at);
  const eb::Node& sg = *root.find(eb::Segment);
  std::vector<uint64_t> clu;
  uint64_t cues = 0;
  std::function<void(const eb::Node&)> fix = [&](const eb::Node& n) {
    if (n.id == eb::Cluster) clu.push_back(n.pos);
    if (n.id == eb::Cues) cues = n.pos;
    bool master = n.id == eb::Segment || n.id == eb::Info || n.id == eb::Tracks || n.id == eb::TrackEntry || n.id == eb::Cluster;
    if (master && !n.unknown && n.pos < g.at && n.end() >= g.at + 8) grow(n.body());
    for (auto& k : n.kids) fix(k);
  };
  fix(sg);
  int ci = 0;
  auto put = [&](uint64_t body, uint64_t target) {
    g.small.replace(body, 8, eb::enc_uint(target - sg.body(), 8));
    large.replace(body, 8, eb::enc_uint(g.pos(target) - sg.body(), 8));
  };
  std::function<void(const eb::Node&)> point = [&](const eb::Node& n) {
    if (n.id == eb::SeekPosition) put(n.body(), cues);
    if (n.id == eb::CueClusterPosition) put(n.body(), clu[ci++]);
    for (auto& k : n.kids) point(k);
  };
  point(sg);
  g.small.replace(g.at, 8, Bytes(8, 0));
  g.head = large.substr(0, g.at);
  g.tail = large.substr(g.at + 8);
  return g;
}
const uint64_t kRuns[] = {8, 9, 0x7ffffff0ull, 0x80000000ull, 0xfffffff7ull, 0x100000000ull, 0x100000009ull, 0x200000123ull, 0x8000000000ull, 0x40000000000000ull};
inline Gap pick(mc::Chooser& c) {
  int k = c.pick(NKINDS);
  bool us = c.flag(), uc = c.flag();
  uint64_t run = kRuns[c.pick(10)];
  if ((k == FOREIGN && us) || (k == ATTACH && (us || uc))) return Gap();   // would end what has no size
  return make(k, us, uc, run);
}
}  // namespace gd
#endif
