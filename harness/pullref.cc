// What a document means, from the specification; in the form of the pull parser walker's log.
#include <cmath>
#include <set>
#include "pulllib.h"
using mc::strf;
typedef unsigned long long ull;
typedef long long ll;
namespace pl {
namespace {
std::string bin(const void* p, size_t n) { return strf("%zu:", n) + mc::hex(p, n, 100000); }
std::string fl(double d) { return strf("%.9g", d); }
}  // namespace
// ---------------------------------------------------------------- reference
namespace {
typedef const eb::Node N;
using namespace eb;
std::string str0(const Bytes& d) {   // strings end at the first terminating zero
  return "\"" + std::string(d.c_str()) + "\"";
}
struct E {
  std::string log, why;
  void line(const std::string& l) { log += l; log += '\n'; }
  void no(const std::string& w) { if (why.empty()) why = w; }
  std::string st(N* n, uint32_t id) { auto k = n->find(id); return k ? str0(k->data) : "-"; }
  ull u(N* n, uint32_t id, ull dflt) {
    auto k = n->find(id);
    if (!k) return dflt;
    if (k->data.empty()) no("zero-length number");
    ull v = k->u();
    if (v >> 63) no("integer of 2^63 or more");
    return v;
  }
  void x_inf() { no("infinite value"); }
  double f(N* n, uint32_t id, double dflt) {
    auto k = n->find(id);
    if (!k) return dflt;
    if (k->data.empty()) no("zero-length number");
    if (std::isinf(k->f())) x_inf();
    return k->f();
  }
  std::string bn(N* n, uint32_t id) { auto k = n->find(id); return k ? bin(k->data.data(), k->data.size()) : "0:"; }
};
}  // namespace
std::string expect(const eb::Node& root, const Bytes& b, std::string* why) {
  E x;
  const eb::Node* h = nullptr;
  const eb::Node* seg = nullptr;
  for (auto& k : root.kids) {
    if (k.id == EBML && !h) h = &k;
    else if (k.id == EBML && h && !seg) x.no("second header");
    if (k.id == Segment && !seg) seg = &k;
  }
  if (!h || !seg) { *why = "no header or segment"; return ""; }
  bool further = &root.kids.back() != seg;
  int nseg = 0;
  for (auto& k : root.kids) if (k.id == Segment && ++nseg == 2 && seg->unknown) x.no("a further segment and unknown sizes");
  if (&root.kids[0] != h) x.no("bytes before the header");
  for (auto& k : h->kids) if (k.id == EBMLMaxIDLength && k.u() < 4) x.no("maximum ID length");
  if (!h->find(DocType)) x.no("no document type");
  ull ver = x.u(h, EBMLVersion, 1), rv = x.u(h, EBMLReadVersion, 1), mi = x.u(h, EBMLMaxIDLength, 4), ms = x.u(h, EBMLMaxSizeLength, 8),
      dv = x.u(h, DocTypeVersion, 1), dr = x.u(h, DocTypeReadVersion, 1);
  if (ver == 0 || rv == 0 || mi == 0 || mi > 4 || ms == 0 || ms > 8 || dv == 0 || dr == 0) x.no("header values");
  x.line(strf("ebml %llu %llu %llu %llu %s %llu %llu end %llu", ver, rv, mi, ms, x.st(h, DocType).c_str(), dv, dr, (ull)h->end()));
  x.line(strf("segment start %llu size %lld", (ull)seg->body(), seg->unknown ? -1ll : (ll)seg->size));
  // headers: what precedes the first cluster
  std::vector<N*> pre;
  bool any_cluster = false;
  for (auto& k : seg->kids) {
    if (k.id == Cluster) { any_cluster = true; break; }
    pre.push_back(&k);
  }
  auto first = [&](uint32_t id) -> N* { for (auto k : pre) if (k->id == id) return k; return nullptr; };
  for (auto k : pre) if (k->unknown) x.no("unknown size of an element other than segment and cluster");
  N* info = first(Info);
  N* tr = first(Tracks);
  if (!info || !tr) { x.no("no info or tracks before the first cluster"); *why = x.why; return ""; }
  ll scale = (ll)x.u(info, TimecodeScale, 1000000);
  if (scale <= 0) { x.no("timecode scale"); scale = 1; }
  double dur = x.f(info, Duration, -1);
  if (info->find(Duration) && !(dur >= 0)) x.no("duration");
  if (dur * (double)scale > 9e18) x.no("duration");
  x.line(strf("info scale %lld duration %lld %s %s %s", scale, dur < 0 || !x.why.empty() ? -1ll : (ll)(dur * (double)scale), x.st(info, MuxingApp).c_str(),
              x.st(info, WritingApp).c_str(), x.st(info, Title).c_str()));
  if (N* sh = first(SeekHead)) {
    for (auto& k : sh->kids) if (k.id == Seek) {
      auto id = k.find(SeekID);
      auto ps = k.find(SeekPosition);
      if (!id || !ps) { x.no("seek"); continue; }
      if (id->data.empty() || id->data.size() > 4 || dec_uint(id->data) == 0) { x.no("seek id"); continue; }
      x.line(strf("seek %llx pos %llu at %llu+%llu", (ull)dec_uint(id->data), x.u(&k, SeekPosition, 0), (ull)k.pos, (ull)(k.hdr + k.size)));
    }
    for (auto& k : sh->kids) if (k.id == Void) x.line(strf("seek void at %llu+%llu", (ull)k.pos, (ull)(k.hdr + k.size)));
  }
  std::set<ull> nums;
  std::vector<ull> order;
  for (auto t : tr->all(TrackEntry)) {
    ull num = x.u(t, TrackNumber, 0), type = x.u(t, TrackType, 0);
    if (num < 1 || num > 127) x.no("track number");
    if (!nums.insert(num).second) x.no("track number twice");
    order.push_back(num);
    if (type < 1 || type > 254) x.no("track type");
    N* v = t->find(Video);
    N* a = t->find(Audio);
    if ((type == 1) != (v != nullptr) || (type == 2) != (a != nullptr)) x.no("track type and settings");
    ull lac = x.u(t, FlagLacing, 1);
    if (lac > 1) x.no("lacing flag");
    auto cp = t->find(CodecPrivate);
    auto uid = t->find(TrackUID);
    x.line(strf("track %llu at %llu+%llu type %llu uid %llu name %s lang %s codec %s codecname %s private %s lacing %llu dd %llu delay %llu preroll %llu", num,
                (ull)t->pos, (ull)(t->hdr + t->size), type, uid ? (ull)uid->u() : 0, x.st(t, Name).c_str(), x.st(t, Language).c_str(), x.st(t, CodecID).c_str(),
                x.st(t, CodecName).c_str(), cp && cp->data.size() ? x.bn(t, CodecPrivate).c_str() : "-", lac, x.u(t, DefaultDuration, 0),
                x.u(t, CodecDelay, 0), x.u(t, SeekPreRoll, 0)));
    if (v) {
      if (x.u(v, PixelWidth, 0) == 0 || x.u(v, PixelHeight, 0) == 0 || x.u(v, DisplayWidth, 1) == 0 || x.u(v, DisplayHeight, 1) == 0) x.no("size");
      if (!(x.f(v, FrameRate, 1) > 0)) x.no("frame rate");
      x.line(strf("  video %llu x %llu display %llu x %llu unit %llu stereo %llu rate %s space %s", x.u(v, PixelWidth, 0), x.u(v, PixelHeight, 0),
                  x.u(v, DisplayWidth, x.u(v, PixelWidth, 0)), x.u(v, DisplayHeight, x.u(v, PixelHeight, 0)), x.u(v, DisplayUnit, 0), x.u(v, StereoMode, 0), fl(x.f(v, FrameRate, 0)).c_str(),
                  x.st(v, ColourSpace).c_str()));
      if (N* c = v->find(Colour)) {
        std::string l = "  colour";
        for (uint32_t id : {MatrixCoefficients, BitsPerChannel, ChromaSubsamplingHorz, ChromaSubsamplingVert, CbSubsamplingHorz, CbSubsamplingVert,
                            ChromaSitingHorz, ChromaSitingVert, Range, TransferCharacteristics, Primaries, MaxCLL, MaxFALL}) {
          if (!c->find(id)) l += " -";
          else {
            ull q = x.u(c, id, 0);
            if (q == (ull)mkvparser::Colour::kValueNotPresent) x.no("the value that stands for absent");
            l += strf(" %llu", q);
          }
        }
        x.line(l);
        if (N* mm = c->find(MasteringMetadata)) {
          std::string l = "  mastering";
          const uint32_t ids[4][2] = {{PrimaryRChromaticityX, PrimaryRChromaticityY},
                                      {PrimaryGChromaticityX, PrimaryGChromaticityY},
                                      {PrimaryBChromaticityX, PrimaryBChromaticityY},
                                      {WhitePointChromaticityX, WhitePointChromaticityY}};
          for (auto& p : ids) {
            if (!mm->find(p[0]) && !mm->find(p[1])) { l += " -"; continue; }
            double vx = x.f(mm, p[0], 0), vy = x.f(mm, p[1], 0);
            if (!(vx >= 0 && vx <= 1 && vy >= 0 && vy <= 1)) x.no("chromaticity");
            l += " " + fl((float)vx) + "," + fl((float)vy);
          }
          double mx = x.f(mm, LuminanceMax, 1), mn = x.f(mm, LuminanceMin, 1);
          if (!(mx >= 0 && mx <= 9999.99f) || !(mn >= 0 && mn <= 999.9999f)) x.no("luminance");
          l += mm->find(LuminanceMax) ? " " + fl((float)mx) : " -";
          l += mm->find(LuminanceMin) ? " " + fl((float)mn) : " -";
          x.line(l);
        }
      }
      if (N* p = v->find(Projection)) {
        ull ty = x.u(p, ProjectionType, 0);
        if (!p->find(ProjectionType)) x.no("projection without a type");
        if (ty > 3) x.no("projection type");
        std::string l = strf("  projection %llu ", ty) + x.bn(p, ProjectionPrivate);
        for (uint32_t id : {ProjectionPoseYaw, ProjectionPosePitch, ProjectionPoseRoll}) {
          double q = x.f(p, id, 0);
          if (std::isinf((float)q) || std::isnan(q) || std::fabs(q) > 1e30) x.no("pose");
          l += p->find(id) ? " " + fl((float)q) : " -";
        }
        x.line(l);
      }
    }
    if (a) {
      double rate = x.f(a, SamplingFrequency, 8000);
      ull ch = x.u(a, Channels, 1);
      if (!(rate > 0) || ch == 0 || (a->find(BitDepth) && x.u(a, BitDepth, 0) == 0)) x.no("audio settings");
      x.line(strf("  audio %s ch %llu depth %llu", fl(rate).c_str(), ch, x.u(a, BitDepth, 0)));
    }
    if (N* ce = t->find(ContentEncodings)) {
      for (auto e : ce->all(ContentEncoding)) {
        ull ty = x.u(e, ContentEncodingType, 0);
        x.line(strf("  encoding order %llu scope %llu type %llu", x.u(e, ContentEncodingOrder, 0), x.u(e, ContentEncodingScope, 1), ty));
        if (x.u(e, ContentEncodingScope, 1) < 1 || ty > 1) x.no("content encoding");
        for (auto c : e->all(ContentCompression)) x.line(strf("   compression %llu ", x.u(c, ContentCompAlgo, 0)) + x.bn(c, ContentCompSettings));
        for (auto c : e->all(ContentEncryption)) {
          auto aes = c->find(ContentEncAESSettings);
          if (x.u(c, ContentEncAlgo, 0) != 5) x.no("encryption algorithm");
          if (aes && x.u(aes, AESSettingsCipherMode, 1) != 1) x.no("cipher mode");
          x.line(strf("   encryption %llu key %s sig %s sigkey %s sigalgo %llu hash %llu mode %llu", x.u(c, ContentEncAlgo, 0), x.bn(c, ContentEncKeyID).c_str(),
                      x.bn(c, ContentSignature).c_str(), x.bn(c, ContentSigKeyID).c_str(), x.u(c, ContentSigAlgo, 0), x.u(c, ContentSigHashAlgo, 0),
                      aes ? x.u(aes, AESSettingsCipherMode, 1) : 1ull));
          for (uint32_t id : {ContentEncKeyID, ContentSignature, ContentSigKeyID}) { auto k = c->find(id); if (k && k->data.empty()) x.no("empty key"); }
        }
        for (auto c : e->all(ContentCompression)) { auto k = c->find(ContentCompSettings); if (k && k->data.empty()) x.no("empty compression settings"); }
        if (ty == 1 && !e->find(ContentEncryption)) x.no("content encoding");
        if (ty == 0 && !e->find(ContentCompression)) x.no("content encoding");
      }
    }
  }
  if (N* c = first(Chapters)) {
    x.line("chapters");
    for (auto e : c->all(EditionEntry)) {
      x.line(" edition");
      if (!e->find(ChapterAtom)) x.no("edition without chapters");
      for (auto a : e->all(ChapterAtom)) {
        if (a->find(ChapterAtom)) x.no("nested chapters");
        ll t0 = (ll)x.u(a, ChapterTimeStart, 0), t1 = a->find(ChapterTimeEnd) ? (ll)x.u(a, ChapterTimeEnd, 0) : -1;
        if (!a->find(ChapterTimeStart)) x.no("chapter without a start time");
        auto uid = a->find(ChapterUID);
        auto ns = [&](ll tc) {
          if (tc < 0) return -1ll;
          if (__builtin_mul_overflow(tc, scale, &tc)) x.no("time overflow");
          return tc;
        };
        x.line(strf("  atom %llu %s %lld-%lld ns %lld-%lld", uid ? (ull)uid->u() : 0ull, x.st(a, ChapterStringUID).c_str(), t0, t1, ns(t0), ns(t1)));
        for (auto d : a->all(ChapterDisplay)) {
          if (!d->find(ChapString)) x.no("chapter title without a string");
          if (d->all(ChapLanguage).size() > 1 || d->all(ChapCountry).size() > 1) x.no("several languages of a chapter title");
          x.line("   display " + x.st(d, ChapString) + " " + x.st(d, ChapLanguage) + " " + x.st(d, ChapCountry));
        }
      }
    }
  }
  if (N* t = first(Tags)) {
    x.line("tags");
    for (auto g : t->all(Tag)) {
      x.line(" tag");
      if (g->kids.empty()) x.no("empty tag");
      for (auto k : g->all(SimpleTag)) {
        if (k->find(SimpleTag)) x.no("nested tags");
        x.line("  simple " + x.st(k, TagName) + " " + x.st(k, TagString));
      }
    }
  }
  (void)any_cluster;
  for (auto& c : seg->kids) {
    if (c.id != Cluster) continue;
    N* tcn = c.find(Timecode);
    ll tc = (ll)x.u(&c, Timecode, 0);
    if (!tcn) x.no("cluster without a timecode");
    bool any = false;
    for (auto& k : c.kids) {
      any = any || k.id == SimpleBlock || k.id == BlockGroup;
      if (k.id == BlockGroup && !k.find(Block)) x.no("block group without a block");
    }
    if (!any) continue;   // clusters without blocks are passed over
    ll ns;
    if (__builtin_mul_overflow(tc, scale, &ns)) x.no("time overflow");
    x.line(strf(" cluster at %llu", (ull)(c.pos - seg->body())));
    x.line(strf("  timecode %lld ns %lld", tc, ns));
    int i = 0;
    bool seen_tc = false;
    for (auto& k : c.kids) {
      if (k.id == Timecode) seen_tc = true;
      N* bn = nullptr;
      if (k.id == SimpleBlock) bn = &k;
      else if (k.id == BlockGroup) bn = k.find(Block);
      if (!bn) continue;
      if (!seen_tc) x.no("block before the timecode of its cluster");
      BlockData d;
      std::string e = read_block(bn->data, &d);
      if (!e.empty()) { x.no("block: " + e); continue; }
      if (d.track < 1) x.no("track number");
      ll bt = tc + d.rel, bns;
      if (bt < 0 || __builtin_mul_overflow(bt, scale, &bns)) { x.no("negative or overflowing time"); bns = -1; }
      bool grp = k.id == BlockGroup;
      bool key = grp ? !k.find(ReferenceBlock) : (d.flags & 0x80) != 0;
      auto dp = grp ? k.find(DiscardPadding) : nullptr;
      if (dp && dp->data.empty()) x.no("zero-length number");
      static const int lace_kind[] = {0, 1, 2, 3};
      std::string l = strf("  block #%d kind %d track %llu tc %lld ns %lld key %d inv %d lacing %d pad %lld", i++, grp ? 2 : 1, (ull)d.track, bt, bns, key,
                           (d.flags >> 3) & 1, lace_kind[d.lacing], dp ? (ll)dp->i() : 0ll);
      if (grp) {
        // the earliest reference back and the latest one forward are not told apart further
        ll prev = 0, next = 0;
        for (auto r : k.all(ReferenceBlock)) {
          if (r->data.empty()) x.no("zero-length number");
          if (r->i() > 0) next = r->i();
          else prev = r->i();
          if (r->i() == 0) x.no("reference to itself");
        }
        if (k.all(ReferenceBlock).size() > 2) x.no("many references");
        l += strf(" prev %lld next %lld dur %lld", prev, next, k.find(BlockDuration) ? (ll)x.u(&k, BlockDuration, 0) : -1ll);
      }
      x.line(l);
      for (size_t q = 0; q < d.frames.size(); ++q) {
        if (d.frames[q].empty()) x.no("empty frame");
        x.line(strf("   frame %llu ", (ull)(bn->body() + d.frame_off[q])) + bin(d.frames[q].data(), d.frames[q].size()));
      }
    }
    if (seg->unknown && &c == &seg->kids.back() && further) x.no("further elements after a segment of unknown size");
    x.line(strf("  bytes %llu", (ull)(c.hdr + c.size)));
  }
  N* cu = seg->find(Cues);
  if (cu) {
    x.line("cues");
    if (cu->all(CuePoint).empty()) x.no("cues without a cue point");
    for (auto p : cu->all(CuePoint)) {
      ll t = (ll)x.u(p, CueTime, 0), ns;
      if (!p->find(CueTime) || p->all(CueTrackPositions).empty()) x.no("cue point without time or position");
      if (__builtin_mul_overflow(t, scale, &ns)) x.no("time overflow");
      x.line(strf(" cue %lld ns %lld", t, ns));
      for (ull n : order) {
        for (auto q : p->all(CueTrackPositions))
          if (x.u(q, CueTrack, 0) == n) {
            if (x.u(q, CueBlockNumber, 1) == 0) x.no("cue block number");
            x.line(strf("  track %llu pos %llu block %llu", n, x.u(q, CueClusterPosition, 0), x.u(q, CueBlockNumber, 1)));
            break;
          }
      }
      for (auto q : p->all(CueTrackPositions)) if (x.u(q, CueTrack, 0) == 0 || !q->find(CueTrack) || !q->find(CueClusterPosition) || x.u(q, CueBlockNumber, 1) == 0) x.no("cue position");
    }
  }
  *why = x.why;
  return x.log;
}
std::string diff(const std::string& a, const std::string& b) {
  size_t i = 0, ls = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') ls = i + 1; ++i; }
  auto ln = [&](const std::string& t) { return ls >= t.size() ? std::string("(end)") : t.substr(ls, t.find('\n', ls) - ls).substr(0, 400); };
  return "expected `" + ln(a) + "' got `" + ln(b) + "'";
}
}  // namespace pl
