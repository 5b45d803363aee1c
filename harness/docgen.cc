#include "docgen.h"
using namespace eb;
using mc::strf;
namespace dg {
namespace {
El m(uint32_t id, std::vector<El> k) { return El(id, std::move(k)); }
El header() {
  return m(EBML, {eu(EBMLVersion, 1), eu(EBMLReadVersion, 1), eu(EBMLMaxIDLength, 4), eu(EBMLMaxSizeLength, 8), es(DocType, "webm"),
                  eu(DocTypeVersion, 4), eu(DocTypeReadVersion, 2)});
}
El shead() { return m(EBML, {es(DocType, "webm")}); }
El sb(uint64_t t, int rel, int flags, const Bytes& f) { return es(SimpleBlock, enc_block(t, rel, flags, 0, {f})); }
El blk(uint64_t t, int rel, int flags, const Bytes& f) { return es(Block, enc_block(t, rel, flags, 0, {f})); }
El vtrack(int n) {
  return m(TrackEntry, {eu(TrackNumber, n), eu(TrackUID, 0x1234), eu(TrackType, 1), es(CodecID, "V_VP9"),
                        m(Video, {eu(PixelWidth, 320), eu(PixelHeight, 240)})});
}
El atrack(int n) {
  return m(TrackEntry, {eu(TrackNumber, n), eu(TrackUID, 77), eu(TrackType, 2), es(CodecID, "A_OPUS"), es(CodecPrivate, "OpusHead"),
                        eu(CodecDelay, 6500000), eu(SeekPreRoll, 80000000), m(Audio, {ef(SamplingFrequency, 48000, 4), eu(Channels, 2)})});
}
}  // namespace

const char* seed_name(int s) {
  static const char* n[] = {"av", "track", "meta", "laces", "live", "chain", "tiny", "front", "back"};
  return n[s];
}
Doc seed(int s) {
  switch (s) {
    case AV:
      return {header(),
              m(Segment, {m(SeekHead, {m(Seek, {es(SeekID, enc_id(Cues)), eu(SeekPosition, 300)})}),
                          m(Info, {eu(TimecodeScale, 1000000), ef(Duration, 40, 8), es(MuxingApp, "mux"), es(WritingApp, "wr")}),
                          m(Tracks, {vtrack(1), atrack(2)}),
                          m(Cluster, {eu(Timecode, 0), sb(1, 0, 0x80, "key0"), sb(2, 3, 0x80, "au"),
                                      m(BlockGroup, {blk(1, 10, 0, "v10"),
                                                     m(BlockAdditions, {m(BlockMore, {eu(BlockAddID, 1), es(BlockAdditional, "alpha")})}),
                                                     eu(BlockDuration, 10), ei(ReferenceBlock, -10), ei(DiscardPadding, -5)})}),
                          m(Cluster, {eu(Timecode, 20), eu(PrevSize, 99), sb(1, 0, 0x80, "key2"), sb(2, -1, 0, "b")}),
                          m(Cues, {m(CuePoint, {eu(CueTime, 0), m(CueTrackPositions, {eu(CueTrack, 1), eu(CueClusterPosition, 200)})}),
                                   m(CuePoint, {eu(CueTime, 20), m(CueTrackPositions, {eu(CueTrack, 1), eu(CueClusterPosition, 260), eu(CueBlockNumber, 1)})})})})};
    case TRACK:
      return {shead(),
              m(Segment,
                {m(Info, {eu(TimecodeScale, 500000), ef(Duration, 1.5, 4), ei(DateUTC, -1, 8), es(Title, "T"), es(MuxingApp, "m"), es(WritingApp, "w")}),
                 m(Tracks,
                   {m(TrackEntry,
                      {eu(TrackNumber, 1), eu(TrackUID, 5), eu(TrackType, 1), eu(FlagEnabled, 1), eu(FlagDefault, 0), eu(FlagForced, 1), eu(FlagLacing, 0),
                       eu(DefaultDuration, 33333333), eu(MaxBlockAdditionID, 1), es(Name, "nm"), es(Language, "fre"), es(CodecID, "V_VP8"),
                       es(CodecPrivate, Bytes("\x01\x02", 2)), es(CodecName, "cn"), eu(CodecDelay, 7), eu(SeekPreRoll, 8),
                       m(Video,
                         {eu(FlagInterlaced, 2), eu(StereoMode, 3), eu(AlphaMode, 1), eu(PixelWidth, 640), eu(PixelHeight, 480), eu(PixelCropBottom, 1),
                          eu(PixelCropTop, 2), eu(PixelCropLeft, 3), eu(PixelCropRight, 4), eu(DisplayWidth, 641), eu(DisplayHeight, 481), eu(DisplayUnit, 0),
                          eu(AspectRatioType, 1), ef(FrameRate, 30, 4),
                          m(Colour, {eu(MatrixCoefficients, 1), eu(BitsPerChannel, 10), eu(ChromaSubsamplingHorz, 1), eu(ChromaSubsamplingVert, 1),
                                     eu(CbSubsamplingHorz, 1), eu(CbSubsamplingVert, 1), eu(ChromaSitingHorz, 1), eu(ChromaSitingVert, 2), eu(Range, 1),
                                     eu(TransferCharacteristics, 16), eu(Primaries, 9), eu(MaxCLL, 1000), eu(MaxFALL, 400),
                                     m(MasteringMetadata,
                                       {ef(PrimaryRChromaticityX, 0.68, 4), ef(PrimaryRChromaticityY, 0.32, 4), ef(PrimaryGChromaticityX, 0.26, 4),
                                        ef(PrimaryGChromaticityY, 0.69, 4), ef(PrimaryBChromaticityX, 0.15, 4), ef(PrimaryBChromaticityY, 0.06, 4),
                                        ef(WhitePointChromaticityX, 0.31, 4), ef(WhitePointChromaticityY, 0.33, 4), ef(LuminanceMax, 1000, 4),
                                        ef(LuminanceMin, 0.5, 4)})}),
                          m(Projection, {eu(ProjectionType, 1), es(ProjectionPrivate, "pp"), ef(ProjectionPoseYaw, 1, 4), ef(ProjectionPosePitch, 2, 4),
                                         ef(ProjectionPoseRoll, 3, 8)})}),
                       m(ContentEncodings,
                         {m(ContentEncoding, {eu(ContentEncodingOrder, 0), eu(ContentEncodingScope, 1), eu(ContentEncodingType, 1),
                                              m(ContentEncryption, {eu(ContentEncAlgo, 5), es(ContentEncKeyID, "kid"),
                                                                    m(ContentEncAESSettings, {eu(AESSettingsCipherMode, 1)})})})})}),
                    m(TrackEntry, {eu(TrackNumber, 2), eu(TrackUID, 6), eu(TrackType, 2), es(CodecID, "A_VORBIS"), es(CodecPrivate, "x"),
                                   m(Audio, {ef(SamplingFrequency, 44100, 8), ef(OutputSamplingFrequency, 88200, 4), eu(Channels, 6), eu(BitDepth, 24)})})}),
                 m(Cluster, {eu(Timecode, 1), sb(1, 0, 0x80, "k")})})};
    case META:
      return {shead(),
              m(Segment,
                {m(Info, {es(MuxingApp, "m"), es(WritingApp, "w")}), m(Tracks, {vtrack(1)}),
                 m(Chapters, {m(EditionEntry, {m(ChapterAtom, {eu(ChapterUID, 9), es(ChapterStringUID, "cue"), eu(ChapterTimeStart, 0), eu(ChapterTimeEnd, 1000000),
                                                               m(ChapterDisplay, {es(ChapString, "one"), es(ChapLanguage, "eng"), es(ChapCountry, "us")}),
                                                               m(ChapterDisplay, {es(ChapString, "un"), es(ChapLanguage, "fre"), es(ChapLanguage, "deu")})}),
                                               m(ChapterAtom, {eu(ChapterUID, 10), eu(ChapterTimeStart, 1000000), m(ChapterDisplay, {es(ChapString, "two")})})})}),
                 m(Cluster, {eu(Timecode, 0), sb(1, 0, 0x80, "k")}),
                 m(Tags, {m(Tag, {m(Targets, {eu(TargetTypeValue, 30), es(TargetType, "TRACK"), eu(TagTrackUID, 0x1234)}),
                                  m(SimpleTag, {es(TagName, "N"), es(TagLanguage, "eng"), eu(TagDefault, 0), es(TagString, "V")}),
                                  m(SimpleTag, {es(TagName, "B"), es(TagBinary, Bytes("\0\1", 2))})}),
                          m(Tag, {m(Targets, {}), m(SimpleTag, {es(TagName, "Z"), es(TagString, "z")})})})})};
    case LACES:
      return {shead(), m(Segment, {m(Info, {}), m(Tracks, {vtrack(1)}),
                                   m(Cluster, {eu(Timecode, 5), es(SimpleBlock, enc_block(1, 0, 0x80, 1, {"abc", "de", "f"})),
                                               es(SimpleBlock, enc_block(1, 1, 0, 3, {"abc", "de", "fghij", "k"})),
                                               es(SimpleBlock, enc_block(1, 2, 0x80, 2, {"ab", "cd", "ef"})),
                                               m(BlockGroup, {es(Block, enc_block(1, 3, 0, 1, {"q", "rs"})), eu(BlockDuration, 4)}),
                                               m(BlockGroup, {es(Block, enc_block(1, 3, 0, 3, {"q", "rs"})), m(Slices, {m(TimeSlice, {eu(LaceNumber, 1)})})}),
                                               m(BlockGroup, {es(Block, enc_block(1, 4, 0, 2, {"qr", "st"})), es(BlockVirtual, enc_block(1, 5, 0, 0, {""}))})})})};
    case LIVE: {
      Doc d = {shead(), m(Segment, {m(Info, {eu(TimecodeScale, 1000000)}), m(Tracks, {vtrack(1)}),
                                    m(Cluster, {eu(Timecode, 0), sb(1, 0, 0x80, "k0"), evoid(1)}),
                                    m(Cluster, {eu(Timecode, 9), m(BlockGroup, {blk(1, 0, 0, "x"), eu(BlockDuration, 2)})}),
                                    m(Cues, {m(CuePoint, {eu(CueTime, 0), m(CueTrackPositions, {eu(CueTrack, 1), eu(CueClusterPosition, 50)})})}),
                                    m(Cluster, {eu(Timecode, 12), sb(1, 1, 0, "k3")})})};
      d[1].unknown = true;
      d[1].size_len = 8;
      d[1].kids[2].unknown = true;
      d[1].kids[3].unknown = true;
      d[1].kids[5].unknown = true;
      return d;
    }
    case CHAIN: {
      Doc d = {shead(), m(Segment, {m(Info, {}), m(Cluster, {eu(Timecode, 0), sb(1, 0, 0x80, "a")})}), evoid(2), shead(),
               m(Segment, {m(Info, {}), m(Cluster, {eu(Timecode, 1), sb(1, 0, 0x80, "b")}), m(Tags, {m(Tag, {m(Targets, {})})})})};
      d[1].unknown = true;
      d[1].kids[1].unknown = true;
      return d;
    }
    case FRONT:
      return {shead(),
              m(Segment,
                {m(SeekHead, {m(Seek, {es(SeekID, enc_id(Info)), eu(SeekPosition, 40)}), evoid(2), m(Seek, {es(SeekID, enc_id(Tags)), eu(SeekPosition, 70)})}),
                 m(Cues, {m(CuePoint, {eu(CueTime, 0), m(CueTrackPositions, {eu(CueTrack, 1), eu(CueClusterPosition, 10)}),
                                       m(CueTrackPositions, {eu(CueTrack, 3), eu(CueClusterPosition, 11), eu(CueBlockNumber, 2)})})}),
                 m(Tags, {m(Tag, {m(Targets, {eu(TagTrackUID, 5)}), m(SimpleTag, {es(TagName, "A"), es(TagString, "aa")}),
                                  m(SimpleTag, {es(TagName, "B"), es(TagString, "bb")}), m(SimpleTag, {es(TagName, "C"), es(TagString, "cc")})}),
                          m(Tag, {m(SimpleTag, {es(TagName, "D"), es(TagString, "dd")})})}),
                 m(Chapters, {m(EditionEntry, {m(ChapterAtom, {eu(ChapterUID, 1), eu(ChapterTimeStart, 5), m(ChapterDisplay, {es(ChapString, "x")})})}),
                              m(EditionEntry, {m(ChapterAtom, {eu(ChapterUID, 2), eu(ChapterTimeStart, 6), m(ChapterDisplay, {es(ChapString, "y")})}),
                                               m(ChapterAtom, {eu(ChapterUID, 3), eu(ChapterTimeStart, 7), m(ChapterDisplay, {es(ChapString, "z")})})})}),
                 m(Tracks,
                   {m(TrackEntry, {eu(TrackNumber, 3), eu(TrackUID, 33), eu(TrackType, 17), es(CodecID, "D_WEBVTT/SUBTITLES"), es(Name, "sub"), es(Language, "und")}),
                    m(TrackEntry, {eu(TrackNumber, 1), eu(TrackUID, 5), eu(TrackType, 1), es(CodecID, "V_VP8"),
                                   m(Video, {eu(PixelWidth, 16), eu(PixelHeight, 8), es(ColourSpace, "UYVY"), m(Projection, {eu(ProjectionType, 0)}), m(Colour, {eu(Range, 1)})}),
                                   m(ContentEncodings,
                                     {m(ContentEncoding, {eu(ContentEncodingOrder, 1), m(ContentCompression, {eu(ContentCompAlgo, 3), es(ContentCompSettings, "hd")})}),
                                      m(ContentEncoding, {eu(ContentEncodingType, 1),
                                                          m(ContentEncryption, {eu(ContentEncAlgo, 5), es(ContentSignature, "sg"), es(ContentSigKeyID, "sk"),
                                                                                eu(ContentSigAlgo, 1), eu(ContentSigHashAlgo, 2)})})})})}),
                 m(Info, {es(Title, "t"), es(MuxingApp, "m"), es(WritingApp, "w")}),
                 m(Cluster, {eu(Timecode, 0), sb(1, 0, 0x80, "v"), sb(3, 0, 0x80, "s")})})};
    case BACK: {
      // known-size segment that ends in a cluster of unknown size, followed by another document
      Doc d = {shead(),
               m(Segment, {m(Info, {}), m(Tracks, {vtrack(1)}), m(Cluster, {eu(Timecode, 3), sb(1, 0, 0x80, "a")}), m(Tags, {m(Tag, {m(SimpleTag, {es(TagName, "N"), es(TagString, "v")})})}),
                           m(Cluster, {eu(Timecode, 4), sb(1, 0, 0x80, "b"), sb(1, 1, 0, "c")})}),
               evoid(1), shead(), m(Segment, {m(Info, {}), m(Tracks, {vtrack(1)}), m(Cluster, {eu(Timecode, 7), sb(1, 0, 0x80, "z")})})};
      d[1].kids[2].unknown = true;
      d[1].kids[4].unknown = true;
      return d;
    }
    default:
      return {shead(), m(Segment, {m(Info, {eu(TimecodeScale, 1000000)}),
                                   m(Tracks, {m(TrackEntry, {eu(TrackNumber, 1), eu(TrackUID, 1), eu(TrackType, 1), m(Video, {eu(PixelWidth, 2), eu(PixelHeight, 2)})})}),
                                   m(Cluster, {eu(Timecode, 0), sb(1, 0, 0x80, "k"), m(BlockGroup, {blk(1, 1, 0, "p"), eu(BlockDuration, 2)})}),
                                   m(Cues, {m(CuePoint, {eu(CueTime, 0), m(CueTrackPositions, {eu(CueTrack, 1), eu(CueClusterPosition, 9)})})})})};
  }
}
Bytes enc(const Doc& d) {
  Bytes b;
  for (auto& e : d) b += e.enc();
  return b;
}

namespace {
struct Place { El* e; std::vector<El>* sibs; size_t idx; uint32_t parent; bool in_unknown; };
bool walk(std::vector<El>& v, uint32_t parent, bool unk, int& n, int want, Place* p) {
  for (size_t i = 0; i < v.size(); ++i) {
    if (n++ == want) { *p = Place{&v[i], &v, i, parent, unk}; return true; }
    if (!v[i].leaf && walk(v[i].kids, v[i].id, v[i].unknown, n, want, p)) return true;
  }
  return false;
}
int count(const std::vector<El>& v) {
  int n = 0;
  for (auto& e : v) n += 1 + count(e.kids);
  return n;
}
std::vector<Bytes> alternatives(const El& e, const Spec* sp) {
  std::vector<Bytes> a;
  if (!sp) return a;
  switch (sp->t) {
    case U:
      for (uint64_t v : {0ull, 1ull, 127ull, 128ull, 255ull, 256ull, 65535ull, 1ull << 32, (1ull << 56) - 1, 1ull << 63, ~0ull}) a.push_back(enc_uint(v));
      a.push_back(enc_uint(dec_uint(e.data), 8));
      a.push_back(enc_uint(dec_uint(e.data), (int)e.data.size() + 1 <= 8 ? (int)e.data.size() + 1 : 8));
      break;
    case I:
      for (int64_t v : {0ll, 1ll, -1ll, 127ll, 128ll, -128ll, -129ll, (long long)INT32_MIN, (long long)INT64_MAX, (long long)INT64_MIN}) a.push_back(enc_int(v));
      a.push_back(enc_int(dec_int(e.data), 8));
      break;
    case F:
      for (double v : {0.0, -1.5, 1e-30, 1.0 / 0.0}) { a.push_back(enc_float(v, 4)); a.push_back(enc_float(v, 8)); }
      a.push_back(enc_float(1e300, 8));
      break;
    case S:
      a.push_back("a");
      a.push_back(Bytes("ab\0", 3));
      a.push_back(Bytes("\0\0", 2));
      a.push_back(Bytes("a\0b", 3));
      a.push_back("h\xc3\xa9");
      a.push_back(Bytes(127, 'x'));
      a.push_back(Bytes(128, 'y'));
      break;
    case B:
      if (e.id == SimpleBlock || e.id == Block || e.id == BlockVirtual) {
        Bytes f("pq");
        for (int fl : {0x08, 0x01, 0x89}) a.push_back(enc_block(1, 0, fl, 0, {f}));
        a.push_back(enc_block(127, 0, 0, 0, {f}));
        a.push_back(enc_block(128, 0, 0, 0, {f}));
        a.push_back(enc_block(1, -1, 0, 0, {f}));
        a.push_back(enc_block(1, -32768, 0, 0, {f}));
        a.push_back(enc_block(1, 32767, 0, 0, {f}));
        a.push_back(enc_block(1, 0, 0, 0, {Bytes(130, 'z')}));
        a.push_back(enc_block(1, 0, 0, 1, {f}));
        a.push_back(enc_block(1, 0, 0, 3, {f}));
        a.push_back(enc_block(1, 0, 0, 2, {f}));
      } else if (e.id == SeekID) {
        a.push_back(enc_id(Info)); a.push_back(enc_id(Cluster)); a.push_back(enc_id(Void)); a.push_back(enc_id(Tags));
      } else {
        a.push_back(Bytes("\0", 1));
        a.push_back(Bytes(127, '\1'));
        a.push_back(Bytes(128, '\xff'));
      }
      break;
    case D:
      for (int64_t v : {0ll, 1ll, (long long)INT64_MIN, (long long)INT64_MAX}) a.push_back(enc_int(v, 8));
      break;
    default: break;
  }
  std::vector<Bytes> u;
  for (auto& x : a) { bool dup = x == e.data; for (auto& y : u) dup = dup || x == y; if (!dup) u.push_back(x); }
  return u;
}
enum { ESIZE1, ESIZE8, EUNK, EUNK8, EVOID0, EVOID9, EVOIDIN, EFOREIGN1, EFOREIGN2, EFOREIGN4, EDEL, EDUP, ESWAP, EZERO, EVAL };
std::vector<int> edits(const Place& p, const EditCfg& c) {
  std::vector<int> v;
  const El& e = *p.e;
  if (c.sizes) {
    v.push_back(ESIZE1);
    v.push_back(ESIZE8);
    if (!e.leaf && !e.unknown && (e.id == Segment || e.id == Cluster || (c.unknown_any && e.id != EBML))) { v.push_back(EUNK); v.push_back(EUNK8); }
  }
  if (c.structure) {
    v.push_back(EVOID0);
    v.push_back(EVOID9);
    if (!e.leaf) v.push_back(EVOIDIN);
    if (c.foreign && p.parent) { v.push_back(EFOREIGN1); v.push_back(EFOREIGN2); v.push_back(EFOREIGN4); }
    v.push_back(EDEL);
    v.push_back(EDUP);
    if (p.idx + 1 < p.sibs->size()) v.push_back(ESWAP);
  }
  if (e.leaf) {
    if (c.zero && !e.data.empty()) v.push_back(EZERO);
    if (c.values) {
      size_t n = alternatives(e, spec(e.id, p.parent)).size();
      for (size_t i = 0; i < n; ++i) v.push_back(EVAL + (int)i);
    }
  }
  return v;
}
}  // namespace

int node_count(const Doc& d) { return count(d); }
int edit_count(const Doc& d, int node, const EditCfg& c) {
  Doc t = d;
  Place p;
  int n = 0;
  if (!walk(t, 0, false, n, node, &p)) return 0;
  return (int)edits(p, c).size();
}
std::string apply(Doc& d, int node, int k, const EditCfg& c) {
  Place p;
  int n = 0;
  if (!walk(d, 0, false, n, node, &p)) return "?";
  std::vector<int> v = edits(p, c);
  if (k >= (int)v.size()) return "?";
  El& e = *p.e;
  int op = v[k];
  std::string nm = strf("%s#%d ", name_of(e.id), node);
  auto ins = [&](El x) { p.sibs->insert(p.sibs->begin() + p.idx, std::move(x)); };
  switch (op) {
    case ESIZE1: {
      Bytes b = e.data;
      for (auto& x : e.kids) b += x.enc();
      e.size_len = (e.unknown ? 1 : (int)enc_size(b.size()).size()) + 1;
      return nm + "size field one longer";
    }
    case ESIZE8: e.size_len = 8; return nm + "size field 8 bytes";
    case EUNK: e.unknown = true; return nm + "unknown size";
    case EUNK8: e.unknown = true; e.size_len = 8; return nm + "unknown size, 8 bytes";
    case EVOID0: ins(evoid(0)); return "empty void before " + nm;
    case EVOID9: { El x = evoid(3); x.size_len = 2; ins(x); return "void before " + nm; }
    case EVOIDIN: e.kids.push_back(evoid(2)); return "void at end of " + nm;
    case EFOREIGN1: ins(es(0xBF, "crc!")); return "unknown element BF before " + nm;
    case EFOREIGN2: ins(es(0x4FFF & 0x7fff, "")); return "unknown element 4FFF (empty) before " + nm;
    case EFOREIGN4: { El x = es(0x1ABCDEF0, "u"); x.size_len = 4; ins(x); return "unknown element 1ABCDEF0 before " + nm; }
    case EDEL: p.sibs->erase(p.sibs->begin() + p.idx); return "without " + nm;
    case EDUP: { El x = e; ins(x); return "twice " + nm; }
    case ESWAP: std::swap((*p.sibs)[p.idx], (*p.sibs)[p.idx + 1]); return "swapped with next: " + nm;
    case EZERO: e.data.clear(); return "zero length " + nm;
    default: {
      auto a = alternatives(e, spec(e.id, p.parent));
      e.data = a[op - EVAL];
      return nm + "= " + mc::hex(e.data.data(), e.data.size(), 12);
    }
  }
}
Doc pick(mc::Chooser& c, const std::vector<int>& seeds, int nedits, const EditCfg& cfg, std::string* desc) {
  int s = seeds[c.pick((int)seeds.size())];
  Doc d = seed(s);
  *desc = seed_name(s);
  int from = 0;
  for (int i = 0; i < nedits; ++i) {
    int n = node_count(d);
    int node = c.pick(n - from + 1);
    if (node == 0) break;
    node = from + node - 1;
    int k = edit_count(d, node, cfg);
    if (k == 0) break;
    *desc += "; " + apply(d, node, c.pick(k), cfg);
    if (i == 0 && nedits > 1 && !c.mine()) return Doc();
    from = node;
  }
  return d;
}
Bytes pick_block(mc::Chooser& c, bool simple, bool wide, std::string* desc) {
  static const uint64_t tracks[] = {1, 126, 127, 128, 16383};
  static const int rels[] = {0, 1, -1, 255, -32768, 32767};
  static const int fl_simple[] = {0x80, 0, 0x88, 0x01, 0x89};
  static const int fl_block[] = {0, 0x08};
  int t = c.pick(wide ? 5 : 3), r = c.pick(wide ? 6 : 3), f = simple ? fl_simple[c.pick(wide ? 5 : 3)] : fl_block[c.pick(2)];
  int lac = c.pick(4);
  std::vector<Bytes> fr;
  static const int sizes[] = {1, 0, 2, 126, 127, 254, 255, 256, 510, 62, 63, 64, 8191, 8192};
  auto payload = [](int n, int i) {
    Bytes b(n, 0);
    for (int k = 0; k < n; ++k) b[k] = (char)(17 * i + k * 7 + 1);
    return b;
  };
  int ns = wide ? 14 : 9;
  if (lac == 0) { fr.push_back(payload(sizes[c.pick(ns)], 0)); }
  else {
    int n = 1 + c.pick(wide ? 4 : 3);
    if (lac == 2) { int s = sizes[c.pick(ns)]; for (int i = 0; i < n; ++i) fr.push_back(payload(s, i)); }
    else for (int i = 0; i < n; ++i) fr.push_back(payload(sizes[c.pick(ns)], i));
  }
  *desc = strf("track %llu rel %d flags %02x lacing %d sizes", (unsigned long long)tracks[t], rels[r], f, lac);
  for (auto& x : fr) *desc += strf(" %zu", x.size());
  return enc_block(tracks[t], rels[r], f, lac, fr);
}

Bytes pick_laces(mc::Chooser& c, bool wide, std::string* desc) {
  static const int lens[] = {1, 2, 3, 8, 4, 5, 6, 7};
  static const int firsts[] = {2, 1, 5, 70};
  static const int deltas[] = {0, 1, -1, 4, -3, 66, -70};
  int kind = c.pick(3);
  Bytes b("\x81\x00\x05", 3), body;
  if (kind == 0) {   // EBML lacing, every coded length, running sizes that may drop below zero and recover
    int n = 3 + c.pick(wide ? 3 : 2), nl = wide ? 8 : 4, nd = wide && n < 5 ? 7 : n == 3 ? 7 : 5;
    b += '\x06';
    b += (char)(n - 1);
    long long sum = 0, cur = 0;
    for (int i = 0; i + 1 < n; ++i) {
      if (i == 0) {
        int l = lens[c.pick(nl)];
        cur = firsts[c.pick(4)];
        b += eb::enc_size((uint64_t)cur, l);
        *desc += strf("EBML lace sizes %lld/%d", cur, l);
      } else {
        int d = deltas[c.pick(nd)], l = lens[c.pick(nl)];
        long long lim = (1ll << (7 * l - 1)) - 1;
        if (d > lim || d < -lim) l = 2, lim = (1ll << 13) - 1;
        Bytes e = eb::enc_uint((uint64_t)(d + lim), l);
        e[0] = (char)((unsigned char)e[0] | (0x80 >> (l - 1)));
        b += e;
        cur += d;
        *desc += strf(" %+d/%d", d, l);
      }
      sum += cur;
    }
    int last = c.pick(3);   // size left for the last frame: 2, 0 or as if negative sizes counted
    long long len = last == 0 ? sum + 2 : last == 1 ? sum : sum - 1;
    *desc += strf(" data %lld", len);
    if (len < 0) len = 0;
    for (long long k = 0; k < len; ++k) b += (char)(k * 7 + 1);
    return b;
  }
  if (kind == 1) {   // many laces
    static const int counts[] = {256, 255, 129, 128, 127, 65, 64};
    int lac = 1 + c.pick(3), n = counts[c.pick(7)], shape = c.pick(3);
    std::vector<Bytes> fr;
    for (int i = 0; i < n; ++i) {
      int s = lac == 2 ? 1 + shape : shape == 0 ? 1 + i % 3 : shape == 1 ? (i == n - 2 ? 300 : 1) : 1 + (i * 37) % 70;
      Bytes f;
      for (int k = 0; k < s; ++k) f += (char)(i + k);
      fr.push_back(f);
    }
    *desc += strf("%d laces, lacing %d, shape %d", n, lac, shape);
    return eb::enc_block(1, 5, c.flag() ? 0x08 : 0, lac, fr);
  }
  // Long Xiph and EBML sizes
  static const int big[] = {510, 509, 765, 764, 1020, 5100, 16382, 16383, 16384, 65535, 65536, 70000};
  int lac = 1 + c.pick(3), n = 2 + c.pick(2), nb = wide ? 12 : 8;
  std::vector<Bytes> fr;
  int s0 = 0;
  for (int i = 0; i < n; ++i) {
    int s = lac == 2 && i ? s0 : i + 1 == n ? 3 : big[c.pick(nb)];
    if (i == 0) s0 = s;
    fr.push_back(Bytes(s, (char)('a' + i)));
    *desc += strf("%s%d", i ? " " : "long laces ", s);
  }
  *desc += strf(" lacing %d", lac);
  return eb::enc_block(1, 5, 0, lac, fr);
}
Doc pick_many(mc::Chooser& c, bool wide, std::string* desc) {
  static const int N[] = {3, 5, 9, 17, 33, 65, 127, 128, 129, 257, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097};
  static const char* name[] = {"simple blocks", "block groups", "clusters", "cue points", "positions of a cue", "seek entries", "seek heads", "tracks", "tags", "tag values",
                               "editions", "chapters", "chapter titles", "paddings", "unknown elements", "content encodings", "block additions", "nested tag values", "nested chapters",
                               "references of a block", "padding between blocks"};
  int kind = c.pick(21), big = kind == 0 || kind == 1 || kind == 2 || kind == 3 || kind == 20, n = N[c.pick(wide || big ? 18 : 12)];
  *desc = strf("%d %s", n, name[kind]);
  Doc d = seed(TINY);
  El& seg = d[1];
  El& cl = seg.kids[2];
  auto front = [&](const El& x) {
    for (auto& k : seg.kids) if (x.id == eb::Cues && k.id == eb::Cues) { k = x; return; } seg.kids.insert(seg.kids.begin() + 2, x); };
  auto blk = [&](int i, bool grp) {
    Bytes b = eb::enc_block(1, (int16_t)i, grp ? 0 : i % 3 ? 0 : 0x80, 0, {strf("%d", i)});
    return grp ? El(eb::BlockGroup, {eb::es(eb::Block, b)}) : eb::es(eb::SimpleBlock, b);
  };
  switch (kind) {
    case 0: case 1: for (int i = 0; i < n; ++i) cl.add(blk(i, kind == 1)); break;
    case 2: for (int i = 1; i < n; ++i) seg.add(El(eb::Cluster, {eb::eu(eb::Timecode, 100 + (uint64_t)i), blk(i % 7, i % 5 == 0)})); break;
    case 3: { El q(eb::Cues, {}); for (int i = 0; i < n; ++i) q.add(El(eb::CuePoint, {eb::eu(eb::CueTime, (uint64_t)i), El(eb::CueTrackPositions, {eb::eu(eb::CueTrack, 1), eb::eu(eb::CueClusterPosition, 77)})})); front(q); break; }
    case 4: { El q(eb::CuePoint, {eb::eu(eb::CueTime, 5)}); for (int i = 0; i < n; ++i) q.add(El(eb::CueTrackPositions, {eb::eu(eb::CueTrack, 1 + (uint64_t)i), eb::eu(eb::CueClusterPosition, 3 * (uint64_t)i)})); front(El(eb::Cues, {q})); break; }
    case 5: { El q(eb::SeekHead, {}); for (int i = 0; i < n; ++i) q.add(El(eb::Seek, {eb::es(eb::SeekID, Bytes("\x1F\x43\xB6\x75", 4)), eb::eu(eb::SeekPosition, (uint64_t)i)})); front(q); break; }
    case 6: for (int i = 0; i < n; ++i) front(El(eb::SeekHead, {El(eb::Seek, {eb::es(eb::SeekID, Bytes("\x1C\x53\xBB\x6B", 4)), eb::eu(eb::SeekPosition, (uint64_t)i)})})); break;
    case 7: { El& t = seg.kids[1]; El one = t.kids[0]; for (int i = 1; i < n; ++i) { El x = one; for (auto& k : x.kids) if (k.id == eb::TrackNumber || k.id == eb::TrackUID) k = eb::eu(k.id, 1 + (uint64_t)i); t.add(x); } break; }
    case 8: { El q(eb::Tags, {}); for (int i = 0; i < n; ++i) q.add(El(eb::Tag, {El(eb::SimpleTag, {eb::es(eb::TagName, strf("N%d", i)), eb::es(eb::TagString, "v")})})); front(q); break; }
    case 9: { El q(eb::Tag, {}); for (int i = 0; i < n; ++i) q.add(El(eb::SimpleTag, {eb::es(eb::TagName, strf("N%d", i)), eb::es(eb::TagString, "v")})); front(El(eb::Tags, {q})); break; }
    case 10: { El q(eb::Chapters, {}); for (int i = 0; i < n; ++i) q.add(El(eb::EditionEntry, {El(eb::ChapterAtom, {eb::eu(eb::ChapterUID, 1 + (uint64_t)i), eb::eu(eb::ChapterTimeStart, (uint64_t)i)})})); front(q); break; }
    case 11: { El q(eb::EditionEntry, {}); for (int i = 0; i < n; ++i) q.add(El(eb::ChapterAtom, {eb::eu(eb::ChapterUID, 1 + (uint64_t)i), eb::eu(eb::ChapterTimeStart, (uint64_t)i)})); front(El(eb::Chapters, {q})); break; }
    case 12: { El q(eb::ChapterAtom, {eb::eu(eb::ChapterUID, 1), eb::eu(eb::ChapterTimeStart, 0)}); for (int i = 0; i < n; ++i) q.add(El(eb::ChapterDisplay, {eb::es(eb::ChapString, strf("t%d", i)), eb::es(eb::ChapLanguage, "eng")})); front(El(eb::Chapters, {El(eb::EditionEntry, {q})})); break; }
    case 13: for (int i = 0; i < n; ++i) front(eb::es(eb::Void, Bytes(i % 3, 0))); break;
    case 14: for (int i = 0; i < n; ++i) front(eb::es(0x4DBA, Bytes(i % 3, 1))); break;
    case 15: { El q(eb::ContentEncodings, {}); for (int i = 0; i < n; ++i) q.add(El(eb::ContentEncoding, {eb::eu(eb::ContentEncodingOrder, (uint64_t)i), eb::eu(eb::ContentEncodingType, 1), El(eb::ContentEncryption, {eb::eu(eb::ContentEncAlgo, 5), eb::es(eb::ContentEncKeyID, "k")})})); seg.kids[1].kids[0].add(q); break; }
    case 16: { El q(eb::BlockAdditions, {}); for (int i = 0; i < n; ++i) q.add(El(eb::BlockMore, {eb::eu(eb::BlockAddID, 1 + (uint64_t)i), eb::es(eb::BlockAdditional, strf("%d", i))})); El g = blk(3, true); g.add(q); cl.add(g); break; }
    case 17: { if (n > 257) n = 257; El q(eb::Tag, {El(eb::SimpleTag, {eb::es(eb::TagName, "A")})}); El* x = &q.kids[0]; for (int i = 1; i < 2 + n % 19; ++i) { x->add(El(eb::SimpleTag, {eb::es(eb::TagName, strf("N%d", i))})); x = &x->kids.back(); } front(El(eb::Tags, {q})); break; }
    case 18: { El q(eb::EditionEntry, {El(eb::ChapterAtom, {eb::eu(eb::ChapterUID, 1), eb::eu(eb::ChapterTimeStart, 0)})}); El* x = &q.kids[0]; for (int i = 1; i < 2 + n % 19; ++i) { x->add(El(eb::ChapterAtom, {eb::eu(eb::ChapterUID, 1 + (uint64_t)i), eb::eu(eb::ChapterTimeStart, 0)})); x = &x->kids.back(); } front(El(eb::Chapters, {q})); break; }
    case 19: { El g = blk(3, true); for (int i = 0; i < n; ++i) g.add(eb::ei(eb::ReferenceBlock, -1 - i)); cl.add(g); break; }
    case 20: for (int i = 0; i < n; ++i) { cl.add(blk(i, i % 4 == 0)); cl.add(eb::es(eb::Void, Bytes(i % 2, 0))); } break;
  }
  return d;
}
}  // namespace dg
