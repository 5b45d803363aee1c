#include "ebml.h"
#include <set>

namespace eb {
bool foreign_ok = false;
const std::vector<Spec>& table() {
  static const std::vector<Spec> t = {
    {EBML, "EBML", M, 0, 1, 0},
    {EBMLVersion, "EBMLVersion", U, EBML, 0, 1}, {EBMLReadVersion, "EBMLReadVersion", U, EBML, 0, 1},
    {EBMLMaxIDLength, "EBMLMaxIDLength", U, EBML, 0, 1}, {EBMLMaxSizeLength, "EBMLMaxSizeLength", U, EBML, 0, 1},
    {DocType, "DocType", S, EBML, 1, 1}, {DocTypeVersion, "DocTypeVersion", U, EBML, 0, 1},
    {DocTypeReadVersion, "DocTypeReadVersion", U, EBML, 0, 1},
    {Segment, "Segment", M, 0, 1, 0},
    {SeekHead, "SeekHead", M, Segment, 0, 0}, {Seek, "Seek", M, SeekHead, 1, 0},
    {SeekID, "SeekID", B, Seek, 1, 1}, {SeekPosition, "SeekPosition", U, Seek, 1, 1},
    {Info, "Info", M, Segment, 1, 1}, {TimecodeScale, "TimecodeScale", U, Info, 0, 1},
    {Duration, "Duration", F, Info, 0, 1}, {DateUTC, "DateUTC", D, Info, 0, 1}, {Title, "Title", S, Info, 0, 1},
    {MuxingApp, "MuxingApp", S, Info, 0, 1}, {WritingApp, "WritingApp", S, Info, 0, 1},
    {Cluster, "Cluster", M, Segment, 0, 0}, {Timecode, "Timecode", U, Cluster, 1, 1},
    {PrevSize, "PrevSize", U, Cluster, 0, 1}, {SimpleBlock, "SimpleBlock", B, Cluster, 0, 0},
    {BlockGroup, "BlockGroup", M, Cluster, 0, 0}, {Block, "Block", B, BlockGroup, 1, 1},
    {BlockVirtual, "BlockVirtual", B, BlockGroup, 0, 1},
    {BlockAdditions, "BlockAdditions", M, BlockGroup, 0, 1}, {BlockMore, "BlockMore", M, BlockAdditions, 1, 0},
    {BlockAddID, "BlockAddID", U, BlockMore, 0, 1}, {BlockAdditional, "BlockAdditional", B, BlockMore, 1, 1},
    {BlockDuration, "BlockDuration", U, BlockGroup, 0, 1}, {ReferenceBlock, "ReferenceBlock", I, BlockGroup, 0, 0},
    {DiscardPadding, "DiscardPadding", I, BlockGroup, 0, 1}, {Slices, "Slices", M, BlockGroup, 0, 1},
    {TimeSlice, "TimeSlice", M, Slices, 0, 0}, {LaceNumber, "LaceNumber", U, TimeSlice, 0, 1},
    {Tracks, "Tracks", M, Segment, 0, 1}, {TrackEntry, "TrackEntry", M, Tracks, 1, 0},
    {TrackNumber, "TrackNumber", U, TrackEntry, 1, 1}, {TrackUID, "TrackUID", U, TrackEntry, 1, 1},
    {TrackType, "TrackType", U, TrackEntry, 1, 1}, {FlagEnabled, "FlagEnabled", U, TrackEntry, 0, 1},
    {FlagDefault, "FlagDefault", U, TrackEntry, 0, 1}, {FlagForced, "FlagForced", U, TrackEntry, 0, 1},
    {FlagLacing, "FlagLacing", U, TrackEntry, 0, 1}, {DefaultDuration, "DefaultDuration", U, TrackEntry, 0, 1},
    {MaxBlockAdditionID, "MaxBlockAdditionID", U, TrackEntry, 0, 1}, {Name, "Name", S, TrackEntry, 0, 1},
    {Language, "Language", S, TrackEntry, 0, 1}, {CodecID, "CodecID", S, TrackEntry, 0, 1},
    {CodecPrivate, "CodecPrivate", B, TrackEntry, 0, 1}, {CodecName, "CodecName", S, TrackEntry, 0, 1},
    {CodecDelay, "CodecDelay", U, TrackEntry, 0, 1}, {SeekPreRoll, "SeekPreRoll", U, TrackEntry, 0, 1},
    {Video, "Video", M, TrackEntry, 0, 1}, {FlagInterlaced, "FlagInterlaced", U, Video, 0, 1},
    {StereoMode, "StereoMode", U, Video, 0, 1}, {AlphaMode, "AlphaMode", U, Video, 0, 1},
    {PixelWidth, "PixelWidth", U, Video, 1, 1}, {PixelHeight, "PixelHeight", U, Video, 1, 1},
    {PixelCropBottom, "PixelCropBottom", U, Video, 0, 1}, {PixelCropTop, "PixelCropTop", U, Video, 0, 1},
    {PixelCropLeft, "PixelCropLeft", U, Video, 0, 1}, {PixelCropRight, "PixelCropRight", U, Video, 0, 1},
    {DisplayWidth, "DisplayWidth", U, Video, 0, 1}, {DisplayHeight, "DisplayHeight", U, Video, 0, 1},
    {DisplayUnit, "DisplayUnit", U, Video, 0, 1}, {AspectRatioType, "AspectRatioType", U, Video, 0, 1},
    {ColourSpace, "ColourSpace", B, Video, 0, 1}, {FrameRate, "FrameRate", F, Video, 0, 1},
    {Colour, "Colour", M, Video, 0, 1}, {MatrixCoefficients, "MatrixCoefficients", U, Colour, 0, 1},
    {BitsPerChannel, "BitsPerChannel", U, Colour, 0, 1}, {ChromaSubsamplingHorz, "ChromaSubsamplingHorz", U, Colour, 0, 1},
    {ChromaSubsamplingVert, "ChromaSubsamplingVert", U, Colour, 0, 1}, {CbSubsamplingHorz, "CbSubsamplingHorz", U, Colour, 0, 1},
    {CbSubsamplingVert, "CbSubsamplingVert", U, Colour, 0, 1}, {ChromaSitingHorz, "ChromaSitingHorz", U, Colour, 0, 1},
    {ChromaSitingVert, "ChromaSitingVert", U, Colour, 0, 1}, {Range, "Range", U, Colour, 0, 1},
    {TransferCharacteristics, "TransferCharacteristics", U, Colour, 0, 1}, {Primaries, "Primaries", U, Colour, 0, 1},
    {MaxCLL, "MaxCLL", U, Colour, 0, 1}, {MaxFALL, "MaxFALL", U, Colour, 0, 1},
    {MasteringMetadata, "MasteringMetadata", M, Colour, 0, 1},
    {PrimaryRChromaticityX, "PrimaryRChromaticityX", F, MasteringMetadata, 0, 1},
    {PrimaryRChromaticityY, "PrimaryRChromaticityY", F, MasteringMetadata, 0, 1},
    {PrimaryGChromaticityX, "PrimaryGChromaticityX", F, MasteringMetadata, 0, 1},
    {PrimaryGChromaticityY, "PrimaryGChromaticityY", F, MasteringMetadata, 0, 1},
    {PrimaryBChromaticityX, "PrimaryBChromaticityX", F, MasteringMetadata, 0, 1},
    {PrimaryBChromaticityY, "PrimaryBChromaticityY", F, MasteringMetadata, 0, 1},
    {WhitePointChromaticityX, "WhitePointChromaticityX", F, MasteringMetadata, 0, 1},
    {WhitePointChromaticityY, "WhitePointChromaticityY", F, MasteringMetadata, 0, 1},
    {LuminanceMax, "LuminanceMax", F, MasteringMetadata, 0, 1}, {LuminanceMin, "LuminanceMin", F, MasteringMetadata, 0, 1},
    {Projection, "Projection", M, Video, 0, 1}, {ProjectionType, "ProjectionType", U, Projection, 1, 1},
    {ProjectionPrivate, "ProjectionPrivate", B, Projection, 0, 1},
    {ProjectionPoseYaw, "ProjectionPoseYaw", F, Projection, 0, 1}, {ProjectionPosePitch, "ProjectionPosePitch", F, Projection, 0, 1},
    {ProjectionPoseRoll, "ProjectionPoseRoll", F, Projection, 0, 1},
    {Audio, "Audio", M, TrackEntry, 0, 1}, {SamplingFrequency, "SamplingFrequency", F, Audio, 0, 1},
    {OutputSamplingFrequency, "OutputSamplingFrequency", F, Audio, 0, 1}, {Channels, "Channels", U, Audio, 0, 1},
    {BitDepth, "BitDepth", U, Audio, 0, 1},
    {ContentEncodings, "ContentEncodings", M, TrackEntry, 0, 1}, {ContentEncoding, "ContentEncoding", M, ContentEncodings, 1, 0},
    {ContentEncodingOrder, "ContentEncodingOrder", U, ContentEncoding, 0, 1},
    {ContentEncodingScope, "ContentEncodingScope", U, ContentEncoding, 0, 1},
    {ContentEncodingType, "ContentEncodingType", U, ContentEncoding, 0, 1},
    {ContentCompression, "ContentCompression", M, ContentEncoding, 0, 0}, {ContentCompAlgo, "ContentCompAlgo", U, ContentCompression, 0, 1},
    {ContentCompSettings, "ContentCompSettings", B, ContentCompression, 0, 1},
    {ContentEncryption, "ContentEncryption", M, ContentEncoding, 0, 0}, {ContentEncAlgo, "ContentEncAlgo", U, ContentEncryption, 0, 1},
    {ContentEncKeyID, "ContentEncKeyID", B, ContentEncryption, 0, 1},
    {ContentSignature, "ContentSignature", B, ContentEncryption, 0, 1}, {ContentSigKeyID, "ContentSigKeyID", B, ContentEncryption, 0, 1},
    {ContentSigAlgo, "ContentSigAlgo", U, ContentEncryption, 0, 1}, {ContentSigHashAlgo, "ContentSigHashAlgo", U, ContentEncryption, 0, 1},
    {ContentEncAESSettings, "ContentEncAESSettings", M, ContentEncryption, 0, 1},
    {AESSettingsCipherMode, "AESSettingsCipherMode", U, ContentEncAESSettings, 0, 1},
    {Cues, "Cues", M, Segment, 0, 1}, {CuePoint, "CuePoint", M, Cues, 1, 0}, {CueTime, "CueTime", U, CuePoint, 1, 1},
    {CueTrackPositions, "CueTrackPositions", M, CuePoint, 1, 0}, {CueTrack, "CueTrack", U, CueTrackPositions, 1, 1},
    {CueClusterPosition, "CueClusterPosition", U, CueTrackPositions, 1, 1},
    {CueRelativePosition, "CueRelativePosition", U, CueTrackPositions, 0, 1}, {CueDuration, "CueDuration", U, CueTrackPositions, 0, 1},
    {CueBlockNumber, "CueBlockNumber", U, CueTrackPositions, 0, 1},
    {Chapters, "Chapters", M, Segment, 0, 1}, {EditionEntry, "EditionEntry", M, Chapters, 1, 0},
    {ChapterAtom, "ChapterAtom", M, EditionEntry, 1, 0}, {ChapterAtom, "ChapterAtom", M, ChapterAtom, 0, 0},
    {ChapterUID, "ChapterUID", U, ChapterAtom, 1, 1}, {ChapterStringUID, "ChapterStringUID", S, ChapterAtom, 0, 1},
    {ChapterTimeStart, "ChapterTimeStart", U, ChapterAtom, 1, 1}, {ChapterTimeEnd, "ChapterTimeEnd", U, ChapterAtom, 0, 1},
    {ChapterDisplay, "ChapterDisplay", M, ChapterAtom, 0, 0}, {ChapString, "ChapString", S, ChapterDisplay, 1, 1},
    {ChapLanguage, "ChapLanguage", S, ChapterDisplay, 0, 0}, {ChapCountry, "ChapCountry", S, ChapterDisplay, 0, 0},
    {Tags, "Tags", M, Segment, 0, 0}, {Tag, "Tag", M, Tags, 1, 0}, {Targets, "Targets", M, Tag, 0, 1},
    {TargetTypeValue, "TargetTypeValue", U, Targets, 0, 1}, {TargetType, "TargetType", S, Targets, 0, 1},
    {TagTrackUID, "TagTrackUID", U, Targets, 0, 0}, {SimpleTag, "SimpleTag", M, Tag, 0, 0},
    {SimpleTag, "SimpleTag", M, SimpleTag, 0, 0}, {TagName, "TagName", S, SimpleTag, 1, 1},
    {TagLanguage, "TagLanguage", S, SimpleTag, 0, 1}, {TagDefault, "TagDefault", U, SimpleTag, 0, 1},
    {TagString, "TagString", S, SimpleTag, 0, 1}, {TagBinary, "TagBinary", B, SimpleTag, 0, 1},
  };
  return t;
}
const Spec* spec(uint32_t id, uint32_t parent) {
  static std::map<std::pair<uint32_t, uint32_t>, const Spec*> m;
  if (m.empty()) for (auto& s : table()) m[{s.id, s.parent}] = &s;
  auto it = m.find({id, parent});
  return it == m.end() ? nullptr : it->second;
}
const char* name_of(uint32_t id) {
  if (id == Void) return "Void";
  for (auto& s : table()) if (s.id == id) return s.name;
  return "?";
}
bool is_master(uint32_t id) {
  static std::set<uint32_t> m;
  if (m.empty()) for (auto& s : table()) if (s.t == M) m.insert(s.id);
  return m.count(id) != 0;
}

int id_len(uint32_t id) { return id > 0xffffff ? 4 : id > 0xffff ? 3 : id > 0xff ? 2 : 1; }
Bytes enc_id(uint32_t id) { return enc_uint(id, id_len(id)); }
Bytes enc_size(uint64_t v, int len) {
  if (!len) { len = 1; while (len < 8 && v >= (1ull << (7 * len)) - 1) ++len; }
  Bytes b = enc_uint(v, len);
  b[0] = (char)((unsigned char)b[0] | (0x80 >> (len - 1)));
  return b;
}
Bytes enc_unknown(int len) {
  Bytes b(len, '\xff');
  b[0] = (char)((0x100 >> (len - 1)) - 1);
  return b;
}
Bytes enc_uint(uint64_t v, int len) {
  if (!len) { len = 1; while (len < 8 && (v >> (8 * len))) ++len; }
  Bytes b(len, 0);
  for (int i = 0; i < len; ++i) b[len - 1 - i] = (char)(len > i && i < 8 ? (v >> (8 * i)) & 0xff : 0);
  return b;
}
Bytes enc_int(int64_t v, int len) {
  if (!len) { len = 1; while (len < 8 && (v < -(1ll << (8 * len - 1)) || v >= (1ll << (8 * len - 1)))) ++len; }
  Bytes b(len, 0);
  for (int i = 0; i < len; ++i) b[len - 1 - i] = (char)(((uint64_t)v >> (8 * i)) & 0xff);
  return b;
}
Bytes enc_float(double v, int len) {
  if (len == 0) return Bytes();
  if (len == 4) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return enc_uint(u, 4); }
  uint64_t u; memcpy(&u, &v, 8); return enc_uint(u, 8);
}
uint64_t dec_uint(const Bytes& b) {
  uint64_t v = 0;
  for (unsigned char c : b) v = (v << 8) | c;
  return v;
}
int64_t dec_int(const Bytes& b) {
  if (b.empty()) return 0;
  uint64_t v = (b[0] & 0x80) ? ~0ull : 0;
  for (unsigned char c : b) v = (v << 8) | c;
  return (int64_t)v;
}
double dec_float(const Bytes& b) {
  if (b.size() == 4) { uint32_t u = (uint32_t)dec_uint(b); float f; memcpy(&f, &u, 4); return f; }
  if (b.size() == 8) { uint64_t u = dec_uint(b); double d; memcpy(&d, &u, 8); return d; }
  return 0;
}

namespace {
// Reads id and size at *p (bounded by end).  Returns "" or a defect.
std::string read_header(const Bytes& b, uint64_t p, uint64_t end, Node* n) {
  if (p >= end) return "no element";
  unsigned char c = b[p];
  int l = 1;
  while (l <= 4 && !(c & (0x80 >> (l - 1)))) ++l;
  if (l > 4) return mc::strf("invalid element id byte %02x at %llu", c, (unsigned long long)p);
  if (p + l > end) return mc::strf("element id runs past its parent at %llu", (unsigned long long)p);
  n->id = (uint32_t)dec_uint(b.substr(p, l));
  uint64_t q = p + l;
  if (q >= end) return mc::strf("element size missing at %llu", (unsigned long long)q);
  c = b[q];
  int s = 1;
  while (s <= 8 && !(c & (0x80 >> (s - 1)))) ++s;
  if (s > 8) return mc::strf("invalid size byte at %llu", (unsigned long long)q);
  if (q + s > end) return mc::strf("element size runs past its parent at %llu", (unsigned long long)q);
  uint64_t v = dec_uint(b.substr(q, s)) & ((1ull << (7 * s)) - 1);
  n->unknown = v == (1ull << (7 * s)) - 1;
  n->size = v;
  n->size_len = s;
  n->pos = p;
  n->hdr = l + s;
  return "";
}
bool in_table(uint32_t id) {
  for (auto& s : table()) if (s.id == id) return true;
  return false;
}
std::string read_kids(const Bytes& b, uint64_t p, uint64_t end, Node* parent, bool counts, bool stop_at_upper, uint64_t* stop) {
  uint32_t pid = parent->id;
  while (p < end) {
    Node n;
    std::string e = read_header(b, p, end, &n);
    if (!e.empty()) return e + " (in " + (pid ? name_of(pid) : "document") + ")";
    const Spec* sp = n.id == Void ? nullptr : spec(n.id, pid);
    if (n.id != Void && !sp && foreign_ok && !stop_at_upper && !in_table(n.id) && !n.unknown) {
      if (n.size > end - n.body()) return "unknown element exceeds its parent";
      p = n.end();
      continue;
    }
    if (n.id != Void && !sp) {
      if (stop_at_upper && (spec(n.id, Segment) || spec(n.id, 0))) { break; }
      return mc::strf("element %x (%s) not allowed in %s at %llu", n.id, name_of(n.id), pid ? name_of(pid) : "document", (unsigned long long)p);
    }
    n.sp = sp;
    if (n.unknown) {
      if (n.id != Segment && n.id != Cluster) return mc::strf("%s has unknown size", name_of(n.id));
      uint64_t st = end;
      e = read_kids(b, n.body(), end, &n, counts, true, &st);
      if (!e.empty()) return e;
      n.size = st - n.body();
      p = st;
    } else {
      if (n.size > end - n.body())
        return mc::strf("%s at %llu: size %llu exceeds its parent (%llu left)", name_of(n.id), (unsigned long long)p,
                        (unsigned long long)n.size, (unsigned long long)(end - n.body()));
      if (sp && sp->t == M) {
        e = read_kids(b, n.body(), n.end(), &n, counts, false, nullptr);
        if (!e.empty()) return e;
      } else {
        n.data = b.substr(n.body(), n.size);
        if (sp) {
          if ((sp->t == U || sp->t == I) && (n.size > 8 || n.size < 1))
            return mc::strf("%s at %llu: integer of %llu bytes", sp->name, (unsigned long long)p, (unsigned long long)n.size);
          if (sp->t == D && n.size != 8) return mc::strf("%s: date of %llu bytes", sp->name, (unsigned long long)n.size);
          if (sp->t == F && n.size != 4 && n.size != 8)
            return mc::strf("%s: float of %llu bytes", sp->name, (unsigned long long)n.size);
        }
      }
      p = n.end();
    }
    parent->kids.push_back(std::move(n));
  }
  if (stop) *stop = p;
  if (counts) {
    for (auto& s : table()) {
      if (s.parent != pid) continue;
      int k = 0;
      for (auto& n : parent->kids) k += n.id == s.id;
      if (k < s.min) return mc::strf("%s missing in %s", s.name, pid ? name_of(pid) : "document");
      if (s.max && k > s.max) return mc::strf("%d %s elements in %s", k, s.name, pid ? name_of(pid) : "document");
    }
  }
  return "";
}
}  // namespace

std::string read_doc(const Bytes& b, Node* root, bool counts) {
  *root = Node();
  root->size = b.size();
  return read_kids(b, 0, b.size(), root, counts, false, nullptr);
}

Bytes El::enc() const {
  Bytes body = data;
  for (auto& k : kids) body += k.enc();
  return enc_id(id) + (unknown ? enc_unknown(size_len ? size_len : 1) : enc_size(body.size(), size_len)) + body;
}
El eu(uint32_t id, uint64_t v, int len) { El e(id); e.leaf = true; e.data = enc_uint(v, len); return e; }
El ei(uint32_t id, int64_t v, int len) { El e(id); e.leaf = true; e.data = enc_int(v, len); return e; }
El ef(uint32_t id, double v, int len) { El e(id); e.leaf = true; e.data = enc_float(v, len); return e; }
El es(uint32_t id, const Bytes& s) { El e(id); e.leaf = true; e.data = s; return e; }
El evoid(int n) { El e(Void); e.leaf = true; e.data = Bytes(n, 0); return e; }

std::string read_block(const Bytes& b, BlockData* o) {
  *o = BlockData();
  size_t p = 0;
  if (b.empty()) return "empty block";
  unsigned char c = b[0];
  int l = 1;
  while (l <= 8 && !(c & (0x80 >> (l - 1)))) ++l;
  if (l > 8 || b.size() < (size_t)l + 3) return "short block";
  o->track = dec_uint(b.substr(0, l)) & ((1ull << (7 * l)) - 1);
  p = l;
  o->rel = (int16_t)(((unsigned char)b[p] << 8) | (unsigned char)b[p + 1]);
  o->flags = (uint8_t)b[p + 2];
  p += 3;
  o->lacing = (o->flags >> 1) & 3;
  if (o->lacing == 0) {
    o->frames.push_back(b.substr(p));
    o->frame_off.push_back(p);
    return "";
  }
  if (p >= b.size()) return "no lace count";
  int n = (unsigned char)b[p++] + 1;
  std::vector<uint64_t> sz;
  uint64_t sum = 0;
  if (o->lacing == 1) {
    for (int i = 0; i < n - 1; ++i) {
      uint64_t s = 0;
      for (;;) {
        if (p >= b.size()) return "short xiph lace";
        unsigned char v = b[p++];
        s += v;
        if (v != 255) break;
      }
      sz.push_back(s);
      sum += s;
    }
  } else if (o->lacing == 3) {
    int64_t prev = 0;
    for (int i = 0; i < n - 1; ++i) {
      if (p >= b.size()) return "short ebml lace";
      unsigned char v = b[p];
      int l = 1;
      while (l <= 8 && !(v & (0x80 >> (l - 1)))) ++l;
      if (l > 8 || p + l > b.size()) return "bad ebml lace";
      int64_t x = (int64_t)(dec_uint(b.substr(p, l)) & ((1ull << (7 * l)) - 1));
      p += l;
      prev = i == 0 ? x : prev + x - ((1ll << (7 * l - 1)) - 1);
      if (prev < 0) return "negative lace";
      sz.push_back((uint64_t)prev);
      sum += (uint64_t)prev;
    }
  } else {
    if ((b.size() - p) % n) return "fixed lace not divisible";
    for (int i = 0; i < n - 1; ++i) { sz.push_back((b.size() - p) / n); sum += sz.back(); }
  }
  if (sum > b.size() - p) return "lace sizes exceed block";
  sz.push_back(b.size() - p - sum);
  for (uint64_t s : sz) { o->frames.push_back(b.substr(p, s)); o->frame_off.push_back(p); p += s; }
  return "";
}
Bytes enc_block(uint64_t track, int16_t rel, uint8_t flags, int lacing, const std::vector<Bytes>& fr) {
  Bytes b = enc_size(track);
  b += (char)((uint16_t)rel >> 8);
  b += (char)(rel & 0xff);
  b += (char)(flags | (lacing << 1));
  if (lacing) {
    b += (char)(fr.size() - 1);
    if (lacing == 1) {
      for (size_t i = 0; i + 1 < fr.size(); ++i) {
        size_t s = fr[i].size();
        while (s >= 255) { b += '\xff'; s -= 255; }
        b += (char)s;
      }
    } else if (lacing == 3) {
      for (size_t i = 0; i + 1 < fr.size(); ++i) {
        if (i == 0) b += enc_size(fr[0].size());
        else {
          int64_t d = (int64_t)fr[i].size() - (int64_t)fr[i - 1].size();
          int l = 1;
          while (l < 8 && (d < -((1ll << (7 * l - 1)) - 1) || d > (1ll << (7 * l - 1)) - 1)) ++l;
          Bytes e = enc_uint((uint64_t)(d + ((1ll << (7 * l - 1)) - 1)), l);
          e[0] = (char)((unsigned char)e[0] | (0x80 >> (l - 1)));
          b += e;
        }
      }
    }
  }
  for (auto& f : fr) b += f;
  return b;
}
}  // namespace eb
