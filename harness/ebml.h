// Independent EBML/Matroska (WebM subset) reference: element table, strict reader, writer.
// Written from the specification; shares no code with the library.
#ifndef VERIF_EBML_H_
#define VERIF_EBML_H_
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "mc.h"

namespace eb {
typedef std::string Bytes;
enum Type { M, U, I, F, S, B, D };
struct Spec {
  uint32_t id;
  const char* name;
  Type t;
  uint32_t parent;  // 0 = document level
  int min, max;     // occurrences inside the parent (max 0 = unbounded)
};
enum : uint32_t {
  EBML = 0x1A45DFA3, EBMLVersion = 0x4286, EBMLReadVersion = 0x42F7, EBMLMaxIDLength = 0x42F2,
  EBMLMaxSizeLength = 0x42F3, DocType = 0x4282, DocTypeVersion = 0x4287, DocTypeReadVersion = 0x4285,
  Void = 0xEC, Segment = 0x18538067, SeekHead = 0x114D9B74, Seek = 0x4DBB, SeekID = 0x53AB,
  SeekPosition = 0x53AC, Info = 0x1549A966, TimecodeScale = 0x2AD7B1, Duration = 0x4489,
  DateUTC = 0x4461, Title = 0x7BA9, MuxingApp = 0x4D80, WritingApp = 0x5741, Cluster = 0x1F43B675,
  Timecode = 0xE7, PrevSize = 0xAB, SimpleBlock = 0xA3, BlockGroup = 0xA0, Block = 0xA1,
  BlockVirtual = 0xA2, BlockAdditions = 0x75A1, BlockMore = 0xA6, BlockAddID = 0xEE,
  BlockAdditional = 0xA5, BlockDuration = 0x9B, ReferenceBlock = 0xFB, DiscardPadding = 0x75A2,
  Slices = 0x8E, TimeSlice = 0xE8, LaceNumber = 0xCC, Tracks = 0x1654AE6B, TrackEntry = 0xAE,
  TrackNumber = 0xD7, TrackUID = 0x73C5, TrackType = 0x83, FlagEnabled = 0xB9, FlagDefault = 0x88,
  FlagForced = 0x55AA, FlagLacing = 0x9C, DefaultDuration = 0x23E383, MaxBlockAdditionID = 0x55EE,
  Name = 0x536E, Language = 0x22B59C, CodecID = 0x86, CodecPrivate = 0x63A2, CodecName = 0x258688,
  CodecDelay = 0x56AA, SeekPreRoll = 0x56BB, Video = 0xE0, FlagInterlaced = 0x9A, StereoMode = 0x53B8,
  AlphaMode = 0x53C0, PixelWidth = 0xB0, PixelHeight = 0xBA, PixelCropBottom = 0x54AA,
  PixelCropTop = 0x54BB, PixelCropLeft = 0x54CC, PixelCropRight = 0x54DD, DisplayWidth = 0x54B0,
  DisplayHeight = 0x54BA, DisplayUnit = 0x54B2, AspectRatioType = 0x54B3, ColourSpace = 0x2EB524,
  FrameRate = 0x2383E3, Colour = 0x55B0, MatrixCoefficients = 0x55B1, BitsPerChannel = 0x55B2,
  ChromaSubsamplingHorz = 0x55B3, ChromaSubsamplingVert = 0x55B4, CbSubsamplingHorz = 0x55B5,
  CbSubsamplingVert = 0x55B6, ChromaSitingHorz = 0x55B7, ChromaSitingVert = 0x55B8, Range = 0x55B9,
  TransferCharacteristics = 0x55BA, Primaries = 0x55BB, MaxCLL = 0x55BC, MaxFALL = 0x55BD,
  MasteringMetadata = 0x55D0, PrimaryRChromaticityX = 0x55D1, PrimaryRChromaticityY = 0x55D2,
  PrimaryGChromaticityX = 0x55D3, PrimaryGChromaticityY = 0x55D4, PrimaryBChromaticityX = 0x55D5,
  PrimaryBChromaticityY = 0x55D6, WhitePointChromaticityX = 0x55D7, WhitePointChromaticityY = 0x55D8,
  LuminanceMax = 0x55D9, LuminanceMin = 0x55DA, Projection = 0x7670, ProjectionType = 0x7671,
  ProjectionPrivate = 0x7672, ProjectionPoseYaw = 0x7673, ProjectionPosePitch = 0x7674,
  ProjectionPoseRoll = 0x7675, Audio = 0xE1, SamplingFrequency = 0xB5, OutputSamplingFrequency = 0x78B5,
  Channels = 0x9F, BitDepth = 0x6264, ContentEncodings = 0x6D80, ContentEncoding = 0x6240,
  ContentEncodingOrder = 0x5031, ContentEncodingScope = 0x5032, ContentEncodingType = 0x5033,
  ContentCompression = 0x5034, ContentCompAlgo = 0x4254, ContentCompSettings = 0x4255,
  ContentEncryption = 0x5035, ContentEncAlgo = 0x47E1, ContentEncKeyID = 0x47E2,
  ContentSignature = 0x47E3, ContentSigKeyID = 0x47E4, ContentSigAlgo = 0x47E5, ContentSigHashAlgo = 0x47E6,
  ContentEncAESSettings = 0x47E7, AESSettingsCipherMode = 0x47E8, Cues = 0x1C53BB6B, CuePoint = 0xBB,
  CueTime = 0xB3, CueTrackPositions = 0xB7, CueTrack = 0xF7, CueClusterPosition = 0xF1,
  CueRelativePosition = 0xF0, CueDuration = 0xB2, CueBlockNumber = 0x5378, Chapters = 0x1043A770,
  EditionEntry = 0x45B9, ChapterAtom = 0xB6, ChapterUID = 0x73C4, ChapterStringUID = 0x5654,
  ChapterTimeStart = 0x91, ChapterTimeEnd = 0x92, ChapterDisplay = 0x80, ChapString = 0x85,
  ChapLanguage = 0x437C, ChapCountry = 0x437E, Tags = 0x1254C367, Tag = 0x7373, Targets = 0x63C0,
  TargetTypeValue = 0x68CA, TargetType = 0x63CA, TagTrackUID = 0x63C5, SimpleTag = 0x67C8,
  TagName = 0x45A3, TagLanguage = 0x447A, TagDefault = 0x4484, TagString = 0x4487, TagBinary = 0x4485,
};
const std::vector<Spec>& table();
const Spec* spec(uint32_t id, uint32_t parent);  // 0 if id is not allowed inside parent
const char* name_of(uint32_t id);
bool is_master(uint32_t id);

// ---- primitives (specification arithmetic) ----
int id_len(uint32_t id);
Bytes enc_id(uint32_t id);
Bytes enc_size(uint64_t v, int len = 0);   // len 0 = shortest
Bytes enc_unknown(int len);
Bytes enc_uint(uint64_t v, int len = 0);   // big endian, shortest (>=1)
Bytes enc_int(int64_t v, int len = 0);
Bytes enc_float(double v, int len);        // 4 or 8
uint64_t dec_uint(const Bytes& b);
int64_t dec_int(const Bytes& b);
double dec_float(const Bytes& b);

struct Node {
  uint32_t id = 0;
  const Spec* sp = nullptr;
  uint64_t pos = 0;      // first byte of the id
  uint64_t hdr = 0;      // bytes of id + size
  uint64_t size = 0;     // content bytes
  bool unknown = false;
  int size_len = 0;
  std::vector<Node> kids;
  Bytes data;
  const Node* find(uint32_t id) const {
    for (auto& k : kids) if (k.id == id) return &k;
    return nullptr;
  }
  std::vector<const Node*> all(uint32_t id) const {
    std::vector<const Node*> v;
    for (auto& k : kids) if (k.id == id) v.push_back(&k);
    return v;
  }
  uint64_t u() const { return dec_uint(data); }
  int64_t i() const { return dec_int(data); }
  double f() const { return dec_float(data); }
  uint64_t end() const { return pos + hdr + size; }
  uint64_t body() const { return pos + hdr; }
};
// Strict read of a whole document.  Returns "" or a description of the first defect.
extern bool foreign_ok;   // read_doc passes over elements not in the table (inside known-size parents)
std::string read_doc(const Bytes& b, Node* root, bool check_counts = true);

// ---- writer ----
struct El {
  uint32_t id = 0;
  std::vector<El> kids;
  Bytes data;
  bool leaf = false;
  int size_len = 0;     // 0 shortest
  bool unknown = false;
  El() {}
  El(uint32_t i) : id(i) {}
  El(uint32_t i, std::vector<El> k) : id(i), kids(std::move(k)) {}
  Bytes enc() const;
  El& add(El e) { kids.push_back(std::move(e)); return *this; }
};
El eu(uint32_t id, uint64_t v, int len = 0);
El ei(uint32_t id, int64_t v, int len = 0);
El ef(uint32_t id, double v, int len = 8);
El es(uint32_t id, const Bytes& s);
El evoid(int n);  // content bytes

// ---- blocks ----
struct BlockData {
  uint64_t track = 0;
  int16_t rel = 0;
  uint8_t flags = 0;
  int lacing = 0;
  std::vector<Bytes> frames;
  std::vector<uint64_t> frame_off;  // within the block content
};
std::string read_block(const Bytes& b, BlockData* out);
// lacing: 0 none 1 xiph 3 ebml 2 fixed
Bytes enc_block(uint64_t track, int16_t rel, uint8_t flags, int lacing, const std::vector<Bytes>& frames);
}  // namespace eb
#endif
