#include "wpref.h"
#include <cassert>
#include <cmath>
namespace wp {
namespace {
struct Field { uint32_t id; char k; const char* def; bool rep; };  // k: u i f s b(inary) B(ool) d I(d) m S(imple block) K(block) V(irtual)
const std::vector<Field>& fields(uint32_t id) {
  using namespace eb;
  static const std::map<uint32_t, std::vector<Field>> t = {
      {BlockMore, {{BlockAddID, 'u', "1"}, {BlockAdditional, 'b', ""}}},
      {BlockAdditions, {{eb::BlockMore, 'm', "", true}}},
      {TimeSlice, {{LaceNumber, 'u', "0"}}},
      {Slices, {{eb::TimeSlice, 'm', "", true}}},
      {BlockGroup, {{eb::Block, 'K', "B0,0,0,0,0"}, {BlockVirtual, 'V', "V0,0"}, {eb::BlockAdditions, 'm', "{[];}"}, {BlockDuration, 'u', "0"},
                    {ReferenceBlock, 'i', "", true}, {DiscardPadding, 'i', "0"}, {eb::Slices, 'm', "{[];}"}}},
      {Cluster, {{Timecode, 'u', "0"}, {PrevSize, 'u', "0"}, {eb::SimpleBlock, 'S', "", true}, {eb::BlockGroup, 'm', "", true}}},
      {EBML, {{EBMLVersion, 'u', "1"}, {EBMLReadVersion, 'u', "1"}, {EBMLMaxIDLength, 'u', "4"}, {EBMLMaxSizeLength, 'u', "8"},
              {DocType, 's', "matroska"}, {DocTypeVersion, 'u', "1"}, {DocTypeReadVersion, 'u', "1"}}},
      {Info, {{TimecodeScale, 'u', "1000000"}, {Duration, 'f', "0"}, {DateUTC, 'd', "0"}, {Title, 's', ""}, {MuxingApp, 's', ""}, {WritingApp, 's', ""}}},
      {Seek, {{SeekID, 'I', "0"}, {SeekPosition, 'u', "0"}}},
      {Audio, {{SamplingFrequency, 'f', "8000"}, {OutputSamplingFrequency, 'f', "8000"}, {Channels, 'u', "1"}, {BitDepth, 'u', "0"}}},
      {MasteringMetadata, {{PrimaryRChromaticityX, 'f', "0"}, {PrimaryRChromaticityY, 'f', "0"}, {PrimaryGChromaticityX, 'f', "0"}, {PrimaryGChromaticityY, 'f', "0"},
                           {PrimaryBChromaticityX, 'f', "0"}, {PrimaryBChromaticityY, 'f', "0"}, {WhitePointChromaticityX, 'f', "0"},
                           {WhitePointChromaticityY, 'f', "0"}, {LuminanceMax, 'f', "0"}, {LuminanceMin, 'f', "0"}}},
      {Colour, {{eb::MatrixCoefficients, 'u', "2"}, {BitsPerChannel, 'u', "0"}, {ChromaSubsamplingHorz, 'u', "0"}, {ChromaSubsamplingVert, 'u', "0"},
                {CbSubsamplingHorz, 'u', "0"}, {CbSubsamplingVert, 'u', "0"}, {ChromaSitingHorz, 'u', "0"}, {ChromaSitingVert, 'u', "0"}, {eb::Range, 'u', "0"},
                {eb::TransferCharacteristics, 'u', "2"}, {eb::Primaries, 'u', "2"}, {MaxCLL, 'u', "0"}, {MaxFALL, 'u', "0"}, {eb::MasteringMetadata, 'm', ""}}},
      {Projection, {{eb::ProjectionType, 'u', "0"}, {ProjectionPrivate, 'b', ""}, {ProjectionPoseYaw, 'f', "0"}, {ProjectionPosePitch, 'f', "0"}, {ProjectionPoseRoll, 'f', "0"}}},
      {Video, {{eb::FlagInterlaced, 'u', "0"}, {eb::StereoMode, 'u', "0"}, {AlphaMode, 'u', "0"}, {PixelWidth, 'u', "0"}, {PixelHeight, 'u', "0"},
               {PixelCropBottom, 'u', "0"}, {PixelCropTop, 'u', "0"}, {PixelCropLeft, 'u', "0"}, {PixelCropRight, 'u', "0"}, {DisplayWidth, 'u', "0"},
               {DisplayHeight, 'u', "0"}, {eb::DisplayUnit, 'u', "0"}, {eb::AspectRatioType, 'u', "0"}, {FrameRate, 'f', "0"}, {eb::Colour, 'm', ""}, {eb::Projection, 'm', ""}}},
      {ContentEncAESSettings, {{eb::AESSettingsCipherMode, 'u', "1"}}},
      {ContentEncryption, {{eb::ContentEncAlgo, 'u', "0"}, {ContentEncKeyID, 'b', ""}, {eb::ContentEncAESSettings, 'm', ""}}},
      {ContentEncoding, {{ContentEncodingOrder, 'u', "0"}, {ContentEncodingScope, 'u', "1"}, {eb::ContentEncodingType, 'u', "0"}, {eb::ContentEncryption, 'm', ""}}},
      {ContentEncodings, {{eb::ContentEncoding, 'm', "", true}}},
      {TrackEntry, {{TrackNumber, 'u', "0"}, {TrackUID, 'u', "0"}, {eb::TrackType, 'u', "0"}, {FlagEnabled, 'B', "1"}, {FlagDefault, 'B', "1"}, {FlagForced, 'B', "0"},
                    {FlagLacing, 'B', "1"}, {DefaultDuration, 'u', "0"}, {Name, 's', ""}, {Language, 's', "eng"}, {CodecID, 's', ""}, {CodecPrivate, 'b', ""},
                    {CodecName, 's', ""}, {CodecDelay, 'u', "0"}, {SeekPreRoll, 'u', "0"}, {eb::Video, 'm', ""}, {eb::Audio, 'm', ""}, {eb::ContentEncodings, 'm', ""}}},
      {CueTrackPositions, {{CueTrack, 'u', "0"}, {CueClusterPosition, 'u', "0"}, {CueRelativePosition, 'u', "0"}, {CueDuration, 'u', "0"}, {CueBlockNumber, 'u', "1"}}},
      {CuePoint, {{CueTime, 'u', "0"}, {eb::CueTrackPositions, 'm', "", true}}},
      {ChapterDisplay, {{ChapString, 's', ""}, {ChapLanguage, 's', "eng", true}, {ChapCountry, 's', "", true}}},
      {ChapterAtom, {{ChapterUID, 'u', "0"}, {ChapterStringUID, 's', ""}, {ChapterTimeStart, 'u', "0"}, {ChapterTimeEnd, 'u', "0"}, {eb::ChapterDisplay, 'm', "", true}, {eb::ChapterAtom, 'm', "", true}}},
      {EditionEntry, {{eb::ChapterAtom, 'm', "", true}}},
      {SimpleTag, {{TagName, 's', ""}, {TagLanguage, 's', "und"}, {TagDefault, 'B', "1"}, {TagString, 's', ""}, {TagBinary, 'b', ""}, {eb::SimpleTag, 'm', "", true}}},
      {Targets, {{TargetTypeValue, 'u', "50"}, {TargetType, 's', ""}, {TagTrackUID, 'u', "", true}}},
      {Tag, {{eb::Targets, 'm', ""}, {eb::SimpleTag, 'm', "", true}}},
      // plain containers
      {Segment, {{Chapters, 'c'}, {eb::Cluster, 'm'}, {Cues, 'c'}, {eb::Info, 'm'}, {SeekHead, 'c'}, {Tags, 'c'}, {Tracks, 'c'}}},
      {SeekHead, {{eb::Seek, 'm'}}}, {Tracks, {{eb::TrackEntry, 'm'}}}, {Cues, {{eb::CuePoint, 'm'}}}, {Chapters, {{eb::EditionEntry, 'm'}}}, {Tags, {{eb::Tag, 'm'}}},
  };
  static const std::vector<Field> none;
  auto it = t.find(id);
  return it == t.end() ? none : it->second;
}
}  // namespace
}  // namespace wp
using namespace webm;
using mc::strf;

namespace wp {
bool parsing_error(int c) { return c <= -1025 && c >= -2048; }

// ---------------------------------------------------------------- reader
Status ScriptReader::go(uint64_t n, uint8_t* buf, uint64_t* got) {
  *got = 0;
  if (n == 0 && breach.empty()) breach = strf("asked the reader for 0 bytes at %llu", (unsigned long long)pos);
  if (n == 0) return ret(Status::kOkCompleted);
  if (max_pos != UNK && breach.empty() && n > max_pos - pos && !(n == 1 && pos == max_pos))
    breach = strf("asked the reader for %llu bytes at %llu, beyond the end %llu of what the document declares",
                  (unsigned long long)n, (unsigned long long)pos, (unsigned long long)max_pos);
  Answer a;
  if (script) a = script(calls, n);
  ++calls;
  if (a.k == Answer::BLOCK) return ret(Status::kWouldBlock);
  if (a.k == Answer::ERR) return ret(a.code);
  uint64_t m = n;
  if (a.k == Answer::PART && a.n >= 1 && a.n < n) m = a.n;
  if (pos >= b.size()) return ret(Status::kEndOfFile);
  m = std::min<uint64_t>(m, b.size() - pos);
  if (buf) memcpy(buf, b.data() + pos, m);
  pos += m;
  *got = m;
  return ret(m == n ? Status::kOkCompleted : Status::kOkPartial);
}

// ---------------------------------------------------------------- text
namespace {
void num(std::string& o, uint64_t v) {
  char t[24];
  int i = 24;
  do { t[--i] = '0' + v % 10; v /= 10; } while (v);
  o.append(t + i, 24 - i);
}
void snum(std::string& o, int64_t v) {
  if (v < 0) { o += '-'; num(o, 0 - (uint64_t)v); } else num(o, (uint64_t)v);
}
void hexs(std::string& o, const void* p, size_t n) {
  static const char d[] = "0123456789abcdef";
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { o += d[b[i] >> 4]; o += d[b[i] & 15]; }
}
void flt(std::string& o, double v) {
  if (std::isnan(v)) { o += "nan"; return; }
  hexs(o, &v, 8);
}
void meta(std::string& o, uint32_t id, uint64_t hs, uint64_t size, uint64_t pos) {
  char t[12];
  int n = snprintf(t, sizeof t, "%x", id);
  o.append(t, n);
  o += " h"; if (hs == (uint64_t)kUnknownHeaderSize) o += '?'; else num(o, hs);
  o += " s"; if (size == kUnknownElementSize) o += '?'; else num(o, size);
  o += " @"; if (pos == kUnknownElementPosition) o += '?'; else num(o, pos);
}
std::string head(const char* ev, const ElementMetadata& m) {
  std::string o;
  o.reserve(128);
  o += ev;
  o += ' ';
  meta(o, (uint32_t)m.id, m.header_size, m.size, m.position);
  return o;
}

// ---- dump of the parser's own value types; fields in the order of the reference table
void val(std::string& o, uint64_t v) { num(o, v); }
void val(std::string& o, int64_t v) { snum(o, v); }
void val(std::string& o, double v) { flt(o, v); }
void val(std::string& o, bool v) { o += v ? '1' : '0'; }
void val(std::string& o, const std::string& v) { hexs(o, v.data(), v.size()); }
void val(std::string& o, const std::vector<uint8_t>& v) { hexs(o, v.data(), v.size()); }
template <typename T> typename std::enable_if<std::is_enum<T>::value>::type val(std::string& o, T v) { num(o, (uint64_t)v); }
void val(std::string& o, const Block& v);
void val(std::string& o, const SimpleBlock& v);
void val(std::string& o, const VirtualBlock& v);
#define D(T) void val(std::string& o, const T& v);
D(BlockMore) D(BlockAdditions) D(TimeSlice) D(Slices) D(BlockGroup) D(Cluster) D(Ebml) D(Info) D(Seek) D(Audio) D(MasteringMetadata)
D(Colour) D(Projection) D(Video) D(ContentEncAesSettings) D(ContentEncryption) D(ContentEncoding) D(ContentEncodings) D(TrackEntry)
D(CueTrackPositions) D(CuePoint) D(ChapterDisplay) D(ChapterAtom) D(EditionEntry) D(SimpleTag) D(Targets) D(Tag)
#undef D
template <typename T> void el(std::string& o, const Element<T>& e) {
  if (e.is_present()) o += '+';
  val(o, e.value());
  o += ';';
}
template <typename T> void el(std::string& o, const std::vector<Element<T>>& v) {
  o += '[';
  for (auto& e : v) el(o, e);
  o += "];";
}
template <typename... A> void els(std::string& o, const A&... a) {
  o += '{';
  int x[] = {0, (el(o, a), 0)...};
  (void)x;
  o += '}';
}
void val(std::string& o, const Block& v) {
  o += strf("B%llu,%d,%d,%d,%d", (unsigned long long)v.track_number, v.num_frames, v.timecode, (int)v.lacing, v.is_visible);
}
void val(std::string& o, const SimpleBlock& v) {
  val(o, (const Block&)v);
  o += v.is_key_frame ? ",k" : ",-";
  o += v.is_discardable ? "d" : "-";
}
void val(std::string& o, const VirtualBlock& v) { o += strf("V%llu,%d", (unsigned long long)v.track_number, v.timecode); }
void val(std::string& o, const BlockMore& v) { els(o, v.id, v.data); }
void val(std::string& o, const BlockAdditions& v) { els(o, v.block_mores); }
void val(std::string& o, const TimeSlice& v) { els(o, v.lace_number); }
void val(std::string& o, const Slices& v) { els(o, v.slices); }
void val(std::string& o, const BlockGroup& v) { els(o, v.block, v.virtual_block, v.additions, v.duration, v.references, v.discard_padding, v.slices); }
void val(std::string& o, const Cluster& v) { els(o, v.timecode, v.previous_size, v.simple_blocks, v.block_groups); }
void val(std::string& o, const Ebml& v) {
  els(o, v.ebml_version, v.ebml_read_version, v.ebml_max_id_length, v.ebml_max_size_length, v.doc_type, v.doc_type_version, v.doc_type_read_version);
}
void val(std::string& o, const Info& v) { els(o, v.timecode_scale, v.duration, v.date_utc, v.title, v.muxing_app, v.writing_app); }
void val(std::string& o, const Seek& v) { els(o, v.id, v.position); }
void val(std::string& o, const Audio& v) { els(o, v.sampling_frequency, v.output_frequency, v.channels, v.bit_depth); }
void val(std::string& o, const MasteringMetadata& v) {
  els(o, v.primary_r_chromaticity_x, v.primary_r_chromaticity_y, v.primary_g_chromaticity_x, v.primary_g_chromaticity_y,
      v.primary_b_chromaticity_x, v.primary_b_chromaticity_y, v.white_point_chromaticity_x, v.white_point_chromaticity_y, v.luminance_max, v.luminance_min);
}
void val(std::string& o, const Colour& v) {
  els(o, v.matrix_coefficients, v.bits_per_channel, v.chroma_subsampling_x, v.chroma_subsampling_y, v.cb_subsampling_x, v.cb_subsampling_y,
      v.chroma_siting_x, v.chroma_siting_y, v.range, v.transfer_characteristics, v.primaries, v.max_cll, v.max_fall, v.mastering_metadata);
}
void val(std::string& o, const Projection& v) { els(o, v.type, v.projection_private, v.pose_yaw, v.pose_pitch, v.pose_roll); }
void val(std::string& o, const Video& v) {
  els(o, v.interlaced, v.stereo_mode, v.alpha_mode, v.pixel_width, v.pixel_height, v.pixel_crop_bottom, v.pixel_crop_top, v.pixel_crop_left,
      v.pixel_crop_right, v.display_width, v.display_height, v.display_unit, v.aspect_ratio_type, v.frame_rate, v.colour, v.projection);
}
void val(std::string& o, const ContentEncAesSettings& v) { els(o, v.aes_settings_cipher_mode); }
void val(std::string& o, const ContentEncryption& v) { els(o, v.algorithm, v.key_id, v.aes_settings); }
void val(std::string& o, const ContentEncoding& v) { els(o, v.order, v.scope, v.type, v.encryption); }
void val(std::string& o, const ContentEncodings& v) { els(o, v.encodings); }
void val(std::string& o, const TrackEntry& v) {
  els(o, v.track_number, v.track_uid, v.track_type, v.is_enabled, v.is_default, v.is_forced, v.uses_lacing, v.default_duration, v.name, v.language,
      v.codec_id, v.codec_private, v.codec_name, v.codec_delay, v.seek_pre_roll, v.video, v.audio, v.content_encodings);
}
void val(std::string& o, const CueTrackPositions& v) { els(o, v.track, v.cluster_position, v.relative_position, v.duration, v.block_number); }
void val(std::string& o, const CuePoint& v) { els(o, v.time, v.cue_track_positions); }
void val(std::string& o, const ChapterDisplay& v) { els(o, v.string, v.languages, v.countries); }
void val(std::string& o, const ChapterAtom& v) { els(o, v.uid, v.string_uid, v.time_start, v.time_end, v.displays, v.atoms); }
void val(std::string& o, const EditionEntry& v) { els(o, v.atoms); }
void val(std::string& o, const SimpleTag& v) { els(o, v.name, v.language, v.is_default, v.string, v.binary, v.tags); }
void val(std::string& o, const Targets& v) { els(o, v.type_value, v.type, v.track_uids); }
void val(std::string& o, const Tag& v) { els(o, v.targets, v.tags); }
template <typename T> std::string withv(const char* ev, const ElementMetadata& m, const T& v) {
  std::string o = head(ev, m);
  o += ' ';
  val(o, v);
  return o;
}
}  // namespace

// ---------------------------------------------------------------- callback
Status LogCb::finish(std::string line, Action* a) {
  int left = 0;
  auto it = pause.find(events);
  if (it != pause.end()) left = it->second;
  if (!pending.empty() && pending != line && breach.empty())
    breach = "after a pause the notification came back as\n  " + line + "\ninstead of\n  " + pending;
  if (left > 0) {
    it->second = left - 1;
    pending = line;
    ++pauses;
    if (a) *a = Action::kSkip;  // the answer of a paused call must not count
    return Status(pause_code);
  }
  pending.clear();
  if (a) {
    action_event.push_back(events);
    bool s = pol && pol->skip.count(actions);
    ++actions;
    *a = s ? Action::kSkip : Action::kRead;
    if (s) line += " SKIP";
  }
  ++events;
  log += line;
  log += '\n';
  return Status(Status::kOkCompleted);
}
Status LogCb::body(std::string line, Reader* r, std::uint64_t* n) {
  if (cur_event_ != events || cur_ != line) {
    if (cur_event_ == events && breach.empty()) breach = "unfinished data came back as\n  " + line + "\ninstead of\n  " + cur_;
    cur_event_ = events;
    cur_ = line;
    data_.clear();
  }
  while (*n > 0) {
    uint64_t want = chunk ? std::min<uint64_t>(chunk, *n) : *n;
    if (want > (1u << 20)) want = 1u << 20;
    Bytes t(want, 0);
    uint64_t got = 0;
    Status s = r->Read(want, (uint8_t*)&t[0], &got);
    data_.append(t, 0, got);
    *n -= got;
    if (s.code != Status::kOkCompleted && s.code != Status::kOkPartial) return s;
    if (chunk_code && *n > 0) { ++pauses; return Status(chunk_code); }
  }
  std::string full = line;
  full += " =";
  hexs(full, data_.data(), data_.size());
  return finish(full, nullptr);
}
Status LogCb::OnElementBegin(const ElementMetadata& m, Action* a) { return finish(head("begin", m), a); }
Status LogCb::OnUnknownElement(const ElementMetadata& m, Reader* r, std::uint64_t* n) { return body(head("unknown", m), r, n); }
Status LogCb::OnEbml(const ElementMetadata& m, const Ebml& v) { return finish(withv("ebml", m, v), nullptr); }
Status LogCb::OnVoid(const ElementMetadata& m, Reader* r, std::uint64_t* n) { return body(head("void", m), r, n); }
Status LogCb::OnSegmentBegin(const ElementMetadata& m, Action* a) { return finish(head("segment", m), a); }
Status LogCb::OnSeek(const ElementMetadata& m, const Seek& v) { return finish(withv("seek", m, v), nullptr); }
Status LogCb::OnInfo(const ElementMetadata& m, const Info& v) { return finish(withv("info", m, v), nullptr); }
Status LogCb::OnClusterBegin(const ElementMetadata& m, const Cluster& v, Action* a) { return finish(withv("cluster", m, v), a); }
Status LogCb::OnSimpleBlockBegin(const ElementMetadata& m, const SimpleBlock& v, Action* a) { return finish(withv("simpleblock", m, v), a); }
Status LogCb::OnSimpleBlockEnd(const ElementMetadata& m, const SimpleBlock& v) { return finish(withv("simpleblockend", m, v), nullptr); }
Status LogCb::OnBlockGroupBegin(const ElementMetadata& m, Action* a) { return finish(head("blockgroup", m), a); }
Status LogCb::OnBlockBegin(const ElementMetadata& m, const Block& v, Action* a) { return finish(withv("block", m, v), a); }
Status LogCb::OnBlockEnd(const ElementMetadata& m, const Block& v) { return finish(withv("blockend", m, v), nullptr); }
Status LogCb::OnBlockGroupEnd(const ElementMetadata& m, const BlockGroup& v) { return finish(withv("blockgroupend", m, v), nullptr); }
Status LogCb::OnFrame(const FrameMetadata& m, Reader* r, std::uint64_t* n) {
  std::string o = head("frame", m.parent_element);
  o += " f@"; num(o, m.position);
  o += " n"; num(o, m.size);
  return body(o, r, n);
}
Status LogCb::OnClusterEnd(const ElementMetadata& m, const Cluster& v) { return finish(withv("clusterend", m, v), nullptr); }
Status LogCb::OnTrackEntry(const ElementMetadata& m, const TrackEntry& v) { return finish(withv("track", m, v), nullptr); }
Status LogCb::OnCuePoint(const ElementMetadata& m, const CuePoint& v) { return finish(withv("cue", m, v), nullptr); }
Status LogCb::OnEditionEntry(const ElementMetadata& m, const EditionEntry& v) { return finish(withv("edition", m, v), nullptr); }
Status LogCb::OnTag(const ElementMetadata& m, const Tag& v) { return finish(withv("tag", m, v), nullptr); }
Status LogCb::OnSegmentEnd(const ElementMetadata& m) { return finish(head("segmentend", m), nullptr); }

RunOut feed_all(WebmParser& p, LogCb& cb, Reader& r, int max_feeds) {
  RunOut o;
  while (o.feeds < max_feeds) {
    ++o.feeds;
    Status s = p.Feed(&cb, &r);
    o.status = s.code;
    if (s.code != Status::kWouldBlock && s.code != Status::kOkPartial) break;
  }
  mc::tick(o.feeds);
  return o;
}
std::string diff(const std::string& w, const std::string& g) {
  size_t i = 0, line = 0, last = 0;
  while (i < w.size() && i < g.size() && w[i] == g[i]) { if (w[i] == '\n') { ++line; last = i + 1; } ++i; }
  auto ln = [&](const std::string& s) {
    if (last >= s.size()) return std::string("(nothing)");
    size_t e = s.find('\n', last);
    return s.substr(last, (e == std::string::npos ? s.size() : e) - last).substr(0, 900);
  };
  return strf("at notification %zu:\n  expected: ", line) + ln(w) + "\n  reported: " + ln(g);
}

// ---------------------------------------------------------------- reference
namespace {
bool plain(uint32_t id) {
  return id == eb::Segment || id == eb::SeekHead || id == eb::Tracks || id == eb::Cues || id == eb::Chapters || id == eb::Tags;
}
const Field* field(uint32_t parent, uint32_t id) {
  for (auto& f : fields(parent)) if (f.id == id) return &f;
  return nullptr;
}
std::string def_leaf(char k, const char* d) {
  std::string o;
  if (k == 'f') flt(o, atof(d));
  else if (k == 's' || k == 'b') hexs(o, d, strlen(d));
  else o = d;
  return o;
}
// Values collected for one master element.
struct Val {
  uint32_t id = 0;
  std::map<uint32_t, std::vector<std::string>> v;  // present values
  std::map<uint32_t, uint64_t> sizes;              // encoded size of the last occurrence
  std::string dump() const {
    std::string o = "{";
    std::map<uint32_t, std::string> fix;
    auto scalar = [&](uint32_t f, const char* d, char k) {
      auto it = v.find(f);
      return it == v.end() ? def_leaf(k, d) : it->second.back();
    };
    auto missing = [&](uint32_t f) { auto it = sizes.find(f); return it == sizes.end() || it->second == 0; };
    if (id == eb::Video && !shallow) {
      if (missing(eb::DisplayWidth)) fix[eb::DisplayWidth] = scalar(eb::PixelWidth, "0", 'u');
      if (missing(eb::DisplayHeight)) fix[eb::DisplayHeight] = scalar(eb::PixelHeight, "0", 'u');
    }
    if (id == eb::Audio && !shallow && missing(eb::OutputSamplingFrequency))
      fix[eb::OutputSamplingFrequency] = scalar(eb::SamplingFrequency, "8000", 'f');
    for (auto& f : fields(id)) {
      auto it = v.find(f.id);
      if (f.rep) {
        o += '[';
        if (it == v.end()) { if (f.def && *f.def) o += def_leaf(f.k, f.def) + ";"; }
        else for (auto& x : it->second) o += "+" + x + ";";
        o += "];";
      } else {
        bool p = it != v.end();
        if (p) o += '+';
        if (fix.count(f.id)) o += fix[f.id];
        else if (p) o += it->second.back();
        else if (f.k == 'm') { Val d; d.id = f.id; d.shallow = true; o += d.dump(); }
        else o += def_leaf(f.k, f.def);
        o += ';';
      }
    }
    return o + "}";
  }
  bool shallow = false;   // an absent element: plain defaults
};

struct Stop { int code; };
struct Hdr { uint32_t id; uint64_t hs, size, pos; };

struct Ref {
  const Bytes& b;
  const Policy& pol;
  Pred out;
  uint64_t p = 0;
  int mute = 0;  // inside a skipped element
  Ref(const Bytes& x, const Policy& y) : b(x), pol(y) {}

  bool emit(std::string line, bool action) {  // returns true if skipped
    if (mute) return true;
    bool s = false;
    if (action) {
      out.action_event.push_back(out.events);
      s = pol.skip.count(out.actions) != 0;
      ++out.actions;
      if (s) line += " SKIP";
    }
    ++out.events;
    out.log += line;
    out.log += '\n';
    return s;
  }
  std::string h(const char* ev, const Hdr& m) {
    std::string o = ev;
    o += ' ';
    meta(o, m.id, m.hs, m.size, m.pos);
    return o;
  }
  uint8_t byte() {
    if (p >= b.size()) throw Stop{Status::kEndOfFile};
    return (uint8_t)b[p++];
  }
  void need(uint64_t n) {
    if (n > b.size() - p) { p = b.size(); throw Stop{Status::kEndOfFile}; }
  }
  Hdr header() {
    Hdr m;
    m.pos = p;
    uint8_t f = byte();
    if (!(f & 0xf0)) throw Stop{Status::kInvalidElementId};
    int len = f & 0x80 ? 1 : f & 0x40 ? 2 : f & 0x20 ? 3 : 4;
    m.id = f;
    for (int i = 1; i < len; ++i) m.id = m.id << 8 | byte();
    m.size = vint(Status::kInvalidElementSize, true);
    m.hs = p - m.pos;
    return m;
  }
  uint64_t vint(int err, bool unk, int* lenp = nullptr) {
    uint8_t f = byte();
    if (!f) throw Stop{err};
    int len = 1;
    while (!(f & (0x80 >> (len - 1)))) ++len;
    uint64_t v = f & (0xff >> len);
    for (int i = 1; i < len; ++i) v = v << 8 | byte();
    if (lenp) *lenp = len;
    if (unk && v == (1ull << (7 * len)) - 1) return kUnknownElementSize;
    return v;
  }
  void skip(uint64_t n) { need(n); p += n; }

  // Parses the body of leaf element m; returns its value text.
  std::string leaf(const Field& f, const Hdr& m) {
    std::string o;
    switch (f.k) {
      case 'u': case 'i':
        if (m.size > 8) throw Stop{Status::kInvalidElementSize};
        break;
      case 'B':
        if (m.size > 8) throw Stop{Status::kInvalidElementSize};
        break;
      case 'f':
        if (m.size != 0 && m.size != 4 && m.size != 8) throw Stop{Status::kInvalidElementSize};
        break;
      case 'd':
        if (m.size != 0 && m.size != 8) throw Stop{Status::kInvalidElementSize};
        break;
      case 'I':
        if (m.size == 0 || m.size > 4) throw Stop{Status::kInvalidElementSize};
        break;
      case 'V':
        if (m.size == kUnknownElementSize || m.size < 4) throw Stop{Status::kInvalidElementSize};
        break;
      default:
        if (m.size == kUnknownElementSize) throw Stop{Status::kInvalidElementSize};
    }
    if (f.k == 'V') {
      uint64_t start = p;
      uint64_t tr = vint(Status::kInvalidElementValue, false);
      int hi = byte(), lo = byte();
      byte();
      if (p - start > m.size) throw Stop{Status::kInvalidElementValue};
      skip(m.size - (p - start));
      return strf("V%llu,%d", (unsigned long long)tr, (int16_t)(hi << 8 | lo));
    }
    if (m.size == 0) return def_leaf(f.k, f.k == 'I' ? "0" : f.def && (!f.rep || f.k == 's') ? f.def : f.k == 's' || f.k == 'b' ? "" : "0");
    if (f.k == 'B') {  // refused as soon as a byte shows the value exceeds one
      uint64_t v = 0;
      for (uint64_t i = 0; i < m.size; ++i) {
        if (p >= b.size()) {
          if (v) throw Stop{Status::kInvalidElementValue};
          throw Stop{Status::kEndOfFile};
        }
        v = v << 8 | byte();
      }
      if (v > 1) throw Stop{Status::kInvalidElementValue};
      return v ? "1" : "0";
    }
    need(m.size);
    Bytes d = b.substr(p, m.size);
    p += m.size;
    switch (f.k) {
      case 'u': case 'I': num(o, eb::dec_uint(d)); break;
      case 'i': case 'd': snum(o, eb::dec_int(d)); break;
      case 'f': flt(o, eb::dec_float(d)); break;
      case 's': while (!d.empty() && d.back() == 0) d.pop_back(); hexs(o, d.data(), d.size()); break;
      case 'b': hexs(o, d.data(), d.size()); break;
    }
    return o;
  }
  // Block or simple block; returns false if the application skipped it.
  bool block(char k, const Hdr& m, std::string* text) {
    if (m.size == kUnknownElementSize || m.size < 5) throw Stop{Status::kInvalidElementSize};
    return block_body(k, m, text);
  }
  bool block_body(char k, const Hdr& m, std::string* text) {
    uint64_t start = p;
    uint64_t tr = vint(Status::kInvalidElementValue, false);
    int hi = byte(), lo = byte();
    int fl = byte();
    int lacing = fl & 6, nf = 1;
    if (lacing) nf = byte() + 1;
    std::string t = strf("B%llu,%d,%d,%d,%d", (unsigned long long)tr, nf, (int16_t)(hi << 8 | lo), lacing, (fl & 8) == 0);
    if (k == 'S') { t += fl & 0x80 ? ",k" : ",-"; t += fl & 1 ? "d" : "-"; }
    *text = t;
    uint64_t end = m.pos + m.hs + m.size;
    if (emit(h(k == 'S' ? "simpleblock" : "block", m) + " " + t, true)) {
      if (p > end) throw Stop{Status::kInvalidElementValue};
      skip(end - p);
      return false;
    }
    std::vector<uint64_t> sz;
    if (lacing == 2 && nf > 1) {
      for (int i = 0; i < nf - 1; ++i) {
        uint64_t s = 0;
        uint8_t x;
        do { x = byte(); s += x; } while (x == 255);
        sz.push_back(s);
      }
    } else if (lacing == 6 && nf > 1) {
      __int128 cur = vint(Status::kInvalidElementValue, false);
      sz.push_back((uint64_t)cur);
      for (int i = 1; i < nf - 1; ++i) {
        int len;
        uint64_t v = vint(Status::kInvalidElementValue, false, &len);
        cur += (__int128)v - (((__int128)1 << (7 * len - 1)) - 1);
        if (cur < 0) throw Stop{Status::kInvalidElementValue};
        sz.push_back((uint64_t)cur);
      }
    }
    if (lacing == 4 && nf > 1) {
      if (p >= end || (end - p) % nf) throw Stop{Status::kInvalidElementValue};
      sz.assign(nf, (end - p) / nf);
    } else {
      unsigned __int128 sum = p - start;
      for (auto x : sz) sum += x;
      if (sum >= m.size) throw Stop{Status::kInvalidElementValue};
      sz.push_back(m.size - (uint64_t)sum);
    }
    for (auto n : sz) {
      std::string o = h("frame", m);
      o += " f@"; num(o, p);
      o += " n"; num(o, n);
      need(n);
      o += " =";
      hexs(o, b.data() + p, n);
      p += n;
      emit(o, false);
    }
    emit(h(k == 'S' ? "simpleblockend" : "blockend", m) + " " + t, false);
    return true;
  }

  // State of a master whose children are being read.
  struct M {
    Hdr m;
    Val val;
    bool started = false, skipped = false;
    uint64_t cap;         // end of what it may occupy (absolute), UNK = none
    bool known;
    int depth = 0;        // recursion budget left for nested elements of the same kind
  };
  void cluster_start(M& s) {
    if (s.m.id != eb::Cluster || s.started) return;
    s.started = true;
    if (emit(h("cluster", s.m) + " " + s.val.dump(), true)) { if (!s.skipped) { s.skipped = true; ++mute; } }
  }
  // Handles one child whose header has been read.  Returns true and fills *next if the child ended on a foreign header.
  bool child(M& s, Hdr c, Hdr* next, const std::vector<uint32_t>* path = nullptr, size_t pi = 0, Hdr* target = nullptr) {
    const Field* f = field(s.m.id, c.id);
    bool sk = false;
    if (!path) {
      if (mute) sk = true;
      else {
        out.elems.push_back({c.pos, c.id, out.events});
        sk = emit(h("begin", c), true);
      }
      if (sk && c.size != kUnknownElementSize) { skip(c.size); return false; }
    }
    if (sk) ++mute;
    struct Un { int& m; bool on; ~Un() { if (on) --m; } } un{mute, sk};
    bool has_next = false;
    if (!f) {  // Void or unknown
      if (c.size == kUnknownElementSize) throw Stop{c.id == eb::Void ? Status::kInvalidElementSize : Status::kIndefiniteUnknownElement};
      raw(c);
    } else if (f->k == 'm' || f->k == 'c') {
      M x;
      x.m = c;
      x.val.id = c.id;
      x.known = c.size != kUnknownElementSize;
      x.cap = x.known ? c.pos + c.hs + c.size : s.cap;
      if (path) { x.known = false; x.cap = UNK; }
      x.depth = (c.id == s.m.id) ? s.depth - 1 : 25;
      if (c.id == s.m.id && s.depth == 0) throw Stop{Status::kExceededRecursionDepthLimit};
      if (c.id == eb::BlockGroup) {
        cluster_start(s);
        if (!path && !mute && emit(h("blockgroup", c), true)) { x.skipped = true; }
        else if (mute) x.skipped = true;
      }
      if (x.skipped) ++mute;
      {
        Un u2{mute, x.skipped};
        bool presk = x.skipped;
        (void)presk;
        has_next = body(x, next, path, pi, target);
        // a cluster skipped at its begin notification muted the rest
      }
      if (c.id == eb::Cluster && x.skipped) --mute;
      bool consumed = !mute && !x.skipped && !s.skipped;
      if (consumed && f->k == 'm') {
        const char* ev = c.id == eb::Info ? "info" : c.id == eb::Seek ? "seek" : c.id == eb::TrackEntry ? "track" : c.id == eb::CuePoint ? "cue" :
                         c.id == eb::EditionEntry ? "edition" : c.id == eb::Tag ? "tag" : c.id == eb::Cluster ? "clusterend" :
                         c.id == eb::BlockGroup ? "blockgroupend" : nullptr;
        std::string d = x.val.dump();
        if (ev) emit(h(ev, x.m) + " " + d, false);
        if (!plain(s.m.id)) put(s, *f, d, c.size);
      }
    } else if (f->k == 'S' || f->k == 'K') {
      std::string t;
      if (c.size == kUnknownElementSize || c.size < 5) throw Stop{Status::kInvalidElementSize};
      cluster_start(s);
      bool ok = block_body(f->k, c, &t);
      if (ok && !mute && !s.skipped) put(s, *f, t, c.size);
    } else {
      std::string t = leaf(*f, c);
      if (!mute && !s.skipped) put(s, *f, t, c.size);
    }
    return has_next;
  }
  void put(M& s, const Field& f, const std::string& t, uint64_t size) {
    if (f.rep) s.val.v[f.id].push_back(t); else s.val.v[f.id] = {t};
    s.val.sizes[f.id] = size;
  }
  void raw(const Hdr& c) {
    std::string o = h(c.id == eb::Void ? "void" : "unknown", c);
    need(c.size);
    o += " =";
    hexs(o, b.data() + p, c.size);
    p += c.size;
    emit(o, false);
  }
  // Reads the children of s.  Returns true with *next when an unknown-size element ended on a foreign header.
  bool body(M& s, Hdr* next, const std::vector<uint32_t>* path = nullptr, size_t pi = 0, Hdr* target = nullptr) {
    bool have = false;
    Hdr c{};
    bool first = true;
    if (path) {
      s.started = true;
      if (pi < path->size()) {
        Hdr a{(*path)[pi], kUnknownHeaderSize, kUnknownElementSize, kUnknownElementPosition};
        have = child(s, a, &c, path, pi + 1, target);
      } else {
        have = child(s, *target, &c);
      }
      first = false;
    }
    while (true) {
      if (!have) {
        if (s.cap != UNK && p >= s.cap && (s.known || !first)) {
          if (p > s.cap) throw Stop{Status::kElementOverflow};
          break;
        }
        if (!s.known && p == b.size()) break;
        c = header();
      }
      first = false;
      have = false;
      if (s.cap != UNK && (p > s.cap || (c.size != kUnknownElementSize && c.size > s.cap - p))) throw Stop{Status::kElementOverflow};
      bool mine = field(s.m.id, c.id) || c.id == eb::Void;
      if (!mine && !s.known) { *next = c; finish(s); return true; }
      if (!mine && c.size == kUnknownElementSize) throw Stop{Status::kIndefiniteUnknownElement};
      have = child(s, c, &c);
    }
    finish(s);
    return false;
  }
  void finish(M& s) { cluster_start(s); }

  void document(uint64_t seek) {
    bool did_seek = seek != UNK;
    if (did_seek) p = seek;
    bool have = false;
    Hdr c{};
    while (true) {
      if (!have) {
        if (p == b.size()) return;
        c = header();
      }
      have = false;
      bool top = c.id == eb::Segment || c.id == eb::EBML;
      std::vector<uint32_t> path;
      if (!top && did_seek && c.id != eb::Void && ancestry(c.id, &path)) {
        did_seek = false;
        M s;
        Hdr a{path[0], kUnknownHeaderSize, kUnknownElementSize, kUnknownElementPosition};
        s.m = a;
        s.val.id = a.id;
        s.known = false;
        s.cap = UNK;
        Hdr t = c;
        have = body(s, &c, &path, 1, &t);
        close(s);
        continue;
      }
      if (!top && c.id != eb::Void && c.size == kUnknownElementSize) throw Stop{Status::kIndefiniteUnknownElement};
      if (top) did_seek = false;
      out.elems.push_back({c.pos, c.id, out.events});
      bool sk = emit(h("begin", c), true);
      if (sk && c.size != kUnknownElementSize) { skip(c.size); continue; }
      if (sk) ++mute;
      if (top) {
        M s;
        s.m = c;
        s.val.id = c.id;
        s.known = c.size != kUnknownElementSize;
        s.cap = s.known ? c.pos + c.hs + c.size : UNK;
        bool seg_skip = false;
        if (c.id == eb::Segment && !mute && emit(h("segment", c), true)) { seg_skip = true; ++mute; }
        Hdr t = c;
        have = body(s, &t);
        if (!mute) close(s);
        if (seg_skip) --mute;
        c = t;
      } else {
        if (c.size == kUnknownElementSize) throw Stop{Status::kInvalidElementSize};
        raw(c);
      }
      if (sk) --mute;
    }
  }
  void close(M& s) {
    if (s.m.id == eb::Segment) emit(h("segmentend", s.m), false);
    else emit(h("ebml", s.m) + " " + s.val.dump(), false);
  }
  static bool ancestry(uint32_t id, std::vector<uint32_t>* path) {
    static std::map<uint32_t, std::vector<uint32_t>> t;
    if (t.empty()) {
      std::function<void(uint32_t, std::vector<uint32_t>)> go = [&](uint32_t m, std::vector<uint32_t> a) {
        a.push_back(m);
        for (auto& f : fields(m)) {
          if (f.id == m) continue;   // recursive kinds: the outermost place
          if (!t.count(f.id)) t[f.id] = a;
          go(f.id, a);
        }
      };
      go(eb::EBML, {});
      go(eb::Segment, {});
    }
    auto it = t.find(id);
    if (it == t.end()) return false;
    *path = it->second;
    return true;
  }
};
}  // namespace

bool known_id(uint32_t id) {
  std::vector<uint32_t> t;
  return id == eb::EBML || id == eb::Segment || Ref::ancestry(id, &t);
}
Pred predict(const Bytes& b, const Policy& pol, uint64_t seek) {
  Ref r(b, pol);
  try {
    r.document(seek);
    r.out.status = 0;
  } catch (Stop& s) {
    r.out.status = s.code;
  }
  return std::move(r.out);
}
}  // namespace wp
