// C07: every header setting, at its boundary values and in combinations, written by the real muxer and read back by an
// independent decoder and by both bundled readers.
#include <cfloat>
#include "common/hdr_util.h"
#include "muxlib.h"
#include "pulllib.h"
#include "wpref.h"
using mc::R;
using mc::strf;
using eb::Bytes;
namespace {
typedef std::map<std::string, std::string> Flat;

std::string fv(double v) { return strf("%.9g", v); }
std::string bv(const Bytes& b) {
  if (b.size() <= 40) { std::string s = "'"; for (unsigned char c : b) s += c >= 32 && c < 127 ? std::string(1, (char)c) : strf("\\x%02x", c); return s + "'"; }
  return strf("%zu bytes #%016llx", b.size(), (unsigned long long)mc::hstr(b));
}
void flatten(const eb::Node& n, const std::string& path, Flat* out) {
  std::map<uint32_t, int> seen;
  for (auto& k : n.kids) {
    if (k.id == eb::Void || !k.sp) continue;
    std::string p = path + "/" + k.sp->name;
    int i = seen[k.id]++;
    if (k.sp->max != 1) p += strf("[%d]", i);
    if (k.sp->t == eb::M) { flatten(k, p, out); continue; }
    std::string v;
    switch (k.sp->t) {
      case eb::U: v = strf("%llu", (unsigned long long)k.u()); break;
      case eb::I: case eb::D: v = strf("%lld", (long long)k.i()); break;
      case eb::F: v = fv(k.f()); break;
      default: v = bv(k.data);
    }
    (*out)[p] = v;
  }
}
// Values that mean the same as absence.
const char* dflt(const std::string& p) {
  static const std::map<std::string, const char*> d = {
    {"PixelCropLeft", "0"}, {"PixelCropRight", "0"}, {"PixelCropTop", "0"}, {"PixelCropBottom", "0"}, {"StereoMode", "0"}, {"AlphaMode", "0"},
    {"MaxBlockAdditionID", "0"}, {"CodecDelay", "0"}, {"SeekPreRoll", "0"}, {"Language", "'eng'"}, {"TimecodeScale", "1000000"},
    {"ProjectionPoseYaw", "0"}, {"ProjectionPosePitch", "0"}, {"ProjectionPoseRoll", "0"}, {"FlagEnabled", "1"}, {"FlagDefault", "1"},
    {"FlagForced", "0"}, {"FlagLacing", "1"}, {"FlagInterlaced", "0"}, {"DisplayUnit", "0"}, {"AspectRatioType", "0"},
    {"TagDefault", "1"}, {"TagLanguage", "'und'"}, {"TargetTypeValue", "50"}, {"Channels", "1"}, {"SamplingFrequency", "8000"},
    {"ContentEncodingOrder", "0"}, {"ContentEncodingScope", "1"}, {"ContentEncodingType", "0"},
  };
  std::string n = p.substr(p.rfind('/') + 1);
  n = n.substr(0, n.find('['));
  auto it = d.find(n);
  return it == d.end() ? nullptr : it->second;
}
bool automatic(const std::string& p) {   // chosen by the muxer
  std::string n = p.substr(p.rfind('/') + 1);
  return n == "Duration" || n == "MuxingApp" || n == "WritingApp" || n == "TrackUID" || n == "ChapterUID";
}

struct Ctx {
  mkvmuxer::Segment seg;
  mx::MemWriter w;
  mkvmuxer::VideoTrack* v = nullptr;
  mkvmuxer::AudioTrack* a = nullptr;
  mkvmuxer::Track* t = nullptr;
  uint64_t vnum = 0, anum = 0, tnum = 0;
  mkvmuxer::Colour col;
  mkvmuxer::MasteringMetadata mm;
  mkvmuxer::PrimaryChromaticity pc[4];
  bool has_pc[4] = {false, false, false, false};
  bool use_col = false, use_mm = false;
  mkvmuxer::Projection proj;
  bool use_proj = false;
  mkvmuxer::Chapter* ch = nullptr;
  mkvmuxer::Tag* tag = nullptr;
  uint64_t scale = 1000000;
  bool live = false, twice = false;
  int chan = 0;
  Flat want;
  std::string refused;
  void ok(bool r, const char* what) { if (!r && refused.empty()) refused = what; }
};
struct Field {
  std::string name;
  int n;                                      // values, besides "not set"
  std::function<void(Ctx&, int)> set;         // value index 0..n-1
  bool again = false;                         // may be set twice
};
const std::string V = "Tracks/TrackEntry[0]", A = "Tracks/TrackEntry[1]", T = "Tracks/TrackEntry[2]";

int level = 0;    // 0 full value lists, 1 short, 2 tiny
std::vector<uint64_t> uvals() {
  std::vector<uint64_t> u = {1, 127, 128, 255, 256, 65535, 65536, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull};
  if (level == 0) for (uint64_t x : {2ull, 0xffffffull, 0x1000000ull, 0xffffffffffull, 0x10000000000ull, 0xffffffffffffull, 0x1000000000000ull, 0xffffffffffffffull, 0x100000000000000ull, 0x1234567890abcdefull}) u.push_back(x);
  if (level == 2) u = {1, 256, 0x123456789aull};
  return u;
}
Bytes text(size_t n, int salt) { Bytes b(n, 'a'); for (size_t i = 0; i < n; ++i) b[i] = (char)('a' + (i * 7 + i / 26 + salt) % 26); return b; }
std::vector<Bytes> svals(int salt) {
  std::vector<Bytes> s = {"", "x", "\xc3\xa9\xe2\x82\xac\xf0\x9d\x84\x9e", text(126, salt), text(127, salt), text(128, salt), text(16382, salt), text(16383, salt)};
  if (level == 0) for (size_t n : {2, 3, 7, 8, 125, 129, 255, 256, 257, 300, 16381, 16384, 65535, 65536, 2097150, 2097151, 2097152}) s.push_back(text(n, salt));
  if (level == 2) s = {"", "\xc3\xa9", text(127, salt)};
  return s;
}
std::vector<Bytes> bvals(int salt) {
  std::vector<Bytes> s;
  std::vector<size_t> n = {1, 4, 126, 127, 128, 16382, 16383};
  if (level == 0) for (size_t x : {2, 8, 16, 125, 255, 256, 300, 16381, 16384, 65535, 65536, 2097150, 2097151, 2097152}) n.push_back(x);
  if (level == 2) n = {1, 127};
  for (size_t k : n) { Bytes b(k, 0); for (size_t i = 0; i < k; ++i) b[i] = (char)(i * 37 + salt + (i >> 8)); s.push_back(b); }
  if (level != 2) { s.push_back(Bytes(1, 0)); s.push_back(Bytes(3, 0)); s.push_back(Bytes("\0\xff\0", 3)); }
  return s;
}
std::vector<float> fvals() {
  std::vector<float> f = {1.0f, 0.5f, 29.97f, 48000.0f, 1e-6f, 16777217.0f, FLT_MIN, 3e38f};
  if (level == 2) f = {29.97f};
  return f;
}
std::string ustr(uint64_t v) { return strf("%llu", (unsigned long long)v); }
typedef std::function<void(Ctx&, uint64_t)> SetU;
typedef std::function<void(Ctx&, const Bytes&)> SetB;
typedef std::function<void(Ctx&, double)> SetF;
struct Fields {
  std::vector<Field> f;
  void u(const std::string& path, SetU s, std::vector<uint64_t> vals = {}) {
    auto v = std::make_shared<std::vector<uint64_t>>(vals.empty() ? uvals() : vals);
    f.push_back({path, (int)v->size(), [v, s, path](Ctx& c, int k) { s(c, (*v)[k]); c.want[path] = ustr((*v)[k]); }, true});
  }
  void str(const std::string& path, SetB s, std::vector<Bytes> vals = {}) {
    auto v = std::make_shared<std::vector<Bytes>>(vals.empty() ? svals((int)f.size()) : vals);
    f.push_back({path, (int)v->size(), [v, s, path](Ctx& c, int k) { s(c, (*v)[k]); c.want[path] = bv((*v)[k]); }, true});
  }
  void bin(const std::string& path, SetB s) {
    auto v = std::make_shared<std::vector<Bytes>>(bvals((int)f.size()));
    f.push_back({path, (int)v->size(), [v, s, path](Ctx& c, int k) { s(c, (*v)[k]); c.want[path] = bv((*v)[k]); }, true});
  }
  void flt(const std::string& path, SetF s, std::vector<float> vals = {}) {
    auto v = std::make_shared<std::vector<float>>(vals.empty() ? fvals() : vals);
    f.push_back({path, (int)v->size(), [v, s, path](Ctx& c, int k) { s(c, (*v)[k]); c.want[path] = fv((*v)[k]); }, true});
  }
  void opt(const std::string& name, int n, std::function<void(Ctx&, int)> s) { f.push_back({name, n, s, false}); }
};
void common(Fields& F, const std::string& p, mkvmuxer::Track* (*tr)(Ctx&), int lv) {
  int keep = level;
  level = std::max(level, lv);
  F.u(p + "/TrackUID", [tr](Ctx& c, uint64_t v) { tr(c)->set_uid(v); });
  F.str(p + "/CodecID", [tr](Ctx& c, const Bytes& b) { tr(c)->set_codec_id(b.c_str()); });
  F.bin(p + "/CodecPrivate", [tr](Ctx& c, const Bytes& b) { c.ok(tr(c)->SetCodecPrivate((const uint8_t*)b.data(), b.size()), "SetCodecPrivate"); });
  F.str(p + "/Language", [tr](Ctx& c, const Bytes& b) { tr(c)->set_language(b.c_str()); }, level ? std::vector<Bytes>{"eng", "fre", "x"} : std::vector<Bytes>{});
  F.str(p + "/Name", [tr](Ctx& c, const Bytes& b) { tr(c)->set_name(b.c_str()); });
  F.u(p + "/MaxBlockAdditionID", [tr](Ctx& c, uint64_t v) { tr(c)->set_max_block_additional_id(v); });
  F.u(p + "/CodecDelay", [tr](Ctx& c, uint64_t v) { tr(c)->set_codec_delay(v); });
  F.u(p + "/SeekPreRoll", [tr](Ctx& c, uint64_t v) { tr(c)->set_seek_pre_roll(v); });
  F.u(p + "/DefaultDuration", [tr](Ctx& c, uint64_t v) { tr(c)->set_default_duration(v); });
  auto keys = std::make_shared<std::vector<Bytes>>(bvals(77));
  F.opt(p + "/ContentEncodings", (int)keys->size() + 1, [tr, keys, p](Ctx& c, int k) {
    int n = k == (int)keys->size() ? 2 : 1;
    for (int i = 0; i < n; ++i) {
      const Bytes& id = (*keys)[n == 2 ? i : k];
      c.ok(tr(c)->AddContentEncoding(), "AddContentEncoding");
      mkvmuxer::ContentEncoding* e = tr(c)->GetContentEncodingByIndex(i);
      c.ok(e != nullptr, "GetContentEncodingByIndex");
      if (!e) return;
      if (c.twice) c.ok(e->SetEncryptionID((const uint8_t*)"overwritten", 11), "SetEncryptionID");
      c.ok(e->SetEncryptionID((const uint8_t*)id.data(), id.size()), "SetEncryptionID");
      std::string q = p + strf("/ContentEncodings/ContentEncoding[%d]", i);
      c.want[q + "/ContentEncodingOrder"] = "0";
      c.want[q + "/ContentEncodingScope"] = "1";
      c.want[q + "/ContentEncodingType"] = "1";
      c.want[q + "/ContentEncryption[0]/ContentEncAlgo"] = "5";
      c.want[q + "/ContentEncryption[0]/ContentEncKeyID"] = bv(id);
      c.want[q + "/ContentEncryption[0]/ContentEncAESSettings/AESSettingsCipherMode"] = "1";
    }
  });
  level = keep;
}
Fields fields() {
  Fields F;
  F.opt("live", 1, [](Ctx& c, int) { c.live = true; });
  F.opt("twice", 1, [](Ctx& c, int) { c.twice = true; });
  std::vector<uint64_t> sc = uvals();
  for (auto& x : sc) if (x == 0x7fffffffffffffffull) x = 1ull << 62;    // the duration is in range
  F.u("Info/TimecodeScale", [](Ctx& c, uint64_t v) { c.seg.GetSegmentInfo()->set_timecode_scale(v); c.scale = v; }, sc);
  F.str("Info/MuxingApp", [](Ctx& c, const Bytes& b) { c.seg.GetSegmentInfo()->set_muxing_app(b.c_str()); });
  F.str("Info/WritingApp", [](Ctx& c, const Bytes& b) { c.seg.GetSegmentInfo()->set_writing_app(b.c_str()); });
  {
    auto d = std::make_shared<std::vector<int64_t>>(std::vector<int64_t>{0, 1, -1, 127, 128, -128, -129, INT64_MAX, INT64_MIN + 1, 123456789012345678ll, -123456789012345678ll, 1ll << 32, -(1ll << 32)});
    if (level == 2) d->assign({-129, 1ll << 40});
    F.opt("Info/DateUTC", (int)d->size(), [d](Ctx& c, int k) { c.seg.GetSegmentInfo()->set_date_utc((*d)[k]); c.want["Info/DateUTC"] = strf("%lld", (long long)(*d)[k]); });
  }
  common(F, V, [](Ctx& c) { return (mkvmuxer::Track*)c.v; }, 0);
  common(F, A, [](Ctx& c) { return (mkvmuxer::Track*)c.a; }, 1);
  common(F, T, [](Ctx& c) { return c.t; }, 2);
  const std::string VV = V + "/Video", AA = A + "/Audio", C = VV + "/Colour", M = C + "/MasteringMetadata", P = VV + "/Projection";
  F.u(VV + "/PixelWidth", [](Ctx& c, uint64_t v) { c.v->set_width(v); });
  F.u(VV + "/PixelHeight", [](Ctx& c, uint64_t v) { c.v->set_height(v); });
  F.u(VV + "/PixelWidth", [](Ctx& c, uint64_t v) { c.v->set_pixel_width(v); });
  F.u(VV + "/PixelHeight", [](Ctx& c, uint64_t v) { c.v->set_pixel_height(v); });
  F.u(VV + "/DisplayWidth", [](Ctx& c, uint64_t v) { c.v->set_display_width(v); });
  F.u(VV + "/DisplayHeight", [](Ctx& c, uint64_t v) { c.v->set_display_height(v); });
  F.u(VV + "/PixelCropLeft", [](Ctx& c, uint64_t v) { c.v->set_crop_left(v); });
  F.u(VV + "/PixelCropRight", [](Ctx& c, uint64_t v) { c.v->set_crop_right(v); });
  F.u(VV + "/PixelCropTop", [](Ctx& c, uint64_t v) { c.v->set_crop_top(v); });
  F.u(VV + "/PixelCropBottom", [](Ctx& c, uint64_t v) { c.v->set_crop_bottom(v); });
  F.u(VV + "/StereoMode", [](Ctx& c, uint64_t v) { c.ok(c.v->SetStereoMode(v), "SetStereoMode"); }, {1, 2, 3, 11, 0});
  F.u(VV + "/AlphaMode", [](Ctx& c, uint64_t v) { c.ok(c.v->SetAlphaMode(v), "SetAlphaMode"); }, {1, 0});
  F.flt(VV + "/FrameRate", [](Ctx& c, double v) { c.v->set_frame_rate(v); });
  F.str(VV + "/ColourSpace", [](Ctx& c, const Bytes& b) { c.v->set_colour_space(b.c_str()); });
  auto col = [&](const char* n, void (mkvmuxer::Colour::*set)(uint64_t), std::vector<uint64_t> vals) {
    F.u(C + "/" + n, [set](Ctx& c, uint64_t v) { (c.col.*set)(v); c.use_col = true; }, vals);
  };
  typedef mkvmuxer::Colour K;
  std::vector<uint64_t> mc_ = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, tc = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, pr = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 22}, any = {};
  std::vector<uint64_t> si = {0, 1, 2}, ra = {0, 1, 2, 3};
  if (level == 1) { mc_ = {0, 1, 2, 10}; tc = {1, 2, 18}; pr = {0, 1, 2, 22}; }
  if (level == 2) { mc_ = {9}; tc = {16}; pr = {9}; si = {1}; ra = {2}; }
  any = uvals();
  for (auto& x : any) if (x == 0x7fffffffffffffffull) --x;    // the pull parser's "not present"
  any.push_back(0);
  col("MatrixCoefficients", &K::set_matrix_coefficients, mc_);
  col("BitsPerChannel", &K::set_bits_per_channel, any);
  col("ChromaSubsamplingHorz", &K::set_chroma_subsampling_horz, any);
  col("ChromaSubsamplingVert", &K::set_chroma_subsampling_vert, any);
  col("CbSubsamplingHorz", &K::set_cb_subsampling_horz, any);
  col("CbSubsamplingVert", &K::set_cb_subsampling_vert, any);
  col("ChromaSitingHorz", &K::set_chroma_siting_horz, si);
  col("ChromaSitingVert", &K::set_chroma_siting_vert, si);
  col("Range", &K::set_range, ra);
  col("TransferCharacteristics", &K::set_transfer_characteristics, tc);
  col("Primaries", &K::set_primaries, pr);
  col("MaxCLL", &K::set_max_cll, any);
  col("MaxFALL", &K::set_max_fall, any);
  std::vector<float> lmin = {0.0f, 0.0001f, 1.0f, 999.99f}, lmax = {1000.0f, 9999.99f, 1.0f}, chr = {0.0f, 0.3127f, 1.0f};
  if (level == 2) { lmin = {0.25f}; lmax = {9999.99f}; chr = {0.708f}; }
  F.flt(M + "/LuminanceMax", [](Ctx& c, double v) { c.mm.set_luminance_max((float)v); c.use_mm = c.use_col = true; }, lmax);
  F.flt(M + "/LuminanceMin", [](Ctx& c, double v) { c.mm.set_luminance_min((float)v); c.use_mm = c.use_col = true; }, lmin);
  static const char* PN[4] = {"PrimaryR", "PrimaryG", "PrimaryB", "WhitePoint"};
  for (int i = 0; i < 4; ++i) {
    auto cv = std::make_shared<std::vector<float>>(chr);
    int n = (int)(chr.size() * chr.size());
    F.opt(M + "/" + PN[i] + "Chromaticity", n, [cv, i, M](Ctx& c, int k) {
      float x = (*cv)[k % cv->size()], y = (*cv)[k / cv->size()];
      c.pc[i] = mkvmuxer::PrimaryChromaticity(x, y);
      c.has_pc[i] = c.use_mm = c.use_col = true;
      c.want[M + "/" + PN[i] + "ChromaticityX"] = fv(x);
      c.want[M + "/" + PN[i] + "ChromaticityY"] = fv(y);
    });
  }
  F.u(P + "/ProjectionType", [](Ctx& c, uint64_t v) { c.proj.set_type((mkvmuxer::Projection::ProjectionType)v); c.use_proj = true; }, {1, 2, 3, 0});
  F.bin(P + "/ProjectionPrivate", [](Ctx& c, const Bytes& b) { c.ok(c.proj.SetProjectionPrivate((const uint8_t*)b.data(), b.size()), "SetProjectionPrivate"); c.use_proj = true; });
  std::vector<float> pose = {1.0f, -1.5f, 180.0f, -180.0f, 0.001f, 0.0f};
  if (level == 2) pose = {-33.25f};
  F.flt(P + "/ProjectionPoseYaw", [](Ctx& c, double v) { c.proj.set_pose_yaw((float)v); c.use_proj = true; }, pose);
  F.flt(P + "/ProjectionPosePitch", [](Ctx& c, double v) { c.proj.set_pose_pitch((float)v); c.use_proj = true; }, pose);
  F.flt(P + "/ProjectionPoseRoll", [](Ctx& c, double v) { c.proj.set_pose_roll((float)v); c.use_proj = true; }, pose);
  F.flt(AA + "/SamplingFrequency", [](Ctx& c, double v) { c.a->set_sample_rate(v); });
  F.u(AA + "/Channels", [](Ctx& c, uint64_t v) { c.a->set_channels(v); });
  F.u(AA + "/BitDepth", [](Ctx& c, uint64_t v) { c.a->set_bit_depth(v); });
  const std::string H = "Chapters/EditionEntry[0]/ChapterAtom[0]", G = "Tags[0]/Tag[0]";
  auto ch = [](Ctx& c) {
    if (!c.ch) {
      c.ch = c.seg.AddChapter();
      c.ok(c.ch != nullptr, "AddChapter");
      c.ok(c.ch->set_id("id0"), "set_id");
      c.ch->set_time(c.seg, 0, 0);
      for (auto& kv : Flat{{"ChapterStringUID", "'id0'"}, {"ChapterTimeStart", "0"}, {"ChapterTimeEnd", "0"}}) c.want.insert({"Chapters/EditionEntry[0]/ChapterAtom[0]/" + kv.first, kv.second});
    }
    return c.ch;
  };
  F.u(H + "/ChapterUID", [ch](Ctx& c, uint64_t v) { ch(c)->set_uid(v); });
  F.str(H + "/ChapterStringUID", [ch](Ctx& c, const Bytes& b) { c.ok(ch(c)->set_id(b.c_str()), "set_id"); });
  {
    auto ts = std::make_shared<std::vector<uint64_t>>(uvals());
    for (int e = 0; e < 2; ++e)
      F.opt(H + (e ? "/ChapterTimeEnd" : "/ChapterTimeStart"), (int)ts->size(), [ch, ts, e, H](Ctx& c, int k) {
        uint64_t a = e ? 0 : (*ts)[k], b = (*ts)[k];
        if (c.twice) ch(c)->set_time(c.seg, 3000000000ull, 4000000000ull);
        ch(c)->set_time(c.seg, a, b);
        c.want[H + "/ChapterTimeStart"] = ustr(a / c.scale);
        c.want[H + "/ChapterTimeEnd"] = ustr(b / c.scale);
      });
  }
  static const char* DN[3] = {"ChapString", "ChapLanguage[0]", "ChapCountry[0]"};
  for (int i = 0; i < 3; ++i) {
    auto sv = std::make_shared<std::vector<Bytes>>(svals(40 + i));
    F.opt(H + "/ChapterDisplay/" + DN[i], (int)sv->size(), [ch, sv, i, H](Ctx& c, int k) {
      std::string q = H + strf("/ChapterDisplay[%d]/", c.chan++);
      const char* s[3] = {"title", nullptr, nullptr};
      s[i] = (*sv)[k].c_str();
      c.ok(ch(c)->add_string(s[0], s[1], s[2]), "add_string");
      for (int j = 0; j < 3; ++j) if (s[j]) c.want[q + DN[j]] = bv(s[j]);
    });
  }
  for (int i = 0; i < 2; ++i) {
    auto sv = std::make_shared<std::vector<Bytes>>(svals(50 + i));
    F.opt(G + "/SimpleTag[0]" + (i ? "/TagString" : "/TagName"), (int)sv->size(), [sv, i, G](Ctx& c, int k) {
      int n = c.tag ? 1 : 0;
      if (!c.tag) c.tag = c.seg.AddTag();
      c.ok(c.tag != nullptr, "AddTag");
      const char* s[2] = {"N", "S"};
      s[i] = (*sv)[k].c_str();
      c.ok(c.tag->add_simple_tag(s[0], s[1]), "add_simple_tag");
      std::string q = G + strf("/SimpleTag[%d]/", n);
      c.want[q + "TagName"] = bv(s[0]);
      c.want[q + "TagString"] = bv(s[1]);
    });
  }
  return F;
}

void begin(Ctx& c, int vnum = 0, int anum = 0, int tnum = 0) {
  c.ok(c.seg.Init(&c.w), "Init");
  uint64_t vn = c.seg.AddVideoTrack(320, 240, vnum), an = c.seg.AddAudioTrack(44100, 2, anum);
  c.t = c.seg.AddTrack(tnum);
  c.ok(vn && an && c.t, "adding tracks");
  c.v = (mkvmuxer::VideoTrack*)c.seg.GetTrackByNumber(vn);
  c.a = (mkvmuxer::AudioTrack*)c.seg.GetTrackByNumber(an);
  c.t->set_type(17);
  c.t->set_codec_id("D_WEBVTT/SUBTITLES");
  c.vnum = vn; c.anum = an; c.tnum = c.t->number();
  c.want[V + "/TrackNumber"] = ustr(vnum ? (uint64_t)vnum : vn);
  c.want[A + "/TrackNumber"] = ustr(anum ? (uint64_t)anum : an);
  c.want[T + "/TrackNumber"] = ustr(tnum ? (uint64_t)tnum : c.tnum);
  c.want[V + "/TrackType"] = "1";
  c.want[A + "/TrackType"] = "2";
  c.want[T + "/TrackType"] = "17";
  c.want[V + "/CodecID"] = "'V_VP8'";
  c.want[A + "/CodecID"] = "'A_VORBIS'";
  c.want[T + "/CodecID"] = "'D_WEBVTT/SUBTITLES'";
  c.want[V + "/Video/PixelWidth"] = "320";
  c.want[V + "/Video/PixelHeight"] = "240";
  c.want[A + "/Audio/SamplingFrequency"] = "44100";
  c.want[A + "/Audio/Channels"] = "2";
  c.want["Info/TimecodeScale"] = "1000000";
}
void apply_colour(Ctx& c, const mkvmuxer::Colour* copied) {
  if (!c.use_col) return;
  if (c.twice) {
    mkvmuxer::Colour o;
    o.set_range(1); o.set_max_cll(7);
    mkvmuxer::MasteringMetadata m;
    m.set_luminance_min(0.5f); m.set_luminance_max(700.0f);
    mkvmuxer::PrimaryChromaticity p(0.25f, 0.75f);
    c.ok(m.SetChromaticity(&p, &p, &p, &p), "SetChromaticity");
    c.ok(o.SetMasteringMetadata(m), "SetMasteringMetadata");
    c.ok(c.v->SetColour(o), "SetColour");
  }
  if (copied) { c.ok(c.v->SetColour(*copied), "SetColour"); return; }
  if (c.use_mm) {
    c.ok(c.mm.SetChromaticity(c.has_pc[0] ? &c.pc[0] : nullptr, c.has_pc[1] ? &c.pc[1] : nullptr, c.has_pc[2] ? &c.pc[2] : nullptr, c.has_pc[3] ? &c.pc[3] : nullptr), "SetChromaticity");
    c.ok(c.col.SetMasteringMetadata(c.mm), "SetMasteringMetadata");
  }
  c.ok(c.v->SetColour(c.col), "SetColour");
}
void finish(Ctx& c, const mkvmuxer::Colour* copied = nullptr) {
  c.seg.set_mode(c.live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
  if (c.live) c.w.seekable = false;
  apply_colour(c, copied);
  if (c.use_proj) {
    if (c.twice) { mkvmuxer::Projection o; o.set_pose_yaw(3.0f); c.ok(o.SetProjectionPrivate((const uint8_t*)"zz", 2), "SetProjectionPrivate"); c.ok(c.v->SetProjection(o), "SetProjection"); }
    c.ok(c.v->SetProjection(c.proj), "SetProjection");
    c.want.insert({V + "/Video/Projection/ProjectionType", "0"});
  }
  if (!c.refused.empty()) return;
  const uint8_t d[3] = {1, 2, 3};
  c.ok(c.seg.AddFrame(d, 3, c.vnum, 0, true), "first frame");
  c.ok(c.seg.AddFrame(d, 3, c.anum, 0, true), "second frame");
  c.ok(c.seg.Finalize(), "Finalize");
  mc::tick(3);
}
void compare(const Flat& want, const Flat& got) {
  for (auto& kv : want) {
    auto it = got.find(kv.first);
    if (it != got.end()) { if (it->second != kv.second) FAIL("%s: set %s, written %s", kv.first.c_str(), kv.second.c_str(), it->second.c_str()); continue; }
    const char* d = dflt(kv.first);
    if (!d || kv.second != d) FAIL("%s: set %s, not written", kv.first.c_str(), kv.second.c_str());
  }
  for (auto& kv : got) {
    if (want.count(kv.first) || automatic(kv.first)) continue;
    const char* d = dflt(kv.first);
    if (!d || kv.second != d) FAIL("%s: not set, written as %s", kv.first.c_str(), kv.second.c_str());
  }
}
Flat read_flat(const Bytes& b, eb::Node* root) {
  std::string e = eb::read_doc(b, root);
  if (!e.empty()) FAIL("output not well-formed: %s", e.c_str());
  const eb::Node* seg = root->find(eb::Segment);
  CHECK(seg, "no segment");
  Flat got;
  eb::Node part;
  part.id = eb::Segment;
  for (auto& k : seg->kids) if (k.id == eb::Info || k.id == eb::Tracks || k.id == eb::Chapters || k.id == eb::Tags) part.kids.push_back(k);
  Flat raw;
  flatten(part, "", &raw);
  for (auto& kv : raw) got[kv.first.substr(1)] = kv.second;
  return got;
}
// The pull parser reports an empty string of a chapter or tag as unset.
std::string norm(std::string s) {
  for (size_t p = 0; (p = s.find("\"\"", p)) != std::string::npos;) s.replace(p, 2, "-");
  return s;
}
void readers(const Bytes& b, const eb::Node& root) {
  std::string why, want = norm(pl::expect(root, b, &why));
  if (!why.empty()) FAIL("output outside the pull parser's range: %s", why.c_str());
  for (int m = 0; m < pl::NMODES; ++m) {
    pl::MemReader r(b);
    pl::Grow g;
    g.f = []() { return false; };
    pl::Out o = pl::walk(r, (pl::Mode)m, g);
    if (o.status) FAIL("pull parser (mode %d) fails in %s with %ld", m, o.where.c_str(), o.status);
    o.log = norm(o.log);
    if (o.log != want) FAIL("pull parser (mode %d) differs: %s", m, pl::diff(want, o.log).c_str());
    mc::state();
    if (b.size() > 100000) break;
  }
  wp::Policy pol;
  wp::Pred p = wp::predict(b, pol);
  wp::ScriptReader sr(b);
  wp::LogCb cb;
  cb.pol = &pol;
  webm::WebmParser parser;
  wp::RunOut ro = wp::feed_all(parser, cb, sr);
  if (ro.status != p.status) FAIL("push parser ends with %d instead of %d", ro.status, p.status);
  if (cb.log != p.log) FAIL("push parser differs: %s", wp::diff(p.log, cb.log).c_str());
  mc::state();
}
// The colour settings of the file, read by the pull parser and handed to the muxer's form by hdr_util.
bool copied_colour(const Bytes& b, mkvmuxer::Colour* out) {
  pl::MemReader r(b);
  long long pos = 0;
  mkvparser::EBMLHeader h;
  h.Parse(&r, pos);
  mkvparser::Segment* s = nullptr;
  if (mkvparser::Segment::CreateInstance(&r, pos, s)) FAIL("segment not found");
  std::unique_ptr<mkvparser::Segment> seg(s);
  if (seg->ParseHeaders() < 0) FAIL("headers not parsed");
  const mkvparser::Track* t = seg->GetTracks()->GetTrackByIndex(0);
  CHECK(t && t->GetType() == 1, "video track not first");
  const mkvparser::Colour* c = ((const mkvparser::VideoTrack*)t)->GetColour();
  if (!c) return false;
  if (!libwebm::CopyColour(*c, out)) FAIL("CopyColour failed");
  return true;
}
typedef std::vector<std::pair<int, int>> Pick;   // field, value
std::string describe(const Fields& F, const Pick& p) {
  std::string s;
  for (auto& x : p) s += strf("%s#%d ", F.f[x.first].name.c_str(), x.second);
  return s;
}
void set_all(Ctx& c, const Fields& F, const Pick& p) {
  for (auto& x : p) {
    const Field& f = F.f[x.first];
    if (c.twice && f.again && f.n > 1) f.set(c, x.second ? 0 : 1);
    f.set(c, x.second);
  }
}
void check_file(Ctx& c) {
  if (!c.refused.empty()) FAIL("valid settings refused: %s", c.refused.c_str());
  if (!c.w.defect.empty()) FAIL("%s", c.w.defect.c_str());
  eb::Node root;
  compare(c.want, read_flat(c.w.buf, &root));
  readers(c.w.buf, root);
  mc::outcome(mc::fnv(c.w.buf.data(), c.w.buf.size()));
}
void exec(const Fields& F, const Pick& p) {
  R.desc = describe(F, p);
  Ctx c;
  begin(c);
  set_all(c, F, p);
  // not meaningful together: a minimum above the maximum
  if (c.mm.luminance_min() != FLT_MAX && c.mm.luminance_max() != FLT_MAX && c.mm.luminance_min() > c.mm.luminance_max()) return;
  finish(c);
  check_file(c);
  if (c.use_col) {
    mkvmuxer::Colour col;
    if (!copied_colour(c.w.buf, &col)) FAIL("colour settings not found by the pull parser");
    Ctx d;
    begin(d);
    set_all(d, F, p);
    // keep the identifiers the muxer chose
    d.v->set_uid(c.v->uid()); d.a->set_uid(c.a->uid()); d.t->set_uid(c.t->uid());
    finish(d, &col);
    if (!d.refused.empty()) FAIL("colour settings copied from the file are refused: %s", d.refused.c_str());
    eb::Node root;
    Flat got = read_flat(d.w.buf, &root);
    for (auto it = d.want.begin(); it != d.want.end();) it = it->first.find("/Colour/") == std::string::npos ? d.want.erase(it) : ++it;
    for (auto it = got.begin(); it != got.end();) it = it->first.find("/Colour/") == std::string::npos ? got.erase(it) : ++it;
    for (auto& kv : d.want) if (!got.count(kv.first) || got[kv.first] != kv.second) FAIL("%s: set %s, copied as %s", kv.first.c_str(), kv.second.c_str(), got.count(kv.first) ? got[kv.first].c_str() : "unset");
    for (auto& kv : got) if (!d.want.count(kv.first)) FAIL("%s: not set, copied as %s", kv.first.c_str(), kv.second.c_str());
  }
  mc::sample(R.desc);
}
mc::Exec fields_space(mc::Chooser& ch, int lv, int budget, bool exact_only) {
  static std::map<int, std::shared_ptr<Fields>> cache;
  auto& F = cache[lv];
  if (!F) { level = lv; F = std::make_shared<Fields>(fields()); }
  ch.set_budget(budget);
  // fields picked in increasing order; "which field next" is one choice, so that the tree has no empty branches
  Pick p;
  int from = 0, n = (int)F->f.size();
  for (int i = 0; i < budget; ++i) {
    int k = ch.pick(n - from + 1);
    if (k == 0) break;
    from += k;
    p.push_back({from - 1, ch.pick(F->f[from - 1].n)});
    if (i == 0 && budget > 1 && !ch.mine()) return nullptr;
  }
  if (p.empty() && budget > 1 && !ch.mine()) return nullptr;
  (void)exact_only;
  auto f = F;
  return [f, p]() { exec(*f, p); };
}
}  // namespace

SPACE(C07, single) { return fields_space(c, 0, 1, false); }
SPACE(C07, pairs) { return fields_space(c, R.thorough ? 0 : 1, 2, false); }
SPACE(C07, triples) { return fields_space(c, 2, R.thorough ? 3 : 2, false); }

// Every presence combination of the optional parts of one element.
SPACE(C07, presence) {
  int part = c.pick(4);
  static std::shared_ptr<Fields> F;
  if (!F) { level = 2; F = std::make_shared<Fields>(fields()); }
  static const char* pre[4] = {"/Colour/", "/Projection/", "Tracks/TrackEntry[0]", "Chapters"};
  std::vector<int> idx;
  for (int i = 0; i < (int)F->f.size(); ++i) {
    const std::string& n = F->f[i].name;
    bool in = n.find(pre[part]) != std::string::npos;
    if (part == 2 && n.find("/Video/") != std::string::npos && n.find("/Video/Pixel") == std::string::npos && n.find("/Video/Display") == std::string::npos) in = false;
    if (in) idx.push_back(i);
  }
  if (part == 0 && !R.thorough) {    // colour: presence of half of the elements at a time
    int half = c.pick(2);
    std::vector<int> h;
    for (size_t i = 0; i < idx.size(); ++i) if ((i % 2 == 0) == (half == 0)) h.push_back(idx[i]);
    idx = h;
  }
  if (part == 2 && !R.thorough) {
    int half = c.pick(2);
    idx = half ? std::vector<int>(idx.begin(), idx.begin() + idx.size() / 2) : std::vector<int>(idx.begin() + idx.size() / 2, idx.end());
  }
  Pick p;
  int k = 0;
  for (int i : idx) { if (c.flag()) p.push_back({i, 0}); if (++k == 5 && !c.mine()) return nullptr; }
  auto f = F;
  return [f, p]() { exec(*f, p); };
}

// Lists of tracks, encodings, chapters, titles and tags.
SPACE(C07, lists) {
  int ntr = 1 + c.pick(4), kinds = 0;
  for (int i = 0; i < ntr; ++i) kinds = kinds * 3 + c.pick(3);
  int numbers = c.pick(3);
  int nch = c.pick(6), pat = c.pick(4), ntag = c.pick(6), tpat = c.pick(3), nenc = c.pick(4);
  if (c.dev_used()) return nullptr;
  int lens = c.pick(2);
  // bound: the chapter, tag and encoding lists are combined with every other list at its first sizes only
  int big = (ntr > 2) + (nch > 2) + (ntag > 2) + (nenc > 2);
  if (big > (R.thorough ? 2 : 1)) return nullptr;
  if (!nch && pat) return nullptr;
  if (!ntag && tpat) return nullptr;
  return [=]() {
    R.desc = strf("tracks %d kinds %d numbers %d chapters %d titles %d tags %d/%d encodings %d lens %d", ntr, kinds, numbers, nch, pat, ntag, tpat, nenc, lens);
    Ctx x;
    x.ok(x.seg.Init(&x.w), "Init");
    static const int N[3][4] = {{0, 0, 0, 0}, {126, 5, 2, 64}, {3, 0, 1, 0}};
    std::vector<uint64_t> nums;
    int kk = kinds;
    for (int i = 0; i < ntr; ++i) {
      int kind = kk % 3, want = N[numbers][i];
      kk /= 3;
      uint64_t num = 0;
      std::string p = strf("Tracks/TrackEntry[%d]", i);
      mkvmuxer::Track* t = nullptr;
      if (kind == 0) { num = x.seg.AddVideoTrack(16 + i, 8 + i, want); x.want[p + "/Video/PixelWidth"] = ustr(16 + i); x.want[p + "/Video/PixelHeight"] = ustr(8 + i); x.want[p + "/CodecID"] = "'V_VP8'"; }
      if (kind == 1) { num = x.seg.AddAudioTrack(8000 + i, 1 + i, want); x.want[p + "/Audio/SamplingFrequency"] = ustr(8000 + i); x.want[p + "/Audio/Channels"] = ustr(1 + i); x.want[p + "/CodecID"] = "'A_VORBIS'"; }
      if (kind == 2) { t = x.seg.AddTrack(want); if (t) { num = t->number(); t->set_type(17); t->set_codec_id("S_TEXT"); x.want[p + "/CodecID"] = "'S_TEXT'"; } }
      if (!num) FAIL("track %d refused", i);
      if (want && num != (uint64_t)want) FAIL("track %d numbered %llu instead of %d", i, (unsigned long long)num, want);
      for (uint64_t o : nums) if (o == num) FAIL("two tracks numbered %llu", (unsigned long long)num);
      nums.push_back(num);
      t = (mkvmuxer::Track*)x.seg.GetTrackByNumber(num);
      CHECK(t, "track %llu not found", (unsigned long long)num);
      t->set_name(strf("track %d", i).c_str());
      t->set_uid(1000 + i);
      x.want[p + "/TrackNumber"] = ustr(num);
      x.want[p + "/TrackType"] = kind == 0 ? "1" : kind == 1 ? "2" : "17";
      x.want[p + "/Name"] = strf("'track %d'", i);
      x.want[p + "/TrackUID"] = ustr(1000 + i);
      if (i == ntr - 1) for (int e = 0; e < nenc; ++e) {
        Bytes id = strf("key %d of %d", e, i) + (lens ? text(126, e) : "");
        x.ok(t->AddContentEncoding(), "AddContentEncoding");
        x.ok(t->GetContentEncodingByIndex(e) && t->GetContentEncodingByIndex(e)->SetEncryptionID((const uint8_t*)id.data(), id.size()), "SetEncryptionID");
        std::string q = p + strf("/ContentEncodings/ContentEncoding[%d]", e);
        x.want[q + "/ContentEncodingOrder"] = "0";
        x.want[q + "/ContentEncodingScope"] = "1";
        x.want[q + "/ContentEncodingType"] = "1";
        x.want[q + "/ContentEncryption[0]/ContentEncAlgo"] = "5";
        x.want[q + "/ContentEncryption[0]/ContentEncKeyID"] = bv(id);
        x.want[q + "/ContentEncryption[0]/ContentEncAESSettings/AESSettingsCipherMode"] = "1";
      }
    }
    for (int i = 0; i < nch; ++i) {
      mkvmuxer::Chapter* h = x.seg.AddChapter();
      if (!h) FAIL("chapter refused");
      std::string p = strf("Chapters/EditionEntry[0]/ChapterAtom[%d]", i), id = strf("c%d", i);
      x.ok(h->set_id(id.c_str()), "set_id");
      h->set_uid(2000 + i);
      h->set_time(x.seg, i * 5000000000ull, i * 5000000000ull + 1000000);
      x.want[p + "/ChapterStringUID"] = bv(id);
      x.want[p + "/ChapterUID"] = ustr(2000 + i);
      x.want[p + "/ChapterTimeStart"] = ustr(i * 5000);
      x.want[p + "/ChapterTimeEnd"] = ustr(i * 5000 + 1);
      int nd = pat == 0 ? 1 : pat == 1 ? i : pat == 2 ? 5 - i : 5;
      for (int j = 0; j < nd; ++j) {
        std::string q = p + strf("/ChapterDisplay[%d]/", j), title = strf("title %d.%d ", i, j) + (lens ? text(118 + j, i) : "");
        const char* lang = j % 3 ? (j % 2 ? "fre" : "ger") : nullptr;
        const char* ctry = j % 2 ? "ch" : nullptr;
        x.ok(h->add_string(title.c_str(), lang, ctry), "add_string");
        x.want[q + "ChapString"] = bv(title);
        if (lang) x.want[q + "ChapLanguage[0]"] = bv(lang);
        if (ctry) x.want[q + "ChapCountry[0]"] = bv(ctry);
      }
    }
    for (int i = 0; i < ntag; ++i) {
      mkvmuxer::Tag* t = x.seg.AddTag();
      if (!t) FAIL("tag refused");
      int ns = tpat == 0 ? 1 : tpat == 1 ? 1 + i : 5 - i + (i == 5);
      for (int j = 0; j < ns; ++j) {
        std::string q = strf("Tags[0]/Tag[%d]/SimpleTag[%d]/", i, j), n = strf("N%d.%d", i, j), s = strf("value %d.%d ", i, j) + (lens ? text(118 + j, i) : "");
        x.ok(t->add_simple_tag(n.c_str(), s.c_str()), "add_simple_tag");
        x.want[q + "TagName"] = bv(n);
        x.want[q + "TagString"] = bv(s);
      }
    }
    x.want["Info/TimecodeScale"] = "1000000";
    const uint8_t d[2] = {9, 8};
    for (uint64_t n : nums) x.ok(x.seg.AddFrame(d, 2, n, 0, true), "AddFrame");
    x.ok(x.seg.Finalize(), "Finalize");
    mc::tick(ntr + nch + ntag + nenc);
    check_file(x);
    mc::sample(R.desc);
  };
}
