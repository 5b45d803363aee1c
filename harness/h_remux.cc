// C31: mkvmuxer_sample (remuxing tool) run on generated files with every option; output read by the independent reader.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <map>
#include "ebml.h"
#include "muxlib.h"
using mc::R;
using mc::strf;
typedef std::string S;
typedef long long ll;
int remux_main(int argc, char* argv[]);
namespace {
using eb::El;
struct Fr { int tr; ll tick; bool key; S data; ll discard = 0; int lace = 0; S extra[2]; bool group = false; bool newcl = false; };
struct In {
  ll scale = 1000000;
  bool video = true, audio = true, sub = false, audio_first = false;
  int vnum = 1, anum = 2;
  S vcodec = "V_VP9", acodec = "A_OPUS", vpriv, apriv, vname, aname;
  int colour = 0, projection = 0;        // 0: none, 1: everything, others: single values
  int width = 320, height = 240, srate = 48000, chan = 2;
  double rate = 0;
  int ntags = 2;
  bool tags = false, info_first = true, unknown = false, cues = false;
  int bits = 0;
  ll delay = 0, preroll = 0;
  double duration = -1;
  std::vector<Fr> fr;
};
struct Opt { std::vector<S> args; std::map<S, S> o; void set(const S& k, const S& v) { args.push_back("-" + k); args.push_back(v); o[k] = v; } bool is(const char* k, bool d) const { auto i = o.find(k); return i == o.end() ? d : i->second != "0"; } S get(const char* k) const { auto i = o.find(k); return i == o.end() ? "" : i->second; } };
struct CV { uint32_t id; double v; bool master; };
const CV COL[] = {
  {eb::MatrixCoefficients, 9, false}, {eb::MatrixCoefficients, 0, false}, {eb::BitsPerChannel, 10, false}, {eb::ChromaSubsamplingHorz, 1, false}, {eb::ChromaSubsamplingVert, 1, false}, {eb::ChromaSubsamplingVert, 0, false},
  {eb::CbSubsamplingHorz, 1, false}, {eb::CbSubsamplingVert, 1, false}, {eb::ChromaSitingHorz, 2, false}, {eb::ChromaSitingVert, 1, false}, {eb::Range, 1, false}, {eb::Range, 2, false}, {eb::TransferCharacteristics, 16, false},
  {eb::Primaries, 9, false}, {eb::MaxCLL, 1000, false}, {eb::MaxCLL, 70000, false}, {eb::MaxFALL, 400, false}, {eb::LuminanceMax, 1000, true}, {eb::LuminanceMin, 0.0625, true},
  {eb::PrimaryRChromaticityX, 0.5, true}, {eb::PrimaryGChromaticityX, 0.5, true}, {eb::PrimaryBChromaticityX, 0.5, true}, {eb::WhitePointChromaticityX, 0.5, true},
  {eb::PrimaryRChromaticityX, 0, true}, {eb::WhitePointChromaticityX, 1, true},
};
const int NCOL = sizeof COL / sizeof *COL;
El colour(int k) {
  El c(eb::Colour), m(eb::MasteringMetadata);
  if (k >= 2) {                          // one value (or pair of coordinates) alone
    const CV& x = COL[k - 2];
    if (!x.master) { c.add(eb::eu(x.id, (uint64_t)x.v)); return c; }
    m.add(eb::ef(x.id, x.v));
    if (x.id != eb::LuminanceMax && x.id != eb::LuminanceMin) m.add(eb::ef(x.id + 1, 0.25));
    c.add(m);
    return c;
  }
  c.add(eb::eu(eb::MatrixCoefficients, 9)).add(eb::eu(eb::BitsPerChannel, 10)).add(eb::eu(eb::ChromaSubsamplingHorz, 1)).add(eb::eu(eb::ChromaSubsamplingVert, 1))
   .add(eb::eu(eb::Range, 1)).add(eb::eu(eb::TransferCharacteristics, 16)).add(eb::eu(eb::Primaries, 9)).add(eb::eu(eb::MaxCLL, 1000)).add(eb::eu(eb::MaxFALL, 400));
  m.add(eb::ef(eb::PrimaryRChromaticityX, 0.5)).add(eb::ef(eb::PrimaryRChromaticityY, 0.25)).add(eb::ef(eb::WhitePointChromaticityX, 0.125)).add(eb::ef(eb::WhitePointChromaticityY, 0.375))
   .add(eb::ef(eb::LuminanceMax, 1000)).add(eb::ef(eb::LuminanceMin, 0.0625));
  c.add(m);
  return c;
}
const int NPROJ = 8;
El projection(int k) {
  El p(eb::Projection);
  p.add(eb::eu(eb::ProjectionType, k == 1 ? 1 : k == 2 ? 0 : k == 3 ? 2 : k == 4 ? 3 : 1));
  if (k == 1 || k == 3 || k == 4) p.add(eb::es(eb::ProjectionPrivate, S("\1\2\0\3", 4)));
  if (k == 8) p.add(eb::es(eb::ProjectionPrivate, S(300, 'm')));
  if (k == 1) p.add(eb::ef(eb::ProjectionPoseYaw, 10)).add(eb::ef(eb::ProjectionPosePitch, -20)).add(eb::ef(eb::ProjectionPoseRoll, 30.5));
  if (k == 5) p.add(eb::ef(eb::ProjectionPoseYaw, -0.5));
  if (k == 6) p.add(eb::ef(eb::ProjectionPosePitch, 90));
  if (k == 7) p.add(eb::ef(eb::ProjectionPoseRoll, -180));
  return p;
}
S encode(const In& in) {
  El head(eb::EBML);
  head.add(eb::eu(eb::EBMLVersion, 1)).add(eb::eu(eb::EBMLReadVersion, 1)).add(eb::eu(eb::EBMLMaxIDLength, 4)).add(eb::eu(eb::EBMLMaxSizeLength, 8)).add(eb::es(eb::DocType, "webm")).add(eb::eu(eb::DocTypeVersion, 4)).add(eb::eu(eb::DocTypeReadVersion, 2));
  El info(eb::Info);
  info.add(eb::eu(eb::TimecodeScale, in.scale));
  if (in.duration >= 0) info.add(eb::ef(eb::Duration, in.duration));
  info.add(eb::es(eb::MuxingApp, "m")).add(eb::es(eb::WritingApp, "w"));
  El v(eb::TrackEntry), a(eb::TrackEntry), s(eb::TrackEntry);
  v.add(eb::eu(eb::TrackNumber, in.vnum)).add(eb::eu(eb::TrackUID, 77)).add(eb::eu(eb::TrackType, 1)).add(eb::es(eb::CodecID, in.vcodec));
  if (!in.vname.empty()) v.add(eb::es(eb::Name, in.vname));
  if (!in.vpriv.empty()) v.add(eb::es(eb::CodecPrivate, in.vpriv));
  El vs(eb::Video);
  vs.add(eb::eu(eb::PixelWidth, in.width)).add(eb::eu(eb::PixelHeight, in.height));
  if (in.rate) vs.add(eb::ef(eb::FrameRate, in.rate, 4));
  if (in.colour) vs.add(colour(in.colour));
  if (in.projection) vs.add(projection(in.projection));
  v.add(vs);
  a.add(eb::eu(eb::TrackNumber, in.anum)).add(eb::eu(eb::TrackUID, 78)).add(eb::eu(eb::TrackType, 2)).add(eb::es(eb::CodecID, in.acodec));
  if (!in.aname.empty()) a.add(eb::es(eb::Name, in.aname));
  if (!in.apriv.empty()) a.add(eb::es(eb::CodecPrivate, in.apriv));
  if (in.delay) a.add(eb::eu(eb::CodecDelay, in.delay));
  if (in.preroll) a.add(eb::eu(eb::SeekPreRoll, in.preroll));
  El as(eb::Audio);
  as.add(eb::ef(eb::SamplingFrequency, in.srate)).add(eb::eu(eb::Channels, in.chan));
  if (in.bits) as.add(eb::eu(eb::BitDepth, in.bits));
  a.add(as);
  s.add(eb::eu(eb::TrackNumber, 9)).add(eb::eu(eb::TrackUID, 79)).add(eb::eu(eb::TrackType, 17)).add(eb::es(eb::CodecID, "D_WEBVTT/SUBTITLES"));
  El tr(eb::Tracks);
  if (in.audio && in.audio_first) tr.add(a);
  if (in.video) tr.add(v);
  if (in.audio && !in.audio_first) tr.add(a);
  if (in.sub) tr.add(s);
  El seg(eb::Segment);
  if (in.unknown) seg.unknown = true, seg.size_len = 8;
  if (in.info_first) seg.add(info).add(tr); else seg.add(tr).add(info);
  if (in.tags) {
    El t(eb::Tags);
    for (int k = 0, id = 0; k < in.ntags; ++k) {        // tags of 2, 1, 2, 1 ... values
      El tag(eb::Tag);
      for (int x = k % 2; x < 2; ++x, ++id) tag.add(El(eb::SimpleTag).add(eb::es(eb::TagName, strf("n%d", id))).add(eb::es(eb::TagString, id == 3 ? S(200, 's') : strf("s%d", id))));
      t.add(tag);
    }
    seg.add(t);
  }
  El cl(eb::Cluster);
  ll base = 0;
  bool open = false;
  auto flush = [&]() { if (open) seg.add(cl); open = false; };
  for (auto& f : in.fr) {
    if (!open || f.newcl || f.tick - base > 30000) { flush(); cl = El(eb::Cluster); base = f.tick; cl.add(eb::eu(eb::Timecode, base)); open = true; }
    std::vector<S> fs{f.data};
    for (auto& x : f.extra) if (!x.empty()) fs.push_back(x);
    int num = f.tr == 0 ? in.vnum : f.tr == 1 ? in.anum : 9;
    El b(f.group || f.discard ? eb::Block : eb::SimpleBlock);
    b.leaf = true;
    bool grp = f.group || f.discard;
    b.data = eb::enc_block(num, (int16_t)(f.tick - base), !grp && f.key ? 0x80 : 0, fs.size() > 1 ? f.lace : 0, fs);
    if (grp) {
      El g(eb::BlockGroup);
      g.add(b);
      if (f.discard) g.add(eb::ei(eb::DiscardPadding, f.discard));
      if (!f.key) g.add(eb::ei(eb::ReferenceBlock, -1));
      cl.add(g);
    } else cl.add(b);
  }
  flush();
  return head.enc() + seg.enc();
}
struct Dir {
  S path;
  Dir() { path = mc::scratch() + "/remuxXXXXXX"; if (!mkdtemp(&path[0])) abort(); }
  void clear() { if (DIR* d = opendir(path.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str()); closedir(d); } }
  std::vector<S> list() { std::vector<S> v; if (DIR* d = opendir(path.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); } return v; }
};
bool slurp(const S& p, S* s) {
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return false;
  char b[65536];
  for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) s->append(b, n);
  fclose(f);
  return true;
}
void spit(const S& p, const S& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) abort(); fclose(f); }
S val(const eb::Node* n, uint32_t id) {
  const eb::Node* k = n ? n->find(id) : nullptr;
  if (!k) return "-";
  switch (k->sp ? k->sp->t : eb::B) {
    case eb::U: return strf("%llu", (unsigned long long)k->u());
    case eb::I: return strf("%lld", (ll)k->i());
    case eb::F: return strf("%g", (double)(float)k->f());
    case eb::M: { S s = "{"; for (auto& x : k->kids) s += strf("%x=", x.id) + val(k, x.id) + ";"; return s + "}"; }
    default: return "'" + k->data + "'";
  }
}
void expect(const char* what, const S& want, const S& got) { if (want != got) FAIL("%s is %s, not %s", what, got.c_str(), want.c_str()); }
// Sorted description of a master's leaves, so that the order of elements does not matter.
S flat(const eb::Node* n) {
  if (!n) return "-";
  std::map<S, S> m;
  for (auto& x : n->kids) m[strf("%x", x.id)] = x.sp && x.sp->t == eb::M ? flat(&x) : val(n, x.id);
  S s;
  for (auto& x : m) s += x.first + "=" + x.second + ";";
  return s;
}
S flat_el(const El& e, uint32_t parent) {
  std::map<S, S> m;
  for (auto& x : e.kids) {
    const eb::Spec* sp = eb::spec(x.id, e.id);
    S v;
    if (!x.kids.empty()) v = flat_el(x, e.id);
    else if (sp->t == eb::U) v = strf("%llu", (unsigned long long)eb::dec_uint(x.data));
    else if (sp->t == eb::F) v = strf("%g", (double)(float)eb::dec_float(x.data));
    else v = "'" + x.data + "'";
    m[strf("%x", x.id)] = v;
  }
  S s;
  for (auto& x : m) s += x.first + "=" + x.second + ";";
  return s;
}
void run(const In& in, const Opt& op, bool must_fail, const S& what) {
  R.desc = what;
  for (auto& a : op.args) R.desc += " " + a;
  R.desc += strf("; scale %lld frames", in.scale);
  for (auto& f : in.fr) R.desc += strf(" %c%lld%s%s", "vas"[f.tr], f.tick, f.key ? "k" : "", f.newcl ? "|" : "");
  static Dir* dir = nullptr;
  if (!dir) { dir = new Dir; setenv("TEST_TMPDIR", dir->path.c_str(), 1); if (!R.replay && !freopen("/dev/null", "w", stdout)) abort(); }
  dir->clear();
  S src = dir->path + "/in.webm", dst = dir->path + "/out.webm", raw = encode(in);
  spit(src, raw);
  std::vector<S> a{"mkvmuxer_sample", "-i", src, "-o", dst};
  for (auto& x : op.args) a.push_back(x == "@VTT" ? dir->path + "/s.vtt" : x == "@PROJ" ? dir->path + "/proj" : x == "@CHUNK" ? dir->path + "/chunk" : x);
  spit(dir->path + "/s.vtt", "WEBVTT\n\n00:00.000 --> 00:00.010\nx\n\n00:50.000 --> 00:51.000\ny\n");
  spit(dir->path + "/proj", S("pq\0r", 4));
  std::vector<char*> av;
  for (auto& x : a) av.push_back(&x[0]);
  int rc = remux_main((int)av.size(), av.data());
  mc::tick();
  mc::state();
  if (must_fail) { if (rc == 0) FAIL("invalid request accepted"); mc::outcome(mc::hstr(R.desc)); return; }
  if (rc != 0 && op.is("cues_before_clusters", false)) {      // refused when there are no cues to move
    bool any = false;
    const bool onv = op.is("video", true) && in.video, ona = op.is("audio", true) && in.audio;
    int ct = op.is("cues_on_audio_track", false) && ona ? 1 : op.is("cues_on_video_track", true) && onv ? 0 : onv ? 0 : 1;
    for (auto& f : in.fr) any |= f.tr == ct && f.key;
    if (!any || !op.is("output_cues", true)) return;
  }
  if (rc != 0) FAIL("remuxing failed");
  S out;
  bool chunk = op.o.count("chunking");
  if (chunk) {
    if (!slurp(dir->path + "/chunk.hdr", &out)) FAIL("no header file");
    int n = 0;
    for (;; ++n) if (!slurp(dir->path + strf("/chunk_%06d.chk", n), &out)) break;
    slurp(dir->path + strf("/chunk_%06d.cues", n), &out);
    S rest;
    if (slurp(dst, &rest) && !rest.empty()) FAIL("chunked output also went to the plain file");
  } else if (!slurp(dst, &out)) FAIL("no output file");
  S raw2;
  if (!slurp(src, &raw2) || raw2 != raw) FAIL("input file changed");
  for (auto& n : dir->list()) if (n != "in.webm" && n != "out.webm" && n != "s.vtt" && n != "proj" && n.compare(0, 5, "chunk")) FAIL("file %s left behind", n.c_str());
  mx::View v;
  S e = mx::view(out, &v);
  if (!e.empty()) FAIL("output not well-formed: %s", e.c_str());
  bool live = op.is("live", false), ov = op.is("video", true) && in.video, oa = op.is("audio", true) && in.audio;
  const eb::Node* info = v.seg->find(eb::Info);
  expect("timecode scale", strf("%lld", in.scale), val(info, eb::TimecodeScale));
  if (op.is("copy_input_duration", false) && !live && in.duration >= 0) {
    const eb::Node* d = info->find(eb::Duration);
    if (!d || fabs(d->f() - in.duration) > 1e-6 * (1 + in.duration)) FAIL("duration is %g, not %g", d ? d->f() : -1.0, in.duration);
  }
  if (live != v.seg->unknown && !chunk) FAIL("live output %d but size known %d", live, !v.seg->unknown);
  // tracks
  const eb::Node* tr = v.seg->find(eb::Tracks);
  std::vector<const eb::Node*> te = tr ? tr->all(eb::TrackEntry) : std::vector<const eb::Node*>();
  bool vtt = op.o.count("webvtt-subtitles");
  size_t want = (size_t)ov + oa + vtt;
  if (te.size() != want) FAIL("%zu tracks, not %zu", te.size(), want);
  std::vector<int> order;
  std::vector<int> src_order;
  if (in.audio && in.audio_first) src_order.push_back(1);
  if (in.video) src_order.push_back(0);
  if (in.audio && !in.audio_first) src_order.push_back(1);
  if (in.sub) src_order.push_back(2);
  for (size_t i = 0; i < src_order.size(); ++i) {
    int t = op.is("switch_tracks", false) ? src_order[(i + 1) % src_order.size()] : src_order[i];
    if ((t == 0 && ov) || (t == 1 && oa)) order.push_back(t);
  }
  uint64_t num[3] = {0, 0, 0};
  for (size_t i = 0; i < order.size(); ++i) {
    const eb::Node* t = te[i];
    int k = order[i];
    expect("track type", k == 0 ? "1" : "2", val(t, eb::TrackType));
    num[k] = t->find(eb::TrackNumber)->u();
    S req = op.get(k == 0 ? "video_track_number" : "audio_track_number");
    if (!req.empty() && req != "0") expect("track number", req, val(t, eb::TrackNumber));
    expect("codec id", "'" + (k == 0 ? in.vcodec : in.acodec) + "'", val(t, eb::CodecID));
    S name = k == 0 ? in.vname : in.aname;
    expect("name", name.empty() ? "-" : "'" + name + "'", val(t, eb::Name));
    S priv = k == 0 ? in.vpriv : in.apriv;
    if (k == 0 && (op.o.count("profile") || op.o.count("level")) && in.vcodec == "V_VP9") {
      priv = "";
      if (op.o.count("profile")) priv += S("\1\1", 2) + (char)atoi(op.get("profile").c_str());
      if (op.o.count("level")) priv += S("\2\1", 2) + (char)atoi(op.get("level").c_str());
    }
    expect("codec private data", priv.empty() ? "-" : "'" + priv + "'", val(t, eb::CodecPrivate));
    if (k == 0) {
      const eb::Node* vd = t->find(eb::Video);
      expect("width", op.o.count("pixel_width") ? op.get("pixel_width") : strf("%d", in.width), val(vd, eb::PixelWidth));
      expect("height", op.o.count("pixel_height") ? op.get("pixel_height") : strf("%d", in.height), val(vd, eb::PixelHeight));
      expect("display width", op.o.count("display_width") ? op.get("display_width") : "-", val(vd, eb::DisplayWidth));
      expect("display height", op.o.count("display_height") ? op.get("display_height") : "-", val(vd, eb::DisplayHeight));
      expect("stereo mode", op.o.count("stereo_mode") ? op.get("stereo_mode") : "-", val(vd, eb::StereoMode));
      expect("frame rate", in.rate ? strf("%g", (double)(float)in.rate) : "-", val(vd, eb::FrameRate));
      expect("colour", in.colour ? flat_el(colour(in.colour), eb::Video) : "-", flat(vd->find(eb::Colour)));
      El p(eb::Projection);
      bool ovr = op.o.count("projection_type");
      if (in.projection || ovr) {
        if (in.projection) p = projection(in.projection);
        auto put = [&](El x) { for (auto& k : p.kids) if (k.id == x.id) { k = x; return; } p.add(x); };
        if (ovr) put(eb::eu(eb::ProjectionType, atoi(op.get("projection_type").c_str())));
        if (op.o.count("projection_file")) put(eb::es(eb::ProjectionPrivate, S("pq\0r", 4)));
        if (op.o.count("projection_pose_yaw")) put(eb::ef(eb::ProjectionPoseYaw, atof(op.get("projection_pose_yaw").c_str())));
        if (op.o.count("projection_pose_pitch")) put(eb::ef(eb::ProjectionPosePitch, atof(op.get("projection_pose_pitch").c_str())));
        if (op.o.count("projection_pose_roll")) put(eb::ef(eb::ProjectionPoseRoll, atof(op.get("projection_pose_roll").c_str())));
        auto zero = [&](uint32_t id) { for (auto& k : p.kids) if (k.id == id) return; p.add(eb::ef(id, 0)); };
        zero(eb::ProjectionPoseYaw); zero(eb::ProjectionPosePitch); zero(eb::ProjectionPoseRoll);   // the muxer writes the default pose
      }
      expect("projection", p.kids.empty() ? "-" : flat_el(p, eb::Video), flat(vd->find(eb::Projection)));
    } else {
      const eb::Node* au = t->find(eb::Audio);
      expect("sampling rate", strf("%g", (double)in.srate), val(au, eb::SamplingFrequency));
      expect("channels", strf("%d", in.chan), val(au, eb::Channels));
      expect("bit depth", in.bits ? strf("%d", in.bits) : "-", val(au, eb::BitDepth));
      expect("codec delay", in.delay ? strf("%lld", in.delay) : "-", val(t, eb::CodecDelay));
      expect("seek pre-roll", in.preroll ? strf("%lld", in.preroll) : "-", val(t, eb::SeekPreRoll));
    }
  }
  // tags
  const eb::Node* tg = v.seg->find(eb::Tags);
  if (op.is("copy_tags", false) && in.tags) {
    S s;
    if (tg) for (auto* t : tg->all(eb::Tag)) { s += "["; for (auto* x : t->all(eb::SimpleTag)) s += val(x, eb::TagName) + "=" + val(x, eb::TagString) + " "; s += "]"; }
    S w;
    for (int k = 0, id = 0; k < in.ntags; ++k) {
      w += "[";
      for (int x = k % 2; x < 2; ++x, ++id) w += strf("'n%d'='", id) + (id == 3 ? S(200, 's') : strf("s%d", id)) + "' ";
      w += "]";
    }
    expect("tags", w, s);
  } else if (tg) FAIL("tags not asked for");
  // frames
  std::map<uint64_t, std::vector<S>> got;
  for (auto& c : v.clusters) for (auto& b : c.blocks) got[b.track].push_back(strf("t%llu%s d%lld ", (unsigned long long)b.tc, b.key ? "k" : "", b.has_discard ? (ll)b.discard : 0ll) + mc::hex(b.payload.data(), b.payload.size(), 4000));
  for (int k = 0; k < 2; ++k) {
    std::vector<S> w;
    if (k == 0 ? ov : oa) for (auto& f : in.fr) if (f.tr == k) {
      std::vector<S> fs{f.data};
      for (auto& x : f.extra) if (!x.empty()) fs.push_back(x);
      for (auto& x : fs) w.push_back(strf("t%lld%s d%lld ", f.tick, f.key ? "k" : "", f.discard) + mc::hex(x.data(), x.size(), 4000));
    }
    std::vector<S> g = num[k] ? got[num[k]] : std::vector<S>();
    for (size_t i = 0; i < w.size() || i < g.size(); ++i) {
      S a = i < w.size() ? w[i] : "nothing", b = i < g.size() ? g[i] : "nothing";
      if (a != b) FAIL("%s frame %zu is [%s], not [%s]", k ? "audio" : "video", i, b.c_str(), a.c_str());
    }
    if (num[k]) got.erase(num[k]);
  }
  size_t other = 0;
  for (auto& g : got) other += g.second.size();
  if (other != (vtt ? 2u : 0u)) FAIL("%zu frames of other tracks", other);
  // options about the layout
  const eb::Node* cues = v.seg->find(eb::Cues);
  if (cues && (!op.is("output_cues", true) || live)) FAIL("cues written");
  if (!live && op.is("output_cues", true) && !chunk && !v.clusters.empty() && !cues) {
    // clusters of the cue track that start with a key frame always exist for a first key frame
    int ct = op.is("cues_on_audio_track", false) && oa ? 1 : op.is("cues_on_video_track", true) && ov ? 0 : -1;
    bool any = false;
    for (auto& f : in.fr) any |= f.tr == ct && f.key;
    if (ct >= 0 && any) FAIL("no cues");
  }
  if (cues) {
    bool first = cues->pos < v.clusters[0].pos;
    if (first != op.is("cues_before_clusters", false)) FAIL("cues %s the clusters", first ? "before" : "after");
    bool bn = op.is("output_cues_block_number", true);
    for (auto* p : cues->all(eb::CuePoint)) for (auto* x : p->all(eb::CueTrackPositions)) {
      if (!bn && x->find(eb::CueBlockNumber)) FAIL("block number in the cues");
      uint64_t t = x->find(eb::CueTrack)->u(), cp = x->find(eb::CueClusterPosition)->u() + v.seg->body(), tm = p->find(eb::CueTime)->u();
      bool hit = false;
      for (auto& c : v.clusters) if (c.pos == cp) for (auto& b : c.blocks) hit |= b.track == t && b.tc == tm;
      if (!hit) FAIL("cue point of track %llu at %llu points nowhere", (unsigned long long)t, (unsigned long long)tm);
      if (op.is("cues_on_audio_track", false) && oa && t != num[1]) FAIL("cue on track %llu", (unsigned long long)t);
      if (!op.is("cues_on_audio_track", false) && op.is("cues_on_video_track", true) && ov && t != num[0]) FAIL("cue on track %llu", (unsigned long long)t);
    }
  }
  // a cluster limit takes effect at the next video frame (details: C05)
  if (op.o.count("max_cluster_duration") && ov) {
    double md = atof(op.get("max_cluster_duration").c_str()) * 1e9;
    for (auto& c : v.clusters) {
      const mx::OBlock* first = nullptr;
      for (auto& b : c.blocks) if (b.track == num[0]) { if (!first) first = &b; else if ((double)(b.tc - first->tc) * in.scale >= md) FAIL("cluster longer than its limit"); }
    }
  }
  if (op.is("fixed_size_cluster_timecode", false))
    for (auto* c : v.seg->all(eb::Cluster)) if (c->find(eb::Timecode)->size != 8) FAIL("cluster timecode of %llu bytes", (unsigned long long)c->find(eb::Timecode)->size);
  if (op.is("accurate_cluster_duration", false))
    for (size_t i = 0; i + 1 < v.clusters.size(); ++i) {
      const mx::OBlock& l = v.clusters[i].blocks.back();
      const mx::OBlock& n = v.clusters[i + 1].blocks[0];
      if (l.track == n.track && l.tc < n.tc && !l.has_dur) FAIL("last block of a cluster without duration");
    }
  mc::outcome(mc::hstr(out));
  mc::sample(R.desc);
}
void common_opts(mc::Chooser& c, Opt* o) {
  if (c.dev(2)) o->set("live", "1");
  if (c.dev(2)) o->set("cues_before_clusters", "1");
  int cu = c.dev(6);
  if (cu == 1) o->set("output_cues", "0");
  if (cu == 2) o->set("cues_on_audio_track", "1");
  if (cu == 3) o->set("cues_on_video_track", "0");
  if (cu == 4) o->set("output_cues_block_number", "0");
  if (cu == 5) { o->set("cues_on_audio_track", "1"); o->set("cues_on_video_track", "1"); o->o.erase("cues_on_audio_track"); }
  int m = c.dev(4);
  if (m == 1) o->set("max_cluster_duration", "0.03");
  if (m == 2) o->set("max_cluster_size", "40");
  if (m == 3) o->set("max_cluster_duration", "1.5");
  int av = c.dev(3);
  if (av == 1) o->set("video", "0");
  if (av == 2) o->set("audio", "0");
  if (c.dev(2)) o->set("switch_tracks", "1");
  int tn = c.dev(4);
  if (tn == 1) o->set("video_track_number", "5");
  if (tn == 2) o->set("audio_track_number", "126");
  if (tn == 3) { o->set("video_track_number", "2"); o->set("audio_track_number", "1"); }
  if (c.dev(2)) o->set("accurate_cluster_duration", "1");
  if (c.dev(2)) o->set("fixed_size_cluster_timecode", "1");
  if (c.dev(2)) { o->args.push_back("-chunking"); o->args.push_back("@CHUNK"); o->o["chunking"] = "x"; }
  if (c.dev(2)) { o->args.push_back("-webvtt-subtitles"); o->args.push_back("@VTT"); o->o["webvtt-subtitles"] = "x"; }
  if (c.dev(2)) o->set("copy_tags", "1");
  if (c.dev(2)) o->set("copy_input_duration", "1");
}
bool sane(const In& in, const Opt& o) {
  if (!(o.is("video", true) && in.video) && !(o.is("audio", true) && in.audio)) return false;    // nothing to write
  bool any = false;
  for (auto& f : in.fr) any |= (f.tr == 0 && o.is("video", true)) || (f.tr == 1 && o.is("audio", true));
  if (!any) return false;
  if (o.is("cues_before_clusters", false) && (o.is("live", false) || o.o.count("chunking"))) return false;   // not finalised to a seekable file
  return true;
}
void frames(mc::Chooser& c, In* in, int n, bool rich) {
  ll t = 0;
  static const ll step[] = {20, 0, 1, 2000, 31000};
  for (int i = 0; i < n; ++i) {
    Fr f;
    int k = c.pick((in->video ? 2 : 0) + (in->audio ? 1 : 0));
    if (!in->video) k = 2;
    f.tr = k == 2 ? 1 : 0;
    f.key = k != 1;
    if (in->video && !in->audio && k == 2) f.tr = 0;
    t += i ? step[c.dev(5)] : 0;
    f.tick = t;
    f.data = strf("f%d", i) + S(i * 3, (char)('a' + i));
    if (rich) {
      int x = c.dev(8);
      if (x == 1) f.group = true;
      if (x == 2) f.discard = 5000;
      if (x == 3) f.discard = -7;
      if (x >= 4 && x <= 6) { f.lace = x - 3; f.extra[0] = f.lace == 2 ? S(f.data.size(), 'q') : S("q"); f.extra[1] = f.lace == 2 ? S(f.data.size(), 'r') : S("rrr"); }
      if (x == 7) f.newcl = true;
    }
    in->fr.push_back(f);
  }
  // the first frame of a video track is a key frame, as in any playable file
  for (auto& f : in->fr) if (f.tr == 0) { f.key = true; break; }
}
}  // namespace

SPACE(C31, options) {   // every pair of options on every short interleaving
  In in;
  Opt o;
  c.set_budget(R.thorough ? 3 : 2);
  int n = 4;
  common_opts(c, &o);
  int who = c.dev(3);
  if (!c.mine()) return nullptr;
  if (who == 1) in.audio = false;
  if (who == 2) in.video = false;
  in.tags = true;
  in.duration = 1234.5;
  frames(c, &in, n, false);
  if (!sane(in, o)) return nullptr;
  return [=]() { run(in, o, false, "options"); };
}
SPACE(C31, content) {   // every kind of block and track setting
  In in;
  Opt o;
  c.set_budget(R.thorough ? 3 : 2);
  static const ll sc[] = {1000000, 100000, 1, 33333};
  in.scale = sc[c.dev(4)];
  in.audio_first = c.dev(2);
  int nn = c.dev(4);
  if (nn == 1) { in.vnum = 7; in.anum = 3; }
  if (nn == 2) { in.vnum = 126; in.anum = 1; }
  if (nn == 3) { in.vnum = 2; in.anum = 1; }
  int at = c.dev(14);
  switch (at) {
    case 1: in.vpriv = S("\0\1\2", 3); break;
    case 2: in.apriv = S(200, 'p'); break;
    case 3: in.vname = "vid\xc3\xa9o"; break;
    case 4: in.aname = "sound"; break;
    case 5: in.colour = true; break;
    case 6: in.projection = true; break;
    case 7: in.rate = 25; break;
    case 8: in.bits = 24; break;
    case 9: in.delay = 6500000; in.preroll = 80000000; break;
    case 10: in.vcodec = "V_AV1"; in.vpriv = S("\x81\0\0\0", 4); break;
    case 11: in.vcodec = "V_VP8"; in.acodec = "A_VORBIS"; in.apriv = "vorbis"; break;
    case 12: in.sub = true; in.fr.push_back(Fr{2, 0, true, "sub"}); break;
    case 13: in.delay = 1; break;
  }
  in.tags = c.dev(2);
  in.info_first = !c.dev(2);
  in.unknown = c.dev(2);
  if (c.dev(2)) in.duration = 777;
  if (!c.mine()) return nullptr;
  frames(c, &in, 3, true);
  int lay = c.pick(3);
  if (lay == 1) o.set("live", "1");
  if (lay == 2) o.set("cues_before_clusters", "1");
  if (in.tags) o.set("copy_tags", "1");
  if (in.duration >= 0) o.set("copy_input_duration", "1");
  return [=]() { run(in, o, false, strf("content %d", at)); };
}
SPACE(C31, settings) {  // options that set track values, valid and invalid
  In in;
  Opt o;
  in.fr.push_back(Fr{0, 0, true, "v0"});
  in.fr.push_back(Fr{1, 3, true, "a0"});
  c.set_budget(3);
  in.projection = c.dev(2);
  in.vcodec = c.dev(2) ? "V_VP8" : "V_VP9";
  int pv = c.dev(2);
  if (pv) in.vpriv = "own";
  static const char* prof[] = {"0", "1", "2", "3", "4"};
  static const char* lev[] = {"10", "11", "20", "21", "30", "31", "40", "41", "50", "51", "52", "60", "61", "62", "12", "0", "63", "22"};
  bool bad = false;
  int p = c.dev(6), l = c.dev(19);
  if (p) { o.set("profile", prof[p - 1]); bad |= p == 5 && in.vcodec == "V_VP9"; }
  if (l) { o.set("level", lev[l - 1]); bad |= l > 14 && in.vcodec == "V_VP9"; }
  if (c.dev(2)) o.set("display_width", "1920");
  if (c.dev(2)) o.set("display_height", "1080");
  if (c.dev(2)) o.set("pixel_width", "640");
  if (c.dev(2)) o.set("pixel_height", "481");
  int st = c.dev(4);
  if (st) o.set("stereo_mode", st == 1 ? "1" : st == 2 ? "3" : "11");
  int pt = c.dev(5), pf = c.dev(2);
  if (pt) {
    o.set("projection_type", strf("%d", pt - 1));
    if (pf) { o.args.push_back("-projection_file"); o.args.push_back("@PROJ"); o.o["projection_file"] = "x"; }
    if (pt == 1 && pf) bad = true;
    if ((pt == 3 || pt == 4) && !pf) bad = true;
  } else if (pf) return nullptr;
  if (pt || in.projection) {
    int py = c.dev(4);
    if (py == 1) o.set("projection_pose_yaw", "45.5");
    if (py == 2) o.set("projection_pose_pitch", "-90");
    if (py == 3) o.set("projection_pose_roll", "180");
  }
  if (!c.mine()) return nullptr;
  return [=]() { run(in, o, bad, "settings"); };
}
SPACE(C31, values) {    // single values of the tracks, and limits that fall on frame times
  In in;
  Opt o;
  c.set_budget(R.thorough ? 3 : 2);
  static const int W[] = {320, 1, 16383, 65536}, H[] = {240, 1, 16384, 70000}, SR[] = {48000, 1, 8000, 44100, 96000, 192000}, CH[] = {2, 1, 6, 8, 255}, BD[] = {0, 1, 8, 16, 32, 64};
  static const double RT[] = {0, 0.5, 23.976, 59.94, 120, 1000};
  static const ll DL[] = {0, 1, 255, 256, 6500000, 5000000000ll, 1ll << 40}, PR[] = {0, 1, 80000000, 5000000000ll, 1ll << 40};
  in.width = W[c.dev(4)];
  in.height = H[c.dev(4)];
  in.srate = SR[c.dev(6)];
  in.chan = CH[c.dev(5)];
  in.bits = BD[c.dev(6)];
  in.rate = RT[c.dev(6)];
  in.delay = DL[c.dev(7)];
  in.preroll = PR[c.dev(5)];
  in.colour = c.dev(NCOL + 2);
  in.projection = c.dev(NPROJ + 1);
  static const int NP[] = {0, 1, 2, 126, 127, 128, 5000, 70000};
  int pv = NP[c.dev(8)], pa = NP[c.dev(8)];
  in.vpriv = S(pv, 'v');
  in.apriv = S(pa, 'a');
  int nm = c.dev(4);
  in.vname = nm == 1 ? "x" : nm == 2 ? S(127, 'n') : nm == 3 ? S(20000, 'n') : S();
  int tg = c.dev(6);
  if (tg) { in.tags = true; in.ntags = tg == 1 ? 1 : tg == 2 ? 3 : tg == 3 ? 4 : tg == 4 ? 7 : 20; o.set("copy_tags", "1"); }
  static const double DU[] = {-1, 0.5, 1, 4294967296.0, 1e10};
  in.duration = DU[c.dev(5)];
  if (in.duration > 0) o.set("copy_input_duration", "1");
  static const char* MD[] = {"0.033", "0.001", "0.017", "0.007", "0.1", "1.001", "12.345", "0.0005"};
  static const int ST[] = {33, 1, 17, 7, 100, 1001, 12345, 1};
  int md = c.dev(9), sz = c.dev(5);
  if (md) o.set("max_cluster_duration", MD[md - 1]);
  static const int SZ[][3] = {{3, 4, 5}, {5000, 1, 5001}, {1, 70000, 3}, {200, 100, 150}, {127, 128, 16384}};
  for (int i = 0; i < 6; ++i) { Fr f{i % 2, (i / 2) * (ll)(md ? ST[md - 1] : 33), i < 2 || i % 2 == 1, S(SZ[sz][i / 2], (char)('a' + i))}; in.fr.push_back(f); }
  if (!c.mine()) return nullptr;
  return [=]() { run(in, o, false, "values"); };
}
SPACE(C31, order) {     // longer interleavings, cluster limits
  In in;
  Opt o;
  int n = R.thorough ? 8 : 6;
  int m = c.pick(4);
  if (m == 1) o.set("max_cluster_duration", "0.03");
  if (m == 2) o.set("max_cluster_size", "40");
  if (m == 3) o.set("accurate_cluster_duration", "1");
  if (!c.mine()) return nullptr;
  c.set_budget(R.thorough ? 2 : 1);
  frames(c, &in, n, false);
  return [=]() { run(in, o, false, "order"); };
}
