// C32: webm_info run on generated files with every option; its report compared with one made by an independent reader.
#include <unistd.h>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
#include "common/webm_endian.h"
#include "docgen.h"
#include "pulllib.h"
#include "vidgen.h"
using mc::R;
using mc::strf;
typedef std::string Str;
typedef long long ll;
typedef unsigned long long ull;
int info_main(int argc, char* argv[]);
int sample_main(int argc, char* argv[]);
int dumpvtt_main(int argc, const char* argv[]);
namespace {
using namespace eb;
using namespace vg;
typedef const eb::Node N;
const char* kOpts[] = {"video", "audio", "size", "offset", "times_seconds", "ebml_header", "segment", "seekhead", "segment_info", "tracks", "clusters", "blocks",
                       "codec_info", "clusters_size", "encrypted_info", "cues", "frame_stats", "vp9_level"};
const bool kDef[] = {true, true, false, false, true, true, true, false, true, true, false, false, false, false, false, false, false, false};
enum { VIDEO, AUDIO, SIZE, OFFSET, SECS, EBMLH, SEG, SEEK, INFO, TRACKS, CLUSTERS, BLOCKS, CODEC, CSIZE, ENC, CUES, STATS, LEVEL, NOPT };
struct Opt {
  std::vector<Str> args;
  bool v[NOPT];
  Opt() { for (int i = 0; i < NOPT; ++i) v[i] = kDef[i]; }
  void all() { args.push_back("-all"); for (auto& x : v) x = true; }
  void set(int i, bool on) { args.push_back(Str(on ? "-" : "-no") + kOpts[i]); v[i] = on; }
  Str str() const { Str s; for (auto& a : args) s += " " + a; return s; }
};
struct Run { int rc = -1; Str out, err; };
Str file() {
  static Str p;
  static pid_t who = 0;
  if (who != getpid()) { who = getpid(); p = mc::scratch() + strf("/info%d.webm", (int)who); }
  return p;
}
template <class T> Run run_main(int (*f)(int, T**), const std::vector<Str>& args) {
  std::vector<Str> a = args;
  a.insert(a.begin(), "program");
  std::vector<T*> av;
  for (auto& s : a) av.push_back(&s[0]);
  av.push_back(nullptr);
  char *ob = nullptr, *eb_ = nullptr;
  size_t on = 0, en = 0;
  fflush(stdout);
  FILE *so = stdout, *se = stderr, *mo = open_memstream(&ob, &on), *me = open_memstream(&eb_, &en);
  stdout = mo;
  stderr = me;
  Run r;
  r.rc = f((int)a.size(), av.data());
  stdout = so;
  stderr = se;
  fclose(mo);
  fclose(me);
  r.out.assign(ob, on);
  r.err.assign(eb_, en);
  free(ob);
  free(eb_);
  mc::state();
  mc::tick((unsigned)args.size());
  return r;
}
Run run(const std::vector<Str>& args) { return run_main(info_main, args); }
void put(const Bytes& b) {
  FILE* f = fopen(file().c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { fprintf(stderr, "scratch file\n"); abort(); }
  fclose(f);
}
// ---------------------------------------------------------------- reference report
struct Rep {
  Str o;
  int ind = 0;
  void tab() { o += Str(ind, ' '); }
  void kv(const char* k, const Str& v) { tab(); o += k; o += ": "; o += v; o += '\n'; }
};
Str g(double d) { return strf("%g", d); }
Str n(ll v) { return strf("%lld", v); }
Str str(N* p, uint32_t id) { auto k = p->find(id); return k ? Str(k->data.c_str()) : Str(); }
ull u(N* p, uint32_t id, ull d) { auto k = p->find(id); return k ? (ull)k->u() : d; }
double fl(N* p, uint32_t id, double d) { auto k = p->find(id); return k ? k->f() : d; }
Str where(const Opt& o, N* e) {
  Str s;
  if (o.v[OFFSET]) s += strf("  @: %llu", (ull)e->pos);
  if (o.v[SIZE]) s += strf("  size: %llu", (ull)(e->hdr + e->size));
  return s + "\n";
}
struct Stats {
  int frames = 0, shown = 0, since = 0, min = 1 << 30;
  bool first = true;
  ll min_at = 0, wmax = 0, wend = 0;
  std::vector<ll> when;
};
Str vp8(const Bytes& f) {
  if (f.size() < 3) return "";
  auto b = [&](size_t i) { return (unsigned)(unsigned char)f[i]; };
  unsigned v = b(0) | b(1) << 8 | b(2) << 16;
  bool key = !(v & 1);
  if (key && !(f.size() >= 6 && b(3) == 0x9d && b(4) == 1 && b(5) == 0x2a)) return " invalid VP8 signature";
  return strf(" key:%d v:%d altref:%d partition_length:%d", key, (v >> 1) & 7, !((v >> 4) & 1), (v >> 5) & 0x7ffff);
}
struct Ctx { Stats st; vp9_parser::Vp9HeaderParser hp; vp9_parser::Vp9LevelStats ls; };
Str vp9(const Bytes& f, ll t, Ctx& c, Str* why) {
  if (f.empty()) return "";
  std::vector<size_t> sz;
  unsigned char mk = f.back();
  if ((mk & 0xe0) == 0xc0) {
    size_t k = (mk & 7) + 1, mag = ((mk >> 3) & 3) + 1, idx = 2 + mag * k;
    if (f.size() >= idx && (unsigned char)f[f.size() - idx] == mk)
      for (size_t i = 0; i < k; ++i) {
        size_t s = 0;
        for (size_t j = mag; j-- > 0;) s = s << 8 | (unsigned char)f[f.size() - idx + 1 + i * mag + j];
        sz.push_back(s);
      }
  }
  Str o;
  size_t at = 0, cnt = sz.empty() ? 1 : sz.size();
  for (size_t i = 0; i < cnt; ++i) {
    size_t len = sz.empty() ? f.size() : sz[i], left = f.size() - at;
    if (len > left) { *why = "superframe"; return o; }
    if (!c.hp.ParseUncompressedHeader((const uint8_t*)f.data() + at, len)) { if (i || len > 2) *why = "vp9 header"; return o; }
    c.ls.AddFrame(c.hp, t);
    bool key = c.hp.key(), alt = c.hp.altref();
    ++c.st.frames;
    c.st.when.push_back(t);
    if (alt) {
      if (!c.st.first && c.st.since < c.st.min) { c.st.min = c.st.since; c.st.min_at = t; }
      c.st.first = false;
      c.st.since = 0;
    } else {
      ++c.st.since;
      ++c.st.shown;
    }
    if (!sz.empty()) o += strf(" packed [%d]: {", (int)i);
    o += strf(" key:%d v:%d altref:%d errm:%d rt:%d ct:%d fpm:%d", key, c.hp.profile(), alt, c.hp.error_resilient_mode(), c.hp.row_tiles(), c.hp.column_tiles(), c.hp.frame_parallel_mode());
    if (key) {
      if (left > 4) o += strf(" cs:%d", c.hp.color_space());
      if (c.hp.display_width() != c.hp.width() || c.hp.display_height() != c.hp.height()) o += strf(" dw:%d dh:%d", c.hp.display_width(), c.hp.display_height());
    }
    if (!sz.empty()) { o += strf(" size: %zu }", sz[i]); at += sz[i]; }
  }
  ll in = 0;
  for (ll w : c.st.when) in += w > t - 1000000000ll;
  if (in > c.st.wmax) { c.st.wmax = in; c.st.wend = t; }
  return o;
}
// The first frame of a VP9 CodecPrivate feature list: id, length 1, value.
bool vpx_private(const Bytes& p, int* v) {   // v[1..4]
  if (p.size() == 1) return false;
  if (p.size() == 12)
  for (size_t i = 0; i + 2 < p.size() + 0 || i < p.size(); i += 3) {
    if (i + 3 > p.size() || p[i + 1] != 1 || p[i] < 1 || p[i] > 4) return false;
    v[(int)p[i]] = (unsigned char)p[i + 2];
  }
  else return false;
  return v[1] <= 3 && v[4] <= 3;
}
Str report(const eb::Node& root, const Opt& o, Str* why) {
  Rep r;
  Ctx c;
  N* h = root.find(EBML);
  N* seg = root.find(Segment);
  auto st = [&](const Str& w) { if (why->empty()) *why = w; };
  if (o.v[EBMLH]) {
    r.o += "EBML Header:\n";
    r.ind += 2;
    r.kv("EBMLVersion       ", n(u(h, EBMLVersion, 1)));
    r.kv("EBMLReadVersion   ", n(u(h, EBMLReadVersion, 1)));
    r.kv("EBMLMaxIDLength   ", n(u(h, EBMLMaxIDLength, 4)));
    r.kv("EBMLMaxSizeLength ", n(u(h, EBMLMaxSizeLength, 8)));
    r.kv("Doc Type          ", str(h, DocType));
    r.kv("DocTypeVersion    ", n(u(h, DocTypeVersion, 1)));
    r.kv("DocTypeReadVersion", n(u(h, DocTypeReadVersion, 1)));
    r.ind -= 2;
  }
  if (o.v[SEG]) {
    Str w = where(o, seg);
    if (seg->unknown && o.v[SIZE]) w = w.substr(0, w.find("size: ")) + "size: unknown\n";
    r.o += "Segment:" + w;
    r.ind += 2;
  }
  std::vector<N*> pre;
  for (auto& k : seg->kids) { if (k.id == Cluster) break; pre.push_back(&k); }
  auto first = [&](uint32_t id) -> N* { for (auto k : pre) if (k->id == id) return k; return nullptr; };
  N* sh = first(SeekHead);
  if (o.v[SEEK] && sh) {
    r.tab();
    r.o += "SeekHead:" + where(o, sh);
    r.ind += 2;
    int i = 0;
    for (auto& k : sh->kids) if (k.id == Seek) {
      r.tab();
      r.o += strf("Entry[%d]", i++) + where(o, &k);
      r.ind += 2;
      r.kv("Seek ID       ", strf("%llx", (ull)dec_uint(k.find(SeekID)->data)));
      r.kv("Seek position ", n(u(&k, SeekPosition, 0)));
      r.ind -= 2;
    }
    i = 0;
    for (auto& k : sh->kids) if (k.id == Void) { r.tab(); r.o += strf("Void element[%d]", i++) + where(o, &k); }
    r.ind -= 2;
  }
  N* in = first(Info);
  ll scale = (ll)u(in, TimecodeScale, 1000000);
  double dur = fl(in, Duration, -1);
  ll dns = dur < 0 ? -1 : (ll)(dur * (double)scale);
  if (o.v[INFO]) {
    r.tab();
    r.o += "SegmentInfo:" + where(o, in);
    r.ind += 2;
    r.kv("TimecodeScale ", n(scale) + " ");
    if (o.v[SECS]) r.kv("Duration(secs)", g(dns / 1e9));
    else r.kv("Duration(nano)", n(dns));
    if (!str(in, Title).empty()) r.kv("Title         ", str(in, Title));
    if (!str(in, MuxingApp).empty()) r.kv("MuxingApp     ", str(in, MuxingApp));
    if (!str(in, WritingApp).empty()) r.kv("WritingApp    ", str(in, WritingApp));
    r.ind -= 2;
  }
  N* tr = first(Tracks);
  std::map<ull, N*> track;
  std::map<ull, bool> crypt;
  for (auto t : tr->all(TrackEntry)) {
    track[u(t, TrackNumber, 0)] = t;
    auto ce = t->find(ContentEncodings);
    auto e = ce ? ce->find(ContentEncoding) : nullptr;
    crypt[u(t, TrackNumber, 0)] = e && e->find(ContentEncryption);
  }
  if (o.v[TRACKS]) {
    r.tab();
    r.o += "Tracks:" + where(o, tr);
    for (auto t : tr->all(TrackEntry)) {
      r.ind += 2;
      r.tab();
      r.o += "Track:" + where(o, t);
      r.ind += 2;
      ull type = u(t, TrackType, 0);
      r.kv("TrackType   ", n(type));
      r.kv("TrackNumber ", n(u(t, TrackNumber, 0)));
      if (!str(t, Name).empty()) r.kv("Name        ", str(t, Name));
      if (t->find(CodecID)) r.kv("CodecID     ", str(t, CodecID));
      if (!str(t, CodecName).empty()) r.kv("CodecName   ", str(t, CodecName));
      auto cp = t->find(CodecPrivate);
      if (cp && !cp->data.empty()) {
        r.kv("PrivateData(size)", n((ll)cp->data.size()));
        if (type == 1 && str(t, CodecID) == "V_VP9") {
          int f[5] = {-1, -1, -1, -1, -1};
          if (!vpx_private(cp->data, f)) st("vp9 private data");
          static const char* nm[] = {"", "VP9 profile            ", "VP9 level              ", "VP9 bit_depth          ", "VP9 chroma subsampling "};
          for (int i = 1; i < 5; ++i) if (f[i] != -1) r.kv(nm[i], n(f[i]));
        }
      }
      if (u(t, DefaultDuration, 0)) r.kv("DefaultDuration", n(u(t, DefaultDuration, 0)));
      auto ces = t->find(ContentEncodings);
      if (auto e = ces ? ces->find(ContentEncoding) : nullptr) {
        r.kv("ContentEncodingOrder ", n(u(e, ContentEncodingOrder, 0)));
        r.kv("ContentEncodingScope ", n(u(e, ContentEncodingScope, 1)));
        r.kv("ContentEncodingType  ", n(u(e, ContentEncodingType, 0)));
        if (auto y = e->find(ContentEncryption)) {
          auto hx = [](const Bytes& b, const char* f) { Str s; for (unsigned char ch : b) s += strf(f, ch); return s; };
          auto bin = [&](uint32_t id) { auto k = y->find(id); return k ? k->data : Bytes(); };
          r.kv("ContentEncAlgo       ", n(u(y, ContentEncAlgo, 0)));
          if (!bin(ContentEncKeyID).empty()) r.kv("ContentEncKeyID      ", hx(bin(ContentEncKeyID), "0x%02x, "));
          if (!bin(ContentSignature).empty()) r.kv("ContentSignature     ", "0x" + hx(bin(ContentSignature), "%02x"));
          if (!bin(ContentSigKeyID).empty()) r.kv("ContentSigKeyID      ", "0x" + hx(bin(ContentSigKeyID), "%02x"));
          r.kv("ContentSigAlgo       ", n(u(y, ContentSigAlgo, 0)));
          r.kv("ContentSigHashAlgo   ", n(u(y, ContentSigHashAlgo, 0)));
          auto aes = y->find(ContentEncAESSettings);
          r.kv("CipherMode           ", n(aes ? u(aes, AESSettingsCipherMode, 1) : 1));
        }
      }
      if (type == 1) {
        N* v = t->find(Video);
        ull w = u(v, PixelWidth, 0), hh = u(v, PixelHeight, 0), dw = u(v, DisplayWidth, w), dh = u(v, DisplayHeight, hh), du = u(v, DisplayUnit, 0);
        r.kv("PixelWidth  ", n(w));
        r.kv("PixelHeight ", n(hh));
        if (fl(v, FrameRate, 0) > 0) r.kv("FrameRate   ", g(fl(v, FrameRate, 0)));
        if (du || dw != w || dh != hh) {
          r.kv("DisplayWidth  ", n(dw));
          r.kv("DisplayHeight ", n(dh));
          r.kv("DisplayUnit   ", n(du));
        }
        if (N* q = v->find(Colour)) {
          r.tab();
          r.o += "Colour:\n";
          r.ind += 2;
          struct { uint32_t id; const char* k; } ids[] = {{MatrixCoefficients, "MatrixCoefficients      "}, {BitsPerChannel, "BitsPerChannel          "},
            {ChromaSubsamplingHorz, "ChromaSubsamplingHorz   "}, {ChromaSubsamplingVert, "ChromaSubsamplingVert   "}, {CbSubsamplingHorz, "CbSubsamplingHorz       "},
            {CbSubsamplingVert, "CbSubsamplingVert       "}, {ChromaSitingHorz, "ChromaSitingHorz        "}, {ChromaSitingVert, "ChromaSitingVert        "},
            {Range, "Range                   "}, {TransferCharacteristics, "TransferCharacteristics "}, {Primaries, "Primaries               "},
            {MaxCLL, "MaxCLL                  "}, {MaxFALL, "MaxFALL                 "}};
          for (auto& x : ids) if (q->find(x.id)) r.kv(x.k, n(u(q, x.id, 0)));
          if (N* mm = q->find(MasteringMetadata)) {
            r.tab();
            r.o += "MasteringMetadata:\n";
            r.ind += 2;
            struct { uint32_t x, y; const char *kx, *ky; } cc[] = {{PrimaryRChromaticityX, PrimaryRChromaticityY, "PrimaryRChromaticityX   ", "PrimaryRChromaticityY   "},
              {PrimaryGChromaticityX, PrimaryGChromaticityY, "PrimaryGChromaticityX   ", "PrimaryGChromaticityY   "},
              {PrimaryBChromaticityX, PrimaryBChromaticityY, "PrimaryBChromaticityX   ", "PrimaryBChromaticityY   "},
              {WhitePointChromaticityX, WhitePointChromaticityY, "WhitePointChromaticityX ", "WhitePointChromaticityY "}};
            for (auto& x : cc) if (mm->find(x.x) || mm->find(x.y)) { r.kv(x.kx, g((float)fl(mm, x.x, 0))); r.kv(x.ky, g((float)fl(mm, x.y, 0))); }
            if (mm->find(LuminanceMax)) r.kv("LuminanceMax            ", g((float)fl(mm, LuminanceMax, 0)));
            if (mm->find(LuminanceMin)) r.kv("LuminanceMin            ", g((float)fl(mm, LuminanceMin, 0)));
            r.ind -= 2;
          }
          r.ind -= 2;
        }
        if (N* p = v->find(Projection)) {
          r.tab();
          r.o += "Projection:\n";
          r.ind += 2;
          r.kv("ProjectionType            ", n(u(p, ProjectionType, 0)));
          auto pp = p->find(ProjectionPrivate);
          if (pp && !pp->data.empty()) r.kv("ProjectionPrivate(size)   ", n((ll)pp->data.size()));
          if (p->find(ProjectionPoseYaw)) r.kv("ProjectionPoseYaw         ", g((float)fl(p, ProjectionPoseYaw, 0)));
          if (p->find(ProjectionPosePitch)) r.kv("ProjectionPosePitch       ", g((float)fl(p, ProjectionPosePitch, 0)));
          if (p->find(ProjectionPoseRoll)) r.kv("ProjectionPoseRoll         ", g((float)fl(p, ProjectionPoseRoll, 0)));
          r.ind -= 2;
        }
      } else if (type == 2) {
        N* a = t->find(Audio);
        r.kv("Channels         ", n(u(a, Channels, 1)));
        if (u(a, BitDepth, 0)) r.kv("BitDepth         ", n(u(a, BitDepth, 0)));
        r.kv("SamplingFrequency", g(fl(a, SamplingFrequency, 8000)));
        if (u(t, CodecDelay, 0)) r.kv("CodecDelay       ", n(u(t, CodecDelay, 0)));
        if (u(t, SeekPreRoll, 0)) r.kv("SeekPreRoll      ", n(u(t, SeekPreRoll, 0)));
      }
      r.ind -= 4;
    }
  }
  N* cu = seg->find(Cues);
  auto cues = [&]() {
    if (!cu) return;
    r.tab();
    r.o += "Cues:";
    if (o.v[OFFSET]) r.o += strf(" @:%llu", (ull)cu->pos);
    if (o.v[SIZE]) r.o += strf(" size:%llu", (ull)(cu->hdr + cu->size));
    r.o += "\n";
    r.ind += 2;
    int i = 0;
    for (auto p : cu->all(CuePoint)) {
      ++i;
      for (auto t : tr->all(TrackEntry))
        for (auto q : p->all(CueTrackPositions)) if (u(q, CueTrack, 0) == u(t, TrackNumber, 0)) {
          r.tab();
          r.o += strf("Cue Point:%d type:%c track:%llu", i, u(t, TrackType, 0) == 1 ? 'V' : 'A', u(t, TrackNumber, 0));
          ll ns = (ll)u(p, CueTime, 0) * scale;
          r.o += o.v[SECS] ? " secs:" + g(ns / 1e9) : " nano:" + n(ns);
          if (o.v[BLOCKS]) r.o += strf(" block:%llu", u(q, CueBlockNumber, 1));
          if (o.v[OFFSET]) r.o += strf(" @:%llu", u(q, CueClusterPosition, 0));
          r.o += "\n";
          break;
        }
    }
    r.ind -= 2;
  };
  std::vector<N*> cls;   // clusters without blocks are passed over
  for (auto k : seg->all(Cluster)) for (auto& b : k->kids) if (b.id == SimpleBlock || b.id == BlockGroup) { cls.push_back(k); break; }
  bool done = false;
  if (o.v[CUES] && cu && !cls.empty() && cu->pos < cls[0]->pos) { cues(); done = true; }
  if (o.v[CLUSTERS]) { r.tab(); r.o += strf("Clusters (count):%zu\n", cls.size()); }
  ull total = 0;
  ll last_t = -1;
  for (auto cl : cls) {
    ll tc = (ll)u(cl, Timecode, 0);
    total += cl->hdr + cl->size;
    struct B { bool grp; N* e; N* b; BlockData d; ll ns; };
    std::vector<B> bs;
    for (auto& k : cl->kids) {
      N* b = k.id == SimpleBlock ? &k : k.id == BlockGroup ? k.find(Block) : nullptr;
      if (!b) continue;
      B x{k.id == BlockGroup, &k, b, BlockData(), 0};
      read_block(b->data, &x.d);
      x.ns = (tc + x.d.rel) * scale;
      if (!track.count(x.d.track)) st("block of no track");
      bs.push_back(x);
    }
    if (o.v[CLUSTERS]) {
      r.tab();
      r.o += "Cluster:" + where(o, cl);
      r.ind += 2;
      ll d = bs.empty() ? 0 : bs.back().ns - bs[0].ns;
      if (o.v[SECS]) { r.kv("Timecode (sec) ", g(tc * scale / 1e9)); r.kv("Duration (sec) ", g(d / 1e9)); }
      else { r.kv("Timecode (nano)", n(tc * scale)); r.kv("Duration (nano)", n(d)); }
      r.kv("# Blocks       ", n((ll)bs.size()));
    }
    if (o.v[BLOCKS])
      for (auto& b : bs) {
        if (!track.count(b.d.track)) continue;
        N* t = track[b.d.track];
        ull type = u(t, TrackType, 0);
        if (!((type == 1 && o.v[VIDEO]) || (type == 2 && o.v[AUDIO]))) continue;
        if (b.grp) { r.tab(); r.o += "BlockGroup:\n"; r.ind += 2; }
        r.tab();
        bool key = b.grp ? !b.e->find(ReferenceBlock) : (b.d.flags & 0x80) != 0;
        r.o += strf("Block: type:%s frame:%s", type == 1 ? "V" : "A", key ? "I" : "P");
        r.o += o.v[SECS] ? strf(" secs:%5g", b.ns / 1e9) : strf(" nano:%10lld", b.ns);
        if (o.v[OFFSET]) r.o += strf(" @_payload: %llu", (ull)b.b->body());
        if (o.v[SIZE]) r.o += strf(" size_payload: %llu", (ull)b.b->size);
        bool enc = o.v[ENC] && crypt[b.d.track];
        if (enc) {
          const Bytes& f = b.d.frames[0];
          if (f.empty()) st("empty frame");
          else {
            r.o += strf(" enc: %d sub: %d", f[0] & 1, (f[0] >> 1) & 1);
            if ((f[0] & 1) && f.size() >= 9) { r.o += " iv: "; ull iv = 0; for (int i = 8; i >= 1; --i) iv = iv << 8 | (unsigned char)f[i]; r.o += strf("%llx", iv); }
          }
        }
        if (o.v[CODEC]) {
          size_t k = b.d.frames.size();
          if (k > 1) { r.o += "\n"; r.ind += 2; }
          if (type == 1)
            for (auto& fr : b.d.frames) {
              if (k > 1) { r.o += "\n"; r.tab(); r.o += "VP8 data     :"; }
              Bytes f = fr;
              bool show = true;
              if (enc && !f.empty()) {
                if (!(f[0] & 1)) f.erase(0, 1);
                else if (!(f[0] & 2)) show = false;
                else {
                  size_t np = f.size() > 9 ? (unsigned char)f[9] : 0;
                  if (f.size() < 10 || f.size() < 10 + 4 * np) { st("partitions"); show = false; }
                  else {
                    for (size_t i = 0; i < np; ++i) r.o += strf(" off[%zu]:%llu", i, (ull)dec_uint(f.substr(10 + 4 * i, 4)));
                    f.erase(0, 10 + 4 * np);
                  }
                }
              }
              if (show && str(t, CodecID) == "V_VP8") r.o += vp8(f);
              if (show && str(t, CodecID) == "V_VP9") {
                if (b.ns < last_t) st("times go back");
                last_t = b.ns;
                r.o += vp9(f, b.ns, c, why);
              }
            }
          if (k > 1) r.ind -= 2;
        }
        if (b.grp) {
          auto dp = b.e->find(DiscardPadding);
          if (dp && dp->i()) { r.o += "\n"; r.tab(); r.o += strf("DiscardPadding: %10lld", (ll)dp->i()); }
          r.ind -= 2;
        }
        r.o += "\n";
      }
    if (o.v[CLUSTERS]) r.ind -= 2;
  }
  if (o.v[CSIZE]) { r.tab(); r.o += strf("Clusters (size):%llu\n", total); }
  if (o.v[CUES] && !done) cues();
  if (o.v[STATS] && c.st.min != 1 << 30) {
    if (dns <= 0) st("frame rate without a duration");
    r.o += strf("\nActual fps:%g  Displayed fps:%g\n", c.st.frames / (dns / 1e9), c.st.shown / (dns / 1e9));
    r.o += strf("Minimum Altref Distance:%d  at:%g seconds\n", c.st.min, c.st.min_at / 1e9);
    double e = c.st.wend / 1e9;
    r.o += strf("Maximum Window:%g-%g seconds  Window fps:%lld\n", c.st.wend > 1000000000ll ? e - 1 : 0.0, e, c.st.wmax);
  }
  if (o.v[LEVEL]) {
    c.ls.set_duration(dns);
    r.o += strf("VP9 Level:%d\nmlsr:%lld mlps:%lld mlpb:%lld abr:%g mcs:%g cr:%g mct:%d mad:%d mrf:%d\n", (int)c.ls.GetLevel(), (ll)c.ls.GetMaxLumaSampleRate(), (ll)c.ls.GetMaxLumaPictureSize(),
                (ll)c.ls.GetMaxLumaPictureBreadth(), c.ls.GetAverageBitRate(), c.ls.GetMaxCpbSize(), c.ls.GetCompressionRatio(), c.ls.GetMaxColumnTiles(), c.ls.GetMinimumAltrefDistance(), c.ls.GetMaxReferenceFrames());
  }
  return r.o;
}
// mkvparser_sample
Str listing(const eb::Node& root, Str* why) {
  Str o;
  auto p = [&](const Str& s) { o += s; };
  auto st = [&](const Str& w) { if (why->empty()) *why = w; };
  auto nm = [&](N* e, uint32_t id) { Str v = str(e, id); for (unsigned char ch : v) if (ch >= 128) st("characters outside ASCII"); return v.empty() ? Str("NULL") : v; };
  N* h = root.find(EBML);
  N* seg = root.find(Segment);
  int a, b, c, d;
  mkvparser::GetVersion(a, b, c, d);
  p(strf("\t\t libwebm version: %d.%d.%d.%d\n", a, b, c, d));
  p("\t\t\t    EBML Header\n");
  p("\t\tEBML Version\t\t: " + n(u(h, EBMLVersion, 1)) + "\n");
  p("\t\tEBML MaxIDLength\t: " + n(u(h, EBMLMaxIDLength, 4)) + "\n");
  p("\t\tEBML MaxSizeLength\t: " + n(u(h, EBMLMaxSizeLength, 8)) + "\n");
  p("\t\tDoc Type\t\t: " + str(h, DocType) + "\n");
  p(strf("\t\tPos\t\t\t: %llu\n", (ull)h->end()));
  std::vector<N*> pre;
  for (auto& k : seg->kids) { if (k.id == Cluster) break; pre.push_back(&k); }
  auto first = [&](uint32_t id) -> N* { for (auto k : pre) if (k->id == id) return k; return nullptr; };
  N* in = first(Info);
  ll scale = (ll)u(in, TimecodeScale, 1000000);
  double dur = fl(in, Duration, -1);
  ll dns = dur < 0 ? -1 : (ll)(dur * (double)scale);
  p("\n\t\t\t   Segment Info\n");
  p("\t\tTimeCodeScale\t\t: " + n(scale) + " \n");
  p("\t\tDuration\t\t: " + n(dns) + "\n");
  p(strf("\t\tDuration(secs)\t\t: %7.3f\n", dns / 1e9));
  p("\t\tTrack Name\t\t: " + nm(in, Title) + "\n");
  p("\t\tMuxing App\t\t: " + nm(in, MuxingApp) + "\n");
  p("\t\tWriting App\t\t: " + nm(in, WritingApp) + "\n");
  p(strf("\t\tPosition(Segment)\t: %llu\n", (ull)seg->body()));
  p("\t\tSize(Segment)\t\t: " + n(seg->unknown ? -1 : (ll)seg->size) + "\n");
  p("\n\t\t\t   Track Info\n");
  N* tr = first(Tracks);
  std::map<ull, N*> track;
  for (auto t : tr->all(TrackEntry)) {
    ull type = u(t, TrackType, 0);
    track[u(t, TrackNumber, 0)] = t;
    p("\t\tTrack Type\t\t: " + n(type) + "\n");
    p("\t\tTrack Number\t\t: " + n(u(t, TrackNumber, 0)) + "\n");
    p("\t\tTrack Uid\t\t: " + n((ll)u(t, TrackUID, 0)) + "\n");
    Str name = nm(t, Name);
    p("\t\tTrack Name\t\t: " + name + (str(t, Name).empty() ? "\n" : " \n"));
    p("\t\tCodec Id\t\t: " + (t->find(CodecID) ? str(t, CodecID) : "NULL") + "\n");
    auto cp = t->find(CodecPrivate);
    if (cp && !cp->data.empty()) p(strf("\t\tCodec private length: %zu bytes\n", cp->data.size()));
    p("\t\tCodec Name\t\t: " + nm(t, CodecName) + "\n");
    if (type == 1) {
      N* v = t->find(Video);
      p("\t\tVideo Width\t\t: " + n(u(v, PixelWidth, 0)) + "\n");
      p("\t\tVideo Height\t\t: " + n(u(v, PixelHeight, 0)) + "\n");
      p(strf("\t\tVideo Rate\t\t: %f\n", fl(v, FrameRate, 0)));
      if (N* q = v->find(Colour)) {
        p("\t\tVideo Colour:\n");
        for (uint32_t id : {MatrixCoefficients, BitsPerChannel, ChromaSubsamplingHorz, ChromaSubsamplingVert, CbSubsamplingHorz, CbSubsamplingVert, ChromaSitingHorz, ChromaSitingVert, Range, TransferCharacteristics, Primaries, MaxCLL, MaxFALL})
          if (q->find(id)) p(Str("\t\t\t") + name_of(id) + ": " + n(u(q, id, 0)) + "\n");
        if (N* mm = q->find(MasteringMetadata)) {
          p("\t\t\tMastering Metadata:\n");
          for (uint32_t id : {LuminanceMax, LuminanceMin}) if (mm->find(id)) p(strf("\t\t\t\t%s: %f\n", name_of(id), (float)fl(mm, id, 0)));
          const uint32_t ids[4][2] = {{PrimaryRChromaticityX, PrimaryRChromaticityY}, {PrimaryGChromaticityX, PrimaryGChromaticityY}, {PrimaryBChromaticityX, PrimaryBChromaticityY}, {WhitePointChromaticityX, WhitePointChromaticityY}};
          for (auto& x : ids) if (mm->find(x[0]) || mm->find(x[1])) for (uint32_t id : x) p(strf("\t\t\t\t\t%s: %f\n", name_of(id), (float)fl(mm, id, 0)));
        }
      }
      if (N* q = v->find(Projection)) {
        p("\t\tVideo Projection:\n");
        p("\t\t\tProjectionType: " + n(u(q, ProjectionType, 0)) + "\n");
        auto pp = q->find(ProjectionPrivate);
        if (pp && !pp->data.empty()) p(strf("\t\t\tProjectionPrivate: %zu bytes\n", pp->data.size()));
        for (uint32_t id : {ProjectionPoseYaw, ProjectionPosePitch, ProjectionPoseRoll}) if (q->find(id)) p(strf("\t\t\t%s: %f\n", name_of(id), (float)fl(q, id, 0)));
      }
    }
    if (type == 2) {
      N* a2 = t->find(Audio);
      p("\t\tAudio Channels\t\t: " + n(u(a2, Channels, 1)) + "\n");
      p("\t\tAudio BitDepth\t\t: " + n(u(a2, BitDepth, 0)) + "\n");
      p(strf("\t\tAddio Sample Rate\t: %.3f\n", fl(a2, SamplingFrequency, 8000)));
      p("\t\tAudio Codec Delay\t\t: " + n(u(t, CodecDelay, 0)) + "\n");
      p("\t\tAudio Seek Pre Roll\t\t: " + n(u(t, SeekPreRoll, 0)) + "\n");
    }
  }
  std::vector<N*> cls;
  for (auto k : seg->all(Cluster)) for (auto& x : k->kids) if (x.id == SimpleBlock || x.id == BlockGroup) { cls.push_back(k); break; }
  p("\n\n\t\t\t   Cluster Info\n");
  p(strf("\t\tCluster Count\t: %zu\n\n", cls.size()));
  if (cls.empty()) { st("no clusters"); return o; }
  for (auto cl : cls) {
    ll tc = (ll)u(cl, Timecode, 0);
    p("\t\tCluster Time Code\t: " + n(tc) + "\n");
    p("\t\tCluster Time (ns)\t: " + n(tc * scale) + "\n");
    for (auto& k : cl->kids) {
      N* bn = k.id == SimpleBlock ? &k : k.id == BlockGroup ? k.find(Block) : nullptr;
      if (!bn) continue;
      BlockData bd;
      read_block(bn->data, &bd);
      if (!track.count(bd.track)) { p("\t\t\tBlock\t\t:UNKNOWN TRACK TYPE\n"); continue; }
      bool key = k.id == BlockGroup ? !k.find(ReferenceBlock) : (bd.flags & 0x80) != 0;
      auto dp = k.id == BlockGroup ? k.find(DiscardPadding) : nullptr;
      p(strf("\t\t\tBlock\t\t:%s,%s,%15lld,%lld\n", u(track[bd.track], TrackType, 0) == 1 ? "V" : "A", key ? "I" : "P", (tc + bd.rel) * scale, dp ? (ll)dp->i() : 0ll));
      for (size_t i = 0; i < bd.frames.size(); ++i) p(strf("\t\t\t %15zu,%15llx\n", bd.frames[i].size(), (ull)(bn->body() + bd.frame_off[i])));
    }
  }
  if (N* cu = seg->find(Cues)) {
    p("\t\tCues\n");
    int i = 0;
    for (auto q : cu->all(CuePoint)) {
      ++i;
      for (auto t : tr->all(TrackEntry))
        for (auto k : q->all(CueTrackPositions)) if (u(k, CueTrack, 0) == u(t, TrackNumber, 0)) {
          p(strf("\t\t\tCue Point %4d Track %3llu(%c) Time %14lld Block %4llu Pos %8llx\n", i, u(t, TrackNumber, 0), u(t, TrackType, 0) == 1 ? 'V' : 'A', (ll)u(q, CueTime, 0) * scale, u(k, CueBlockNumber, 1), u(k, CueClusterPosition, 0)));
          break;
        }
    }
  }
  if (N* tg = first(Tags)) {
    if (!tg->all(Tag).empty()) p("\t\tTags\n");
    for (auto t : tg->all(Tag)) {
      p("\t\t\tTag\n");
      for (auto k : t->all(SimpleTag)) {
        if (!k->find(TagName) || !k->find(TagString)) st("tag without name or text");
        p("\t\t\t\tSimple Tag \"" + str(k, TagName) + "\" Value \"" + str(k, TagString) + "\"\n");
      }
    }
  }
  return o;
}
// ---------------------------------------------------------------- driving
bool over_max(const eb::Node& n) {
  for (auto& s : eb::table()) {
    if (s.parent != n.id || !s.max || !n.id) continue;
    int k = 0;
    for (auto& c : n.kids) k += c.id == s.id;
    if (k > s.max) return true;
  }
  for (auto& c : n.kids) if (c.id != Void && over_max(c)) return true;
  return false;
}
#define BAD(...) do { if (getenv("INFO_COLLECT")) { printf("%s | %s\n", R.desc.c_str(), strf(__VA_ARGS__).substr(0, 330).c_str()); return; } FAIL(__VA_ARGS__); } while (0)
bool parse(const Bytes& b, eb::Node* root, Str* why) {
  eb::foreign_ok = true;
  Str e = read_doc(b, root, false);
  if (e.empty() && over_max(*root)) e = "more than the allowed number";
  if (!e.empty()) { *why = e; return false; }
  pl::expect(*root, b, why);
  bool unk = false;
  for (auto& k : root->kids) { if (unk && k.id == EBML && why->empty()) *why = "a further header and unknown sizes"; unk = unk || (k.id == Segment && k.unknown); }
  return why->empty();
}
void compare(const eb::Node& root, const Opt& o) {
  Str why;
  static FILE* null = fopen("/dev/null", "w");
  FILE* se = stderr;
  stderr = null;
  Str want = report(root, o, &why);
  stderr = se;
  if (!why.empty()) { if (getenv("INFO_WHY")) printf("%s:%s: %s\n", R.desc.c_str(), o.str().c_str(), why.c_str()); return; }
  std::vector<Str> a = o.args;
  a.push_back("-i");
  a.push_back(file());
  Run r = run(a);
  if (r.rc != 0) BAD("%s, options%s: exit status %d: %s", R.desc.c_str(), o.str().c_str(), r.rc, r.err.c_str());
  if (r.out != want) BAD("%s, options%s: %s", R.desc.c_str(), o.str().c_str(), pl::diff(want, r.out).c_str());
  mc::outcome(mc::hstr(want));
}
void compare_listing(const eb::Node& root) {
  Str why, want = listing(root, &why);
  if (!why.empty()) return;
  Run r = run_main(sample_main, {file()});
  if (r.rc != 0) BAD("mkvparser_sample: exit status %d", r.rc);
  if (r.out != want) BAD("mkvparser_sample: %s", pl::diff(want, r.out).c_str());
}
std::vector<Opt> standard() {
  std::vector<Opt> v(4);
  v[0].all();
  v[1].all();
  v[1].set(SECS, false);
  v[2].set(SEEK, true);
  v[3].set(CSIZE, true);
  v[3].set(CUES, true);
  v[3].set(BLOCKS, true);
  return v;
}
void go(const Bytes& b, const std::vector<Opt>& opts) {
  eb::Node root;
  Str why;
  if (!parse(b, &root, &why)) { if (getenv("INFO_WHY")) printf("%s: %s\n", R.desc.c_str(), why.c_str()); return; }
  put(b);
  for (auto& o : opts) compare(root, o);
  if (opts.size() > 1) compare_listing(root);
  unlink(file().c_str());
}
const std::vector<int> ALL = {dg::AV, dg::TRACK, dg::META, dg::LACES, dg::LIVE, dg::TINY, dg::FRONT, dg::BACK};
mc::Exec exec(const dg::Doc& d, const Str& desc, std::vector<Opt> o) {
  Bytes b = dg::enc(d);
  return [=]() { R.desc = desc; mc::sample(desc); go(b, o); };
}
}  // namespace

SPACE(C32, documents) {
  Str desc;
  dg::EditCfg cfg;
  cfg.zero = false;
  dg::Doc d = dg::pick(c, ALL, 1, cfg, &desc);
  if (d.empty()) return nullptr;
  return exec(d, desc, standard());
}
SPACE(C32, pairs) {
  Str desc;
  dg::EditCfg cfg;
  cfg.zero = false;
  cfg.values = R.thorough;
  cfg.foreign = R.thorough;
  dg::Doc d = dg::pick(c, R.thorough ? ALL : std::vector<int>{dg::TINY, dg::LIVE, dg::LACES, dg::BACK}, 2, cfg, &desc);
  if (d.empty()) return nullptr;
  std::vector<Opt> o = standard();
  o.resize(2);
  return exec(d, desc, o);
}
// every option alone, every pair and (thorough) triple, from the default, from -all and the other way round
SPACE(C32, options) {
  static const std::vector<int> docs = {dg::AV, dg::TRACK, dg::FRONT, dg::LIVE};
  int s = docs[c.pick(4)];
  int base = c.pick(3), k = c.pick(R.thorough ? 5 : 4);
  Opt o;
  if (base == 1) o.all();
  int from = 0;
  Str desc = dg::seed_name(s);
  for (int i = 0; i < k && from < NOPT; ++i) {
    int q = from + c.pick(NOPT - from);
    o.set(q, base == 1 ? false : base == 2 ? kDef[q] : !kDef[q]);
    from = q + 1;
    if (i == 1 && !c.mine()) return nullptr;
  }
  if (base == 2) o.all();
  dg::Doc d = dg::seed(s);
  return exec(d, desc, {o});
}
// sequences of VP9 frames at all combinations of times
SPACE(C32, vp9) {
  static const char kinds[] = "kpaedsw";
  static const int gaps[] = {0, 40, 500, 999, 1000, 1001};
  int nf = 1 + c.pick(R.thorough ? 5 : 4);
  ll t = 0;
  std::vector<El> bl;
  Str desc = "vp9";
  for (int i = 0; i < nf; ++i) {
    int k = c.pick(nf > 3 ? 3 : 7);
    if (i) t += gaps[nf > 4 ? 1 + 3 * c.pick(2) : c.pick(nf > 3 ? 3 : 6)];
    if (i == 0 && !c.mine()) return nullptr;
    if (t > 32767) return nullptr;
    bl.push_back(block((int)t, k == 0 || k > 3 ? 0x80 : 0, 0, {vp9_frame(kinds[k])}));
    desc += strf(" %c@%lld", kinds[k], t);
  }
  std::vector<Opt> o(2);
  o[0].all();
  o[1].all();
  o[1].set(SECS, false);
  return exec(video("V_VP9", false, bl, 40 + (double)t), desc, o);
}
// superframes
SPACE(C32, superframes) {
  static const char kinds[] = "kpad";
  int pre = c.pick(3), nf = 1 + c.pick(4), mag = 1 + c.pick(4), lace = c.pick(3);
  std::vector<Bytes> f;
  Str desc = strf("superframe mag %d after %d, lacing %d:", mag, pre, lace);
  for (int i = 0; i < nf; ++i) { int k = c.pick(4); f.push_back(vp9_frame(kinds[k])); desc += kinds[k]; }
  std::vector<El> bl;
  if (pre >= 1) bl.push_back(block(0, 0x80, 0, {vp9_frame('k')}));
  if (pre >= 2) bl.push_back(block(10, 0, 0, {superframe({vp9_frame('a'), vp9_frame('p')}, 2)}));
  Bytes sf = superframe(f, mag);
  if (lace == 0) bl.push_back(block(33, 0, 0, {sf}));
  else if (lace == 1) bl.push_back(block(33, 0, 1, {sf, vp9_frame('p')}));
  else bl.push_back(block(33, 0, 3, {vp9_frame('p'), vp9_frame('k'), sf}));
  return exec(video("V_VP9", false, bl, 2000), desc, {standard()[0]});
}
// VP8 frame headers: every value of the first byte, other bytes at their extremes, every length up to 8
SPACE(C32, vp8) {
  int b0 = c.pick(256), len = 1 + c.pick(8), rest = c.pick(4);
  Bytes f = Bytes(1, (char)b0) + (rest == 0 ? Bytes("\x00\x00\x9d\x01\x2a\x10\x00", 7) : rest == 1 ? Bytes("\xff\xff\x9d\x01\x2a\x10\x00", 7) : rest == 2 ? Bytes("\x12\x34\x9d\x01\x2b\x10\x00", 7) : Bytes("\x01\x80\x00\x00\x00\x00\x00", 7));
  f.resize(len);
  int lace = c.pick(2);
  El b = lace ? block(5, 0x80, 1, {f, f}) : block(5, 0x80, 0, {f});
  return exec(video("V_VP8", false, {b}), strf("vp8 %s lacing %d", mc::hex(f.data(), f.size()).c_str(), lace), {standard()[0]});
}
// frames and clusters of every order of size, in one or several clusters
SPACE(C32, large) {
  static const int SZ[] = {1, 120, 16380, 32760, 65536, 70000, 200000};
  std::vector<El> bl;
  int n = 1 + c.pick(3), codec = c.pick(2);
  std::string desc = "frames of";
  for (int i = 0; i < n; ++i) {
    int z = SZ[c.pick(7)];
    bl.push_back(block(i * 30, i ? 0 : 0x80, 0, {(codec ? vp9_frame(i ? 'p' : 'k') : Bytes("\x10\x02\x00\x9d\x01\x2a\x40\x00\x30\x00", 10)) + Bytes(z, '\x55')}));
    desc += strf(" %d", z);
  }
  return exec(video(codec ? "V_VP9" : "V_VP8", false, bl), desc, standard());
}
// encrypted frames: signal byte, initialization vector, partitions, lengths; after a longer frame
SPACE(C32, encrypted) {
  int sig = c.pick(4), np = c.pick(4), cut = c.pick(30), before = c.pick(2), codec = c.pick(2), first = c.pick(3);
  Bytes f(1, (char)(sig | (cut % 2 ? 0x80 : 0)));
  if (sig & 1) f += first == 0 ? Bytes("\x01\x02\x03\x04\x05\x06\x07\x08") : first == 1 ? Bytes("\0\0\0\0\0\0\0\x09", 8) : Bytes("\xff\xfe\xfd\xfc\xfb\xfa\xf9\x00", 8);
  if (sig == 3) { f += (char)np; for (int i = 0; i < np; ++i) f += enc_uint(first == 1 ? 0xfffefdfcu - i : 7 + i * 256, 4); }
  Bytes body = codec ? vp9_frame('k') : Bytes("\x10\x02\x00\x9d\x01\x2a\x40\x00\x30\x00", 10);
  f += body;
  if (cut > (int)f.size()) return nullptr;
  if (cut) f.resize(cut);
  std::vector<El> bl;
  if (before) bl.push_back(block(0, 0x80, 0, {Bytes(60, '\x07')}));
  bl.push_back(block(1, 0x80, 0, {f}));
  bl.push_back(block(2, 0x80, 1, {f, f}));
  std::vector<Opt> o = standard();
  o.resize(2);
  o[1] = Opt();
  o[1].set(BLOCKS, true);
  o[1].set(CODEC, true);
  Opt e = o[1];
  e.set(ENC, true);
  o.push_back(e);
  return exec(video(codec ? "V_VP9" : "V_VP8", true, bl), strf("encrypted frame %s%s", mc::hex(f.data(), f.size()).c_str(), before ? " after a longer one" : ""), o);
}
// what is printed for a frame, damaged or not, comes from that frame alone: two files that differ in the frame before it
SPACE(C32, own_bytes) {
  int sig = c.pick(4), np = c.pick(4), len = 1 + c.pick(28), codec = c.pick(2), enc = c.pick(2), lace = c.pick(2);
  Bytes f(1, (char)sig);
  f += Bytes("\x01\x02\x03\x04\x05\x06\x07\x08");
  f += (char)(np == 3 ? 255 : np);
  for (int i = 0; i < np; ++i) f += enc_uint(7 + i * 256, 4);
  f += codec ? vp9_frame('k') : Bytes("\x10\x02\x00\x9d\x01\x2a\x40\x00\x30\x00", 10);
  if (!enc) { f.erase(0, 10 + 4 * np); if (sig || np) return nullptr; }
  if (len > (int)f.size()) return nullptr;
  f.resize(len);
  return [=]() {
    R.desc = strf("%s frame %s%s", enc ? "encrypted" : "clear", mc::hex(f.data(), f.size()).c_str(), lace ? ", laced" : "");
    Str seen;
    for (int v = 0; v < 3; ++v) {
      put(dg::enc(video(codec ? "V_VP9" : "V_VP8", enc, {block(0, 0, 0, {Bytes(90, v == 0 ? '\x00' : v == 1 ? '\x44' : '\x03')}), lace ? block(1, 0x80, 1, {f, f}) : block(1, 0x80, 0, {f})})));
      Run r = run({"-nosegment", "-noebml_header", "-nosegment_info", "-notracks", "-blocks", "-codec_info", "-encrypted_info", "-i", file()});
      if (r.rc) FAIL("exit status %d: %s", r.rc, r.err.c_str());
      size_t at = r.out.find("secs:0.001");
      if (at == Str::npos) FAIL("no line for the frame: %s", r.out.c_str());
      Str l = r.out.substr(at);
      if (v && l != seen) FAIL("depends on the frame before it: `%s' and `%s'", seen.c_str(), l.c_str());
      seen = l;
    }
    mc::outcome(mc::hstr(seen));
    unlink(file().c_str());
  };
}
// VP9 private data: every subset of the features
SPACE(C32, private_data) {
  static const int lv[] = {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62};
  int p = c.pick(4), l = lv[c.pick(14)], d = 8 + 2 * c.pick(3), s = c.pick(4);
  Bytes b;
  int v[] = {p, l, d, s};
  for (int i = 0; i < 4; ++i) { b += (char)(i + 1); b += '\1'; b += (char)v[i]; }
  return exec(video("V_VP9", false, {block(0, 0x80, 0, {vp9_frame('k')})}, 100, b), "private data " + mc::hex(b.data(), b.size()), {Opt()});
}
// byte order conversions: two bytes at all values, the others at their extremes
SPACE(C32, byte_order) {
  int i = c.pick(8), j = c.pick(8), fill = c.pick(2) * 255, hi = c.pick(16);
  if (i >= j) return nullptr;
  return [=]() {
    R.desc = strf("bytes %d and %d of 8, others %02x", i, j, fill);
    for (int a = hi * 16; a < hi * 16 + 16; ++a)
      for (int b = 0; b < 256; ++b) {
        unsigned char in[8];
        memset(in, fill, 8);
        in[i] = (unsigned char)a;
        in[j] = (unsigned char)b;
        uint64_t raw, w = 0;
        memcpy(&raw, in, 8);
        for (unsigned char x : in) w = w << 8 | x;
        uint64_t h = libwebm::bigendian_to_host(raw), back = libwebm::host_to_bigendian(w);
        if (h != w || back != raw) FAIL("64 bit %s: %llx, back %llx", mc::hex(in, 8).c_str(), (ull)h, (ull)back);
        if (j < 4) {
          uint32_t r4, w4 = (uint32_t)(w >> 32);
          memcpy(&r4, in, 4);
          uint32_t h4 = libwebm::bigendian_to_host(r4), b4 = libwebm::host_to_bigendian(w4);
          if (h4 != w4 || b4 != r4) FAIL("32 bit %s: %x, back %x", mc::hex(in, 4).c_str(), h4, b4);
        }
        mc::state();
      }
    mc::outcome(mc::hstr(R.desc) + hi);
  };
}
// cue lists printed by dumpvtt
SPACE(C32, cues_text) {
  static const char* ids[] = {"", "id", "a b", "7"};
  static const char* sets[] = {"", "line:1", "align:start size:50%", "vertical:rl line:-1 position:0%"};
  static const char* body[] = {"x", "one\ntwo", "<b>x</b> & y", "one\n2\n three"};
  int nc = 1 + c.pick(2);
  Str t = "WEBVTT\n\n", want;
  for (int i = 0; i < nc; ++i) {
    int id = c.pick(4), se = c.pick(4), b = c.pick(4), tm = c.pick(3);
    static const int hh[3][2] = {{0, 0}, {0, 1}, {99, 100}}, mm[3][2] = {{0, 0}, {59, 0}, {5, 6}}, ss[3][2] = {{0, 59}, {59, 0}, {7, 8}}, ms[3][2] = {{0, 999}, {999, 0}, {12, 345}};
    auto at = [&](int k) { return strf("%02d:%02d:%02d.%03d", hh[tm][k], mm[tm][k], ss[tm][k], ms[tm][k]); };
    if (*ids[id]) t += Str(ids[id]) + "\n";
    t += at(0) + " --> " + at(1) + (*sets[se] ? Str(" ") + sets[se] : "") + "\n" + body[b] + "\n\n";
    want += strf("cue identifier: \"%s\"\n", ids[id]);
    for (int k = 0; k < 2; ++k) want += strf("cue %s time: \"HH=%d MM=%d SS=%d SSS=%d\"\n", k ? "stop" : "start", hh[tm][k], mm[tm][k], ss[tm][k], ms[tm][k]);
    if (!*sets[se]) want += "cue setting: <no settings present>\n";
    Str s = sets[se];
    while (!s.empty()) {
      Str w = s.substr(0, s.find(' '));
      s = w.size() < s.size() ? s.substr(w.size() + 1) : "";
      want += "cue setting: name=" + w.substr(0, w.find(':')) + " value=" + w.substr(w.find(':') + 1) + "\n";
    }
    s = body[b];
    for (int k = 1; !s.empty(); ++k) {
      Str w = s.substr(0, s.find('\n'));
      s = w.size() < s.size() ? s.substr(w.size() + 1) : "";
      want += strf("cue payload[%d]: \"", k) + w + "\"\n";
    }
    want += "\n";
  }
  return [=]() {
    R.desc = "text " + mc::hex(t.data(), t.size(), 200);
    put(t);
    Run r = run_main(dumpvtt_main, {file()});
    if (r.rc) FAIL("dumpvtt: exit status %d: %s", r.rc, r.err.c_str());
    if (r.out != want) FAIL("dumpvtt: %s", pl::diff(want, r.out).c_str());
    mc::outcome(mc::hstr(want));
    unlink(file().c_str());
  };
}
// the command line itself
SPACE(C32, usage) {
  int k = c.pick(8);
  return [=]() {
    R.desc = strf("command line %d", k);
    put(dg::enc(dg::seed(dg::AV)));
    Str f = file(), gone = f + ".none";
    std::vector<std::vector<Str>> a = {{}, {"-h"}, {"-?"}, {"-i"}, {"-i", gone}, {"-v", "-i", f}, {"-nonsense", "-i", f}, {"-all", "-h", "-i", f}};
    Run r = run(a[k]);
    bool ok = k == 1 || k == 2 || k >= 5;
    if ((r.rc == 0) != ok) FAIL("exit status %d", r.rc);
    bool usage = k <= 3 || k == 7;
    if ((r.out.find("Usage") == 0) != usage) FAIL("usage text: %s", r.out.substr(0, 60).c_str());
    if (usage) for (auto o : kOpts) if (r.out.find(Str("-") + o + " ") == Str::npos) FAIL("usage does not mention -%s", o);
    if (k >= 5 && !usage) {
      Run p = run({"-i", f});
      size_t at = r.out.size() - p.out.size();
      if (r.out.size() < p.out.size() || r.out.substr(at) != p.out) FAIL("report differs");
      if (k == 5 ? r.out.compare(0, 8, "version:") : at) FAIL("extra output: %s", r.out.substr(0, at).c_str());
    }
    if (k == 4 && r.err.find(gone) == Str::npos) FAIL("no message about the missing file");
    mc::outcome(k);
    unlink(f.c_str());
  };
}
