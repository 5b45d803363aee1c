// C21-C23: WebM to PES, PES parsing, PES to transport stream.
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include "ebml.h"
#include "common/libwebm_util.h"
#include "m2ts/vpxpes2ts.h"
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"
using eb::Bytes;
using mc::R;
using mc::strf;
typedef unsigned long long ull;
typedef long long ll;

namespace {
struct Fr { Bytes data; ll ns = 0; };
ll ticks(ll ns) { return (ll)((__int128)ns * 9 / 100000); }

// The library reports problems on the standard streams; they go to /dev/null while it runs.
struct Quiet {
  FILE *o, *e;
  static FILE* null() { static FILE* f = fopen("/dev/null", "w"); return f; }
  Quiet() { o = stdout; e = stderr; stdout = null(); stderr = null(); }
  ~Quiet() { stdout = o; stderr = e; }
};

// ---- reference reading of a PES stream as the converter documents it
struct Pes { size_t start, end; bool pts; ull pts_val; Bytes payload; Bytes raw; };
// Takes n bytes, removing emulation prevention (00 00 03 -> 00 00); refuses start codes inside.
bool unescape(const Bytes& s, size_t* pos, size_t n, Bytes* out, std::string* err) {
  int zeros = 0;
  for (size_t k = 0; k < n;) {
    if (*pos >= s.size()) { *err = "data ends inside a packet"; return false; }
    uint8_t b = s[(*pos)++];
    if (zeros >= 2 && b == 3) {
      zeros = 0;
      if (*pos >= s.size() || ((uint8_t)s[*pos] != 1 && (uint8_t)s[*pos] != 3)) { *err = strf("needless escape at %zu", *pos - 1); return false; }
      continue;
    }
    if (zeros >= 2 && b == 1 && k > 2) { *err = strf("start code inside the data at %zu", *pos - 3); return false; }
    zeros = b ? 0 : zeros + 1;
    out->push_back((char)b);
    ++k;
  }
  return true;
}
// Reads packets; first packets of frames carry the BCMV header.  Frames: reassembled payloads.
std::string read_pes(const Bytes& s, std::vector<Pes>* pk, std::vector<Fr>* frames, std::vector<ull>* pts) {
  size_t pos = 0;
  size_t want = 0;   // bytes of the current frame still missing
  while (pos < s.size()) {
    Pes p;
    p.start = pos;
    if (s.size() - pos < 6) return strf("junk of %zu bytes at the end", s.size() - pos);
    if (s.compare(pos, 3, Bytes("\0\0\1", 3)) != 0) return strf("no start code at %zu", pos);
    if ((uint8_t)s[pos + 3] != 0xE0) return strf("stream id %02x", (uint8_t)s[pos + 3]);
    size_t len = (uint8_t)s[pos + 4] << 8 | (uint8_t)s[pos + 5];   // counted before escaping
    pos += 6;
    if (len <= 9) return strf("packet length %zu", len);
    Bytes h;
    std::string err;
    if (!unescape(s, &pos, 9, &h, &err)) return err;
    const uint8_t* u = (const uint8_t*)h.data();
    if (u[0] != 0x80) return strf("flags byte %02x", u[0]);
    bool first = want == 0;
    if (u[1] != (first ? 0x80 : 0x00)) return strf("flags byte %02x in a %s packet", u[1], first ? "first" : "continuation");
    if (u[2] != 6) return strf("optional header size %u", u[2]);
    p.pts = first;
    p.pts_val = 0;
    if (first) {
      if ((u[3] & 0xf1) != 0x21 || !(u[5] & 1) || !(u[7] & 1)) return strf("presentation time markers in %s", mc::hex(u, 9).c_str());
      p.pts_val = (ull)(u[3] >> 1 & 7) << 30 | (ull)u[4] << 22 | (ull)(u[5] >> 1) << 15 | (ull)u[6] << 7 | (ull)(u[7] >> 1);
      if (u[8] != 0xff) return "stuffing byte";
    } else for (int i = 3; i < 9; ++i) if (u[i] != 0xff) return "stuffing bytes";
    size_t body = len - 9;
    if (first) {
      if (body < 10) return "no room for the frame header";
      if (s.compare(pos, 4, "BCMV") != 0) return "no frame header";
      pos += 4;
      Bytes b;
      if (!unescape(s, &pos, 6, &b, &err)) return err;
      const uint8_t* v = (const uint8_t*)b.data();
      size_t total = (size_t)v[0] << 24 | v[1] << 16 | v[2] << 8 | v[3];
      if (v[4] || v[5]) return "frame header padding";
      if (total <= 10) return strf("frame length %zu", total);
      want = total - 10;
      body -= 10;
      frames->push_back(Fr());
      pts->push_back(p.pts_val);
    }
    if (body == 0 || body > 32768) return strf("payload of %zu bytes", body);
    if (body > want) return strf("payload of %zu bytes where the frame lacks %zu", body, want);
    if (!unescape(s, &pos, body, &p.payload, &err)) return err;
    want -= body;
    frames->back().data += p.payload;
    p.end = pos;
    pk->push_back(p);
  }
  if (want) return strf("frame lacks %zu bytes at the end", want);
  return "";
}
// Frames that a block payload stands for (VP9 superframes are split).
std::vector<Bytes> split_super(const Bytes& b) {
  uint8_t m = b.back();
  if ((m & 0xe0) == 0xc0) {
    size_t n = (m & 7) + 1, w = (m >> 3 & 3) + 1, idx = 2 + n * w;
    if (b.size() >= idx && (uint8_t)b[b.size() - idx] == m) {
      std::vector<Bytes> v;
      size_t at = 0, p = b.size() - idx + 1;
      for (size_t i = 0; i < n; ++i) {
        size_t len = 0;
        for (size_t k = 0; k < w; ++k) len |= (size_t)(uint8_t)b[p++] << (8 * k);
        v.push_back(b.substr(at, len));
        at += len;
      }
      return v;
    }
  }
  return {b};
}
Bytes super(const std::vector<Bytes>& f, int w) {
  Bytes s;
  for (auto& x : f) s += x;
  uint8_t m = 0xc0 | (w - 1) << 3 | (int)(f.size() - 1);
  s.push_back((char)m);
  for (auto& x : f) for (int k = 0; k < w; ++k) s.push_back((char)(x.size() >> (8 * k)));
  s.push_back((char)m);
  return s;
}
void make_frame(libwebm::VideoFrame* f, const Bytes& d, ll ns, bool vp9) {
  f->Init(d.size(), ns, vp9 ? libwebm::VideoFrame::kVP9 : libwebm::VideoFrame::kVP8);
  memcpy(f->buffer().data.get(), d.data(), d.size());
  f->SetBufferLength(d.size());
}
bool pack(const Bytes& d, ll ns, bool vp9, Bytes* out) {
  Quiet q;
  libwebm::VideoFrame f;
  make_frame(&f, d, ns, vp9);
  libwebm::PacketDataBuffer b(3, 0x55);   // old content must not matter
  if (!libwebm::Webm2Pes::WritePesPacket(f, &b)) return false;
  out->assign(b.begin(), b.end());
  return true;
}
std::string note(const Bytes& b) { return strf(" | %zu bytes %s", b.size(), mc::hex(b.data(), b.size(), 80).c_str()); }

void check_stream(const Bytes& s, const std::vector<Fr>& want, const char* what) {
  std::vector<Pes> pk;
  std::vector<Fr> got;
  std::vector<ull> pts;
  std::string e = read_pes(s, &pk, &got, &pts);
  if (!e.empty()) FAIL("%s: malformed PES stream: %s%s", what, e.c_str(), note(s).c_str());
  if (got.size() != want.size()) FAIL("%s: %zu frames instead of %zu", what, got.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    if (got[i].data != want[i].data) FAIL("%s: frame %zu differs%s instead of%s", what, i, note(got[i].data).c_str(), note(want[i].data).c_str());
    ull w = (ull)ticks(want[i].ns) & 0x1ffffffffull;
    if (pts[i] != w) FAIL("%s: frame %zu has presentation time %llu instead of %llu (%lld ns)", what, i, pts[i], w, want[i].ns);
  }
}
void put(const char* name, const Bytes& b) {
  int fd = open(name, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) { perror(name); _exit(2); }
  close(fd);
}
Bytes get(const char* name) {
  Bytes b;
  int fd = open(name, O_RDONLY);
  char buf[65536];
  ssize_t n;
  while (fd >= 0 && (n = read(fd, buf, sizeof buf)) > 0) b.append(buf, n);
  if (fd >= 0) close(fd);
  return b;
}
// What the bundled PES parser makes of a stream.
void parse_pes(const Bytes& s, std::vector<Fr>* out, std::vector<ull>* pts, int* left, bool reuse = false) {
  if (!reuse) put("t.pes", s);
  Quiet q;
  libwebm::VpxPesParser p;
  if (!p.Open("t.pes")) { *left = -1; return; }
  int before = p.BytesAvailable();
  libwebm::VpxPesParser::PesHeader one_h;       // one pair of objects for all packets, or fresh ones for each
  libwebm::VideoFrame one_f(987654321, libwebm::VideoFrame::kVP9);
  for (;;) {
    libwebm::VpxPesParser::PesHeader new_h;
    libwebm::VideoFrame new_f;
    libwebm::VpxPesParser::PesHeader& h = reuse ? one_h : new_h;
    libwebm::VideoFrame& f = reuse ? one_f : new_f;
    if (!p.ParseNextPacket(&h, &f)) break;
    Fr x;
    x.ns = f.nanosecond_pts();
    x.data.assign((const char*)f.buffer().data.get(), f.buffer().length);
    out->push_back(x);
    pts->push_back(h.opt_header.pts);
    if (x.data.size() + 10 != h.bcmv_header.length) FAIL("the PES parser returned %zu bytes of a frame of %llu%s", x.data.size(), (ull)h.bcmv_header.length - 10, note(s).c_str());
    if (p.BytesAvailable() >= before) FAIL("the PES parser returned a frame without consuming data%s", note(s).c_str());
    if (p.BytesAvailable() < 0) FAIL("the PES parser went beyond the end of the data%s", note(s).c_str());
    before = p.BytesAvailable();
    mc::tick();
  }
  // once it has nothing more to return it stays that way
  libwebm::VpxPesParser::PesHeader h;
  libwebm::VideoFrame f;
  for (int k = 0; k < 2; ++k) if (p.ParseNextPacket(&h, &f) && out->size() > 10000) FAIL("endless frames");
  *left = before;
}
void check_parse(const Bytes& s, const std::vector<Fr>& want) {
  std::vector<Fr> got;
  std::vector<ull> pts;
  int left = 0;
  parse_pes(s, &got, &pts, &left);
  std::vector<Fr> got2;
  std::vector<ull> pts2;
  int left2 = 0;
  parse_pes(s, &got2, &pts2, &left2, true);
  bool same = got2.size() == got.size() && pts2 == pts && left2 == left;
  for (size_t i = 0; same && i < got.size(); ++i) same = got[i].ns == got2[i].ns && got[i].data == got2[i].data;
  if (!same) FAIL("the PES parser returns other frames when the caller keeps its frame and header objects%s", note(s).c_str());
  if (got.size() != want.size() || left != 0) FAIL("the PES parser returned %zu frames instead of %zu, %d bytes left%s", got.size(), want.size(), left, note(s).c_str());
  for (size_t i = 0; i < want.size(); ++i) {
    if (got[i].data != want[i].data) FAIL("PES parser: frame %zu differs%s instead of%s", i, note(got[i].data).c_str(), note(want[i].data).c_str());
    ull w = (ull)ticks(want[i].ns) & 0x1ffffffffull;
    if (pts[i] != w) FAIL("PES parser: frame %zu at %llu ticks instead of %llu", i, pts[i], w);
    ll lo = (ll)((__int128)w * 100000 / 9), d = got[i].ns - lo;
    if (d < 0 || d > 1) FAIL("PES parser: frame %zu at %lld ns instead of %lld", i, got[i].ns, lo);
  }
}
// Runs f on a packed frame (or frames) of the shared spaces.
typedef std::function<void(const Bytes&, const std::vector<Fr>&)> Sink;
void packed(const std::vector<std::pair<Bytes, ll>>& in, bool vp9, const Sink& f) {
  Bytes all;
  std::vector<Fr> want;
  for (auto& p : in) {
    Bytes s;
    if (!pack(p.first, p.second, vp9, &s)) FAIL("a frame was refused%s", note(p.first).c_str());
    all += s;
    if (vp9) for (auto& x : split_super(p.first)) { Fr r; r.data = x; r.ns = p.second; want.push_back(r); }
    else { Fr r; r.data = p.first; r.ns = p.second; want.push_back(r); }
  }
  mc::tick();
  f(all, want);
  mc::state();
  mc::outcome(mc::hstr(all));
}
const uint8_t ALPH[] = {0x00, 0x01, 0x03, 0x02, 0xff};
Bytes filler(size_t n, uint32_t seed) {
  Bytes b;
  for (size_t i = 0; i < n; ++i) { seed = seed * 1664525u + 1013904223u; b.push_back((char)(seed >> 24)); }
  if (n > 1) b[n - 1] = (char)(b[n - 1] & 0x3f);
  if (n) b[0] = (char)(0x80 | (b[0] & 0x3f));
  return b;
}

mc::Exec gen_bytes(mc::Chooser& c, Sink f) {   // every payload over the critical bytes
  int n = R.thorough ? 9 : 7;
  Bytes s;
  for (int i = 0; i < n; ++i) { int k = c.pick(6); if (i == 1 && !c.mine()) return nullptr; if (!k) break; s.push_back((char)ALPH[k - 1]); }
  return [=]() {
    R.desc = "payload " + mc::hex(s.data(), s.size());
    // a VP9 frame starts with the frame marker and is not taken for a superframe
    Bytes v = "\x82" + s;
    if (v.size() > 1 && ((uint8_t)v.back() & 0xe0) == 0xc0) return;
    packed({{v, 33366666}, {v + "\x01", 66733333}}, true, f);
  };
}
mc::Exec gen_times(mc::Chooser& c, Sink f) {
  // every bit position and neighbourhood of the 33-bit clock, and every millisecond of a range
  int k = c.pick(34), d = c.pick(7);
  bool ms = c.flag();
  int blk = ms ? c.pick(R.thorough ? 2000 : 100) : 0;
  if (ms && (k || d)) return nullptr;
  return [=]() {
    std::vector<ll> t;
    if (ms) for (int i = 0; i < 500; ++i) t.push_back((blk * 500ll + i) * 1000000ll * (blk % 3 == 2 ? 7 : 1));
    else {
      ll x = (k < 33 ? 1ll << k : 0x1ffffffffll) + (d - 3);
      if (x < 0 || x > 0x1ffffffffll) return;
      t = {(ll)((__int128)x * 100000 / 9), (ll)((__int128)x * 100000 / 9) + 1, (ll)((__int128)x * 100000 / 9) + 5555};
      ll y = x ^ 0x155555555ll;
      t.push_back((ll)((__int128)y * 100000 / 9) + 1);
    }
    R.desc = strf("times from %lld", t[0]);
    std::vector<std::pair<Bytes, ll>> in;
    for (ll ns : t) in.push_back({"\x82" "frame", ns});
    packed(in, true, f);
  };
}
mc::Exec gen_fragments(mc::Chooser& c, Sink f) {   // sizes around every multiple of the fragment limit, start codes across borders
  int m = c.pick(R.thorough ? 5 : 3), d = c.pick(9), pat = c.pick(8), off = c.pick(R.thorough ? 9 : 5);
  if (!c.mine()) return nullptr;
  return [=]() {
    ll n = 32768ll * m + d - 4;
    if (n < 1) return;
    R.desc = strf("frame of %lld bytes, pattern %d at %d", n, pat, off);
    Bytes b = filler(n, 7 + m);
    static const char* pats[] = {"", "\0\0\1", "\0\0\3", "\0\0\0\1", "\0\0\0\0\3", "\0\0\3\1", "\0\0\2", "\0\0\0\0\0\0"};
    static const size_t plen[] = {0, 3, 3, 4, 5, 4, 3, 6};
    for (int k = 0; k <= m; ++k) {
      ll at = 32768ll * k - off;
      for (size_t i = 0; i < plen[pat]; ++i) if (at + (ll)i >= 1 && at + (ll)i < n) b[at + i] = pats[pat][i];
    }
    if (((uint8_t)b.back() & 0xe0) == 0xc0) b.back() = 7;
    packed({{b, 1000000}, {"\x82z", 2000000}}, true, f);
  };
}
mc::Exec gen_super(mc::Chooser& c, Sink f) {       // superframes: count, width of the sizes, sizes
  int n = 1 + c.pick(8), w = 1 + c.pick(4);
  static const int SZ[] = {1, 2, 5, 255, 256, 33000};
  std::vector<Bytes> fr;
  int sz = c.pick(6), big = c.pick(n), bigsz = c.pick(6);
  for (int i = 0; i < n; ++i) fr.push_back(filler(SZ[i == big ? bigsz : sz], 11 + i));
  for (auto& x : fr) if (x.size() >> (8 * w)) return nullptr;
  size_t total = 0;
  for (auto& x : fr) total += x.size();
  if (total > 140000 && !R.thorough) return nullptr;
  return [=]() {
    R.desc = strf("superframe of %d frames, %d-byte sizes, %d/%d bytes", n, w, SZ[sz], SZ[bigsz]);
    Bytes s = super(fr, w);
    packed({{s, 40000000}, {"\x82q", 80000000}}, true, f);
  };
}
mc::Exec gen_lookalike(mc::Chooser& c, Sink f) {   // VP8 frames that end like a superframe
  int n = 1 + c.pick(8), w = 1 + c.pick(4), sz = c.pick(4);
  static const int SZ[] = {1, 5, 100, 200};
  return [=]() {
    R.desc = strf("VP8 frame that ends like a superframe of %d frames of %d bytes, %d-byte sizes", n, SZ[sz], w);
    std::vector<Bytes> fr;
    for (int i = 0; i < n; ++i) fr.push_back(filler(SZ[sz], 11 + i));
    packed({{super(fr, w), 40000000}, {"\x82q", 20000000}, {"z", 0}}, false, f);
  };
}
mc::Exec gen_lengths(mc::Chooser& c, Sink f) {     // every length up to a bound: the length fields imitate start codes too
  int n = c.pick(R.thorough ? 2200 : 900);
  int big = c.pick(2);
  return [=]() {
    size_t len = big ? 65536 - 10 - 40 + n : n + 1;
    if (big && n > 900) return;
    R.desc = strf("frame of %zu bytes", len);
    packed({{filler(len, 3), 0}, {filler(1 + n % 5, 9), 1000000}}, true, f);
  };
}
}  // namespace

static void c21(const Bytes& s, const std::vector<Fr>& w) { check_stream(s, w, "converter"); }
static void c22(const Bytes& s, const std::vector<Fr>& w) { check_parse(s, w); }
SPACE(C21, bytes) { return gen_bytes(c, c21); }
SPACE(C21, times) { return gen_times(c, c21); }
SPACE(C21, fragments) { return gen_fragments(c, c21); }
SPACE(C21, superframes) { return gen_super(c, c21); }
SPACE(C21, lengths) { return gen_lengths(c, c21); }
SPACE(C22, bytes) { return gen_bytes(c, c22); }
SPACE(C22, times) { return gen_times(c, c22); }
SPACE(C22, fragments) { return gen_fragments(c, c22); }
SPACE(C22, superframes) { return gen_super(c, c22); }
SPACE(C22, lengths) { return gen_lengths(c, c22); }
SPACE(C21, lookalikes) { return gen_lookalike(c, c21); }
SPACE(C22, lookalikes) { return gen_lookalike(c, c22); }
SPACE(C22, vp8) {        // payloads that start with anything
  int n = R.thorough ? 7 : 5;
  Bytes s;
  for (int i = 0; i < n; ++i) { int k = c.pick(6); if (!k) break; s.push_back((char)ALPH[k - 1]); }
  if (s.empty()) return nullptr;
  return [=]() { R.desc = "vp8 payload " + mc::hex(s.data(), s.size()); packed({{s, 5000000}, {s + s, 9000000}}, false, c22); };
}

// ---------------------------------------------------------------- whole files
namespace {
struct File { Bytes b; std::vector<Fr> want; std::string desc; };
struct Tr { int num, type; const char* codec; };
Bytes webm(const std::vector<Tr>& tr, ll scale, const std::vector<eb::El>& clusters) {
  using namespace eb;
  El tracks(Tracks);
  for (auto& t : tr) {
    El e(TrackEntry, {eu(TrackNumber, t.num), eu(TrackUID, 100 + t.num), eu(TrackType, t.type), es(CodecID, t.codec)});
    if (t.type == 1) e.add(El(Video, {eu(PixelWidth, 16), eu(PixelHeight, 16)}));
    if (t.type == 2) e.add(El(Audio, {ef(SamplingFrequency, 8000), eu(Channels, 1)}));
    tracks.add(e);
  }
  El seg(Segment, {El(Info, {eu(TimecodeScale, scale), es(MuxingApp, "m"), es(WritingApp, "w")}), tracks});
  for (auto& k : clusters) seg.add(k);
  return El(EBML, {eu(EBMLVersion, 1), eu(EBMLReadVersion, 1), eu(EBMLMaxIDLength, 4), eu(EBMLMaxSizeLength, 8), es(DocType, "webm"), eu(DocTypeVersion, 2), eu(DocTypeReadVersion, 2)}).enc() + seg.enc();
}
const std::vector<std::vector<Tr>> LAYOUTS = {
  {{1, 1, "V_VP9"}}, {{5, 1, "V_VP9"}}, {{1, 2, "A_OPUS"}, {2, 1, "V_VP9"}}, {{2, 1, "V_VP9"}, {1, 2, "A_OPUS"}},
  {{3, 17, "S_TEXT"}, {1, 2, "A_OPUS"}, {2, 1, "V_VP9"}}, {{7, 1, "V_VP9"}, {1, 1, "V_VP9"}}, {{126, 1, "V_VP8"}},
};
File pick_file(mc::Chooser& c) {
  File f;
  int lay = c.pick((int)LAYOUTS.size());
  static const ll SC[] = {1000000, 100000, 3, 11111};
  ll scale = SC[c.pick(R.thorough ? 4 : 3)];
  int n = 1 + c.pick(R.thorough ? 3 : 2);
  int vid = 0;
  for (auto& t : LAYOUTS[lay]) if (t.type == 1) { vid = t.num; break; }
  std::vector<eb::El> cl;
  static const int16_t REL[] = {0, 7, -3, 32767};
  f.desc = strf("layout %d scale %lld:", lay, scale);
  int id = 0;
  for (int i = 0; i < n; ++i) {
    bool nc = i == 0 || c.pick(2);
    if (nc) { eb::El k(eb::Cluster, {eb::eu(eb::Timecode, 5 + 50000 * cl.size())}); cl.push_back(k); }
    int t = c.pick((int)LAYOUTS[lay].size() + (i == 0));
    bool unknown_track = t == (int)LAYOUTS[lay].size();
    int num = unknown_track ? 99 : LAYOUTS[lay][t].num;
    int lacing = c.pick(4);
    bool group = c.pick(2);
    int16_t rel = REL[i == n - 1 ? c.pick(4) : i % 2];
    std::vector<Bytes> fr;
    int cnt = lacing ? 2 : 1;
    for (int k = 0; k < cnt; ++k) fr.push_back(filler(lacing == 2 ? 6 : 4 + id % 5 + k, 100 + id + k));
    ++id;
    f.desc += strf(" %s%d%s l%d r%d", nc ? "|" : "", num, group ? "g" : "s", lacing, rel);
    Bytes b = eb::enc_block(num, rel, 0x80, lacing, fr);
    ll tc = 5 + 50000 * (ll)(cl.size() - 1) + rel;
    if (group) cl.back().add(eb::El(eb::BlockGroup, {eb::es(eb::Block, (b[3] &= 0x7f, b))}));
    else cl.back().add(eb::es(eb::SimpleBlock, b));
    if (num == vid) for (auto& x : fr) { Fr r; r.data = x; r.ns = tc * scale; f.want.push_back(r); }
  }
  f.b = webm(LAYOUTS[lay], scale, cl);
  return f;
}
struct Sinker : libwebm::PacketReceiverInterface {
  Bytes all;
  std::vector<size_t> starts;
  bool ReceivePacket(const libwebm::PacketDataBuffer& p) override { starts.push_back(all.size()); all.append(p.begin(), p.end()); return true; }
};
Bytes to_pes(const Bytes& in, bool* ok) {
  put("t.webm", in);
  Quiet q;
  libwebm::Webm2Pes w("t.webm", "t.out");
  *ok = w.ConvertToFile();
  if (!*ok) return Bytes();
  Bytes out = get("t.out");
  if (w.bytes_written() != out.size()) FAIL("bytes_written is %llu for a file of %zu bytes", (ull)w.bytes_written(), out.size());
  return out;
}
void neg(const File& f) { for (auto& x : f.want) if (x.ns < 0) FAIL("harness: negative time"); }
}  // namespace
SPACE(C21, files) {
  auto f = std::make_shared<File>(pick_file(c));
  return [=]() {
    R.desc = f->desc;
    neg(*f);
    bool ok;
    Bytes s = to_pes(f->b, &ok);
    if (!ok) FAIL("conversion failed");
    check_stream(s, f->want, "file");
    Sinker k;
    put("t.webm", f->b);
    { Quiet q; libwebm::Webm2Pes w("t.webm", &k); if (!w.ConvertToPacketReceiver()) FAIL("conversion to a receiver failed"); if (w.bytes_written() != k.all.size()) FAIL("bytes_written is %llu", (ull)w.bytes_written()); }
    if (k.all != s) FAIL("the receiver got other bytes than the file%s / %s", note(k.all).c_str(), note(s).c_str());
    if (k.starts.size() != f->want.size()) FAIL("the receiver was called %zu times for %zu frames", k.starts.size(), f->want.size());
    mc::state();
    mc::tick();
    mc::outcome(mc::hstr(s));
    mc::sample(f->desc);
  };
}

// ---------------------------------------------------------------- C22: other byte strings
static void any_bytes(const Bytes& s) {
  if (s.empty()) return;
  std::vector<Fr> got;
  std::vector<ull> pts;
  int left = 0;
  parse_pes(s, &got, &pts, &left);
  size_t total = 0;
  for (auto& f : got) { total += f.data.size(); if (f.data.empty()) FAIL("the PES parser returned an empty frame%s", note(s).c_str()); }
  if (total > s.size()) FAIL("the PES parser returned %zu bytes from %zu%s", total, s.size(), note(s).c_str());
  mc::state();
  mc::outcome(mc::mix(mc::mix(total, got.size()), left));
}
static const std::vector<Bytes>& streams() {
  static std::vector<Bytes> v;
  if (v.empty()) {
    auto P = [](std::vector<std::pair<Bytes, ll>> in) { Bytes a, s; for (auto& p : in) { pack(p.first, p.second, true, &s); a += s; } return a; };
    v.push_back(P({{"\x82" "abc", 1000000}, {Bytes("\x82\0\0\1\0\0\3x", 8), 2000000}}));
    v.push_back(P({{Bytes("\x82\0\0\0\1\0\0\0\3", 9), 90000000000ll}}));
    Bytes big = filler(32768 + 6, 5);
    Bytes s = P({{big, 1000000}});
    v.push_back(s);
    // fragments made small by hand: first packet 3 bytes, then 2 + 2
    auto hdr = [](int len, bool first) { Bytes b("\0\0\1\xE0", 4); len += 9; b.push_back((char)(len >> 8)); b.push_back((char)len); b += first ? Bytes("\x80\x80\x06\x21\x00\x01\x00\x01\xff", 9) : Bytes("\x80\x00\x06\xff\xff\xff\xff\xff\xff", 9); return b; };
    v.push_back(hdr(13, true) + Bytes("BCMV\0\0\0\x11\0\0", 10) + "\x82zz" + hdr(2, false) + "yy" + hdr(2, false) + "xx");
  }
  return v;
}
SPACE(C22, mutants) {
  int k = c.pick(4);
  const Bytes& s = streams()[k];
  size_t span = s.size() < 400 ? s.size() : 60;   // of the long one: its start and the border between packets
  int at = c.pick((int)span * (s.size() < 400 ? 1 : 2));
  size_t i = s.size() < 400 ? at : at < (int)span ? at : s.size() - 2 * span + at;
  return [=]() {
    const Bytes& s = streams()[k];
    R.desc = strf("stream %d changed at %zu", k, i);
    int n = 0;
    static const uint8_t V[] = {0x00, 0x01, 0x02, 0x03, 0x06, 0x09, 0x0a, 0x13, 0x7f, 0x80, 0xc0, 0xe0, 0xff};
    auto one = [&](const Bytes& m) { if (mc::sub(n++)) any_bytes(m); };
    one(s.substr(0, i));
    one(s.substr(i));
    if (i) {   // a stream that is cut off yields the complete frames only
      std::vector<Fr> all, some;
      std::vector<ull> t1, t2;
      int l1, l2;
      parse_pes(s, &all, &t1, &l1);
      parse_pes(s.substr(0, i), &some, &t2, &l2);
      if (some.size() >= all.size()) FAIL("%zu frames from a part of a stream of %zu frames%s", some.size(), all.size(), note(s.substr(0, i)).c_str());
      for (size_t k = 0; k < some.size(); ++k) if (some[k].data != all[k].data || t1[k] != t2[k]) FAIL("frame %zu of the cut stream differs%s", k, note(s.substr(0, i)).c_str());
    }
    { Bytes m = s; m.erase(i, 1); one(m); }
    for (uint8_t v : V) {
      Bytes m = s; m[i] = (char)v; one(m);
      m = s; m.insert(i, 1, (char)v); one(m);
      if (s.size() < 400) for (int d = 1; d <= (R.thorough ? 24 : 6) && i + d < s.size(); ++d) for (uint8_t w : V) { m = s; m[i] = (char)v; m[i + d] = (char)w; one(m); if (d == 1) one(m.substr(0, i + 2)); }
    }
  };
}
SPACE(C22, tokens) {     // strings of packet pieces in any order
  static const std::vector<Bytes> tok = {
    Bytes("\0\0\1\xE0\0\x16", 6), Bytes("\0\0\1\xE0\0\x0b", 6), Bytes("\0\0\1\xE0\0\0", 6), Bytes("\0\0\1\xE0\0\x08", 6),
    Bytes("\x80\x80\x06\x21\x00\x01\x00\x01\xff", 9), Bytes("\x80\x00\x06\xff\xff\xff\xff\xff\xff", 9),
    Bytes("BCMV\0\0\0\x0d\0\0", 10), Bytes("BCMV\0\0\0\x05\0\0", 10), Bytes("BCMV\xff\xff\xff\xff\0\0", 10), Bytes("BCMV\0\0\0\x0f\0\0", 10),
    "abc", "z", Bytes("\0\0\3", 3), Bytes("\0", 1)};
  int n = R.thorough ? 6 : 5;
  Bytes s;
  for (int i = 0; i < n; ++i) { int k = c.pick((int)tok.size() + 1); if (i == 1 && !c.mine()) return nullptr; if (!k) break; s += tok[k - 1]; }
  return [=]() { R.desc = "tokens " + mc::hex(s.data(), s.size()); any_bytes(s); };
}

// ---------------------------------------------------------------- C23
namespace {
void check_ts(const std::vector<Bytes>& blocks, const std::string& desc) {
  R.desc = desc;
  std::vector<eb::El> cl = {eb::El(eb::Cluster, {eb::eu(eb::Timecode, 0)})};
  int t = 0;
  for (auto& b : blocks) cl[0].add(eb::es(eb::SimpleBlock, eb::enc_block(1, t++, 0x80, 0, {b})));
  Bytes in = webm(LAYOUTS[0], 1000000, cl);
  bool ok;
  Bytes pes = to_pes(in, &ok);
  if (!ok) FAIL("PES conversion failed");
  std::vector<Pes> pk;
  std::vector<Fr> fr;
  std::vector<ull> pts;
  std::string e = read_pes(pes, &pk, &fr, &pts);
  if (!e.empty()) FAIL("PES: %s", e.c_str());
  { Quiet q; libwebm::VpxPes2Ts w("t.webm", "t.ts"); ok = w.ConvertToFile(); }
  if (!ok) FAIL("transport stream conversion failed");
  Bytes ts = get("t.ts");
  if (ts.size() % 188) FAIL("%zu bytes are not a whole number of packets", ts.size());
  Bytes joined;
  size_t next = 0;     // next PES packet to start
  for (size_t i = 0; i < ts.size() / 188; ++i) {
    const uint8_t* p = (const uint8_t*)ts.data() + 188 * i;
    if (p[0] != 0x47) FAIL("packet %zu starts with %02x", i, p[0]);
    bool start = p[1] & 0x40;
    if (p[1] & 0xa0) FAIL("packet %zu: error or priority bit set (%02x)", i, p[1]);
    if (((p[1] & 0x1f) << 8 | p[2]) != 0x20) FAIL("packet %zu: packet id %x", i, (p[1] & 0x1f) << 8 | p[2]);
    if (p[3] & 0xc0) FAIL("packet %zu scrambled", i);
    if (!(p[3] & 0x10)) FAIL("packet %zu without payload", i);
    if ((size_t)(p[3] & 15) != i % 16) FAIL("packet %zu: continuity counter %d", i, p[3] & 15);
    size_t off = 4;
    if (p[3] & 0x20) {
      size_t n = p[4];
      if (n > 182) FAIL("packet %zu: adaptation field of %zu bytes", i, n);
      if (n && p[5]) FAIL("packet %zu: adaptation flags %02x", i, p[5]);
      for (size_t k = 6; k < 5 + n; ++k) if (p[k] != 0xff) FAIL("packet %zu: stuffing byte %02x", i, p[k]);
      off = 5 + n;
    }
    bool should = next < pk.size() && pk[next].start == joined.size();
    if (start != should) FAIL("packet %zu: unit start flag %d where %s", i, start, should ? "a PES packet starts" : "none starts");
    if (start) ++next;
    joined.append((const char*)p + off, 188 - off);
    // no PES packet starts in the middle of a transport packet
    if (next < pk.size() && pk[next].start < joined.size()) FAIL("packet %zu: a PES packet starts inside it", i);
    mc::tick();
  }
  if (joined != pes) FAIL("joined payloads differ from the PES stream: %zu against %zu bytes", joined.size(), pes.size());
  mc::state();
  mc::outcome(mc::hstr(ts));
}
}  // namespace
SPACE(C23, sizes) {      // every frame size over several transport packets, with a second frame behind it
  int n = 1 + c.pick(R.thorough ? 6000 : 2000), second = c.pick(6);
  return [=]() { static const int S[] = {1, 154, 155, 156, 338, 339}; check_ts({filler(n, 1), filler(S[second], 2)}, strf("frames of %d and %d bytes", n, S[second])); };
}
SPACE(C23, sequences) {  // every sequence of frames with 1, 2 or 3 transport packets: all counter values
  int n = R.thorough ? 12 : 9;
  std::vector<int> k;
  for (int i = 0; i < n; ++i) { int v = c.pick(4); if (!v) break; k.push_back(v); }
  if (k.empty()) return nullptr;
  return [=]() {
    std::vector<Bytes> b;
    static const int S[] = {0, 20, 300, 15 * 184 - 27};
    for (size_t i = 0; i < k.size(); ++i) b.push_back(filler(S[k[i]], i));
    check_ts(b, strf("sequence of %zu frames", b.size()));
  };
}
SPACE(C23, superframes) {
  int n = 1 + c.pick(8), a = c.pick(6), z = c.pick(6), w = c.pick(2);
  static const int S[] = {1, 20, 155, 156, 157, 400};
  return [=]() {
    std::vector<Bytes> f;
    for (int i = 0; i < n; ++i) f.push_back(filler(i == n - 1 ? S[z] : S[a], i));
    check_ts({super(f, 2 + w), filler(5, 5)}, strf("superframe of %d frames of %d and %d bytes", n, S[a], S[z]));
  };
}
SPACE(C23, fragments) {
  int m = 1 + c.pick(R.thorough ? 3 : 2), d = c.pick(R.thorough ? 60 : 20), esc = c.pick(3);
  return [=]() {
    Bytes b = filler(32768 * m + d * (R.thorough ? 7 : 19) - 5, d);
    if (esc) for (size_t i = 1000; i + 6 < b.size(); i += esc == 1 ? 1000 : 32000) { b[i] = b[i + 1] = 0; b[i + 2] = 1; b[i + 3] = (char)0xE0; }
    if (((uint8_t)b.back() & 0xe0) == 0xc0) b.back() = 1;
    check_ts({b, filler(9, 9)}, strf("frame of %zu bytes, start codes %d", b.size(), esc));
  };
}
SPACE(C23, startcodes) { // payload bytes that imitate PES headers at every offset near a packet border
  int off = c.pick(R.thorough ? 400 : 200), k = c.pick(3);
  return [=]() {
    Bytes b = filler(420, 4);
    static const Bytes P[] = {Bytes("\0\0\1\xE0\0\x20\x80\x80\x06", 9), Bytes("\0\0\0\1\xE0", 5), Bytes("\0\0\3\1\xE0", 5)};
    b.replace(1 + off, P[k].size(), P[k]);
    if (((uint8_t)b.back() & 0xe0) == 0xc0) b.back() = 1;
    check_ts({b, b}, strf("imitation %d at %d", k, off));
  };
}
