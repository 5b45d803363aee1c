// C33: the bundled programs run on damaged files; they must end with an exit status, without touching foreign memory.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include "docgen.h"
#include "vidgen.h"
#include "wpref.h"
using mc::R;
using mc::strf;
typedef std::string Str;
typedef unsigned long long ull;
int info_main(int, char**);
int sample_main(int, char**);
int remux_main(int, char**);
int vttdemux_main(int, const char**);
int dumpvtt_main(int, const char**);
int webm2pes_main(int, const char**);
int webm2ts_main(int, const char**);
namespace {
using namespace eb;
using namespace vg;
FILE* null_out() { static FILE* f = fopen("/dev/null", "w"); return f; }
struct Dir {
  Str path;
  Dir() { path = mc::scratch() + "/toolsXXXXXX"; if (!mkdtemp(&path[0])) abort(); }
  ~Dir() { clean(); rmdir(path.c_str()); }
  void clean() {
    if (DIR* d = opendir(path.c_str())) {
      while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
      closedir(d);
    }
  }
};
Dir& dir() { static Dir d; return d; }
void put(const Str& p, const Bytes& b) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { fprintf(stderr, "scratch file %s\n", p.c_str()); abort(); }
  fclose(f);
}
template <class T> int call(int (*f)(int, T**), std::vector<Str> a, const char* name) {
  R.logbuf = name;
  a.insert(a.begin(), name);
  std::vector<T*> av;
  for (auto& s : a) av.push_back(&s[0]);
  av.push_back(nullptr);
  FILE *so = stdout, *se = stderr;
  fflush(so);
  stdout = null_out();
  if (!R.replay) stderr = null_out();
  int rc = f((int)a.size(), av.data());
  stdout = so;
  stderr = se;
  mc::state();
  if (rc != 0 && rc != 1 && rc != -1) FAIL("%s: %s: exit status %d", R.desc.c_str(), name, rc);
  return rc;
}
enum { INFO = 1, SAMPLE = 2, REMUX = 4, DEMUX = 8, PES = 16, TS = 32, EVERY = 63 };
void programs(const Bytes& b, int which) {
  Str in = dir().path + "/in.webm", out = dir().path + "/out";
  put(in, b);
  uint64_t h = 0;
  int k = 0;
  auto go = [&](int bit, std::function<int()> f) { if ((which & bit) && mc::sub(k)) h = mc::mix(h, (uint64_t)f()); ++k; };
  go(INFO, [&]() { return call(info_main, {"-all", "-i", in}, "webm_info"); });
  go(SAMPLE, [&]() { return call(sample_main, {in}, "mkvparser_sample"); });
  go(REMUX, [&]() { return call(remux_main, {"-i", in, "-o", out, "-copy_tags", "1"}, "mkvmuxer_sample"); });
  go(REMUX, [&]() { return call(remux_main, {"-i", in, "-o", out, "-cues_before_clusters", "1", "-copy_input_duration", "1", "-accurate_cluster_duration", "1"}, "mkvmuxer_sample"); });
  go(DEMUX, [&]() { return call(vttdemux_main, {in}, "vttdemux"); });
  go(PES, [&]() { return call(webm2pes_main, {in, out}, "webm2pes"); });
  go(TS, [&]() { return call(webm2ts_main, {in, out}, "webm2ts"); });
  mc::tick();
  mc::outcome(mc::mix(h, mc::fnv(b.data(), b.size())));
  dir().clean();
}
enum { VP9 = dg::NSEEDS, VP9E, VP8E, VTT, NDOC };
dg::Doc doc(int s) {
  if (s < dg::NSEEDS) return dg::seed(s);
  switch (s) {
    case VP9: return video("V_VP9", false, {block(0, 0x80, 0, {vp9_frame('k')}), block(10, 0, 0, {superframe({vp9_frame('a'), vp9_frame('p')}, 2)}), block(20, 0, 3, {vp9_frame('p'), vp9_frame('a')})}, 100, Bytes("\1\1\0\2\1\x0a\3\1\x08\4\1\1", 12));
    case VP9E: return video("V_VP9", true, {block(0, 0x80, 0, {Bytes("\3\1\2\3\4\5\6\7\x08\1\0\0\0\3", 14) + vp9_frame('k')}), block(9, 0, 0, {Bytes("\1\1\2\3\4\5\6\7\x08zz", 11)}), block(10, 0, 0, {Bytes(1, 0) + vp9_frame('p')})});
    case VP8E: return video("V_VP8", true, {block(0, 0x80, 0, {Bytes("\3\1\2\3\4\5\6\7\x08\2\0\0\0\3\0\0\0\5", 18) + Bytes("\x10\x02\x00\x9d\x01\x2a\x40\x00\x30\x00", 10)}), block(1, 0, 1, {Bytes(1, '\3'), Bytes("\1\2")})});
    default: {
      auto tr = [](int n, int type, const char* codec) { return El(TrackEntry, {eu(TrackNumber, n), eu(TrackUID, n), eu(TrackType, type), es(CodecID, codec), es(Name, "n"), es(Language, "en")}); };
      auto gr = [](int n, int rel, const char* text) { return El(BlockGroup, {es(Block, enc_block(n, rel, 0, 0, {Bytes(text)})), eu(BlockDuration, 5)}); };
      return {El(EBML, {es(DocType, "webm")}),
              El(Segment, {El(Info, {eu(TimecodeScale, 1000000)}), El(Tracks, {tr(1, 17, "D_WEBVTT/SUBTITLES"), tr(2, 33, "D_WEBVTT/METADATA")}),
                           El(Chapters, {El(EditionEntry, {El(ChapterAtom, {eu(ChapterUID, 1), es(ChapterStringUID, "c1"), eu(ChapterTimeStart, 0), eu(ChapterTimeEnd, 3000000000), El(ChapterDisplay, {es(ChapString, "one"), es(ChapLanguage, "eng")})})})}),
                           El(Cluster, {eu(Timecode, 0), gr(1, 0, "id\nline:1\ntext\nmore"), gr(2, 3, "\n\nx\n"), gr(1, 9, "a")})})};
    }
  }
}
const char* doc_name(int s) { static const char* n[] = {"vp9", "vp9 encrypted", "vp8 encrypted", "webvtt"}; return s < dg::NSEEDS ? dg::seed_name(s) : n[s - dg::NSEEDS]; }
const std::vector<int>& docs() { static std::vector<int> v; if (v.empty()) for (int i = 0; i < NDOC; ++i) v.push_back(i); return v; }
void size_field(const Bytes& b, uint64_t q, uint32_t id, int* idl, int* f) {
  *idl = id > 0xffffff ? 4 : id > 0xffff ? 3 : id > 0xff ? 2 : 1;
  *f = 1;
  while (!((unsigned char)b[q + *idl] & (0x80 >> (*f - 1)))) ++*f;
}
}  // namespace

SPACE(C33, bytes) {
  int s = docs()[c.pick(NDOC)];
  Bytes b = dg::enc(doc(s));
  int at = c.pick((int)b.size());
  bool all = R.thorough || s >= dg::NSEEDS;
  static const int crit[] = {0x00, 0x01, 0x02, 0x08, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  int v = all ? c.pick(256) : crit[c.pick(12)];
  if ((unsigned char)b[at] == v) return nullptr;
  b[at] = (char)v;
  int which = EVERY;
  if (!R.thorough && s >= dg::NSEEDS) { bool cr = false; for (int x : crit) cr = cr || x == v; if (!cr) which = s == VTT ? DEMUX : INFO | PES; }
  return [=]() {
    R.desc = strf("%s with byte %d = %02x", doc_name(s), at, v);
    programs(b, which);
  };
}
SPACE(C33, sizes) {
  int s = docs()[c.pick(NDOC)];
  Bytes b = dg::enc(doc(s));
  static std::map<int, wp::Pred> memo;
  if (!memo.count(s)) memo[s] = wp::predict(b, wp::Policy());
  auto& els = memo[s].elems;
  int i = c.pick((int)els.size());
  static const char* sz[] = {"\x80", "\x81", "\xfe", "\xff", "\x7f\xff", "\x1f\xff\xff\xfe", "\x08\x40\x00\x00\x00", "\x01\x7f\xff\xff\xff\xff\xff\xff", "\x01\xff\xff\xff\xff\xff\xff\xfe", "\x01\xff\xff\xff\xff\xff\xff\xff", "\x01\x00\x00\x00\x00\x00\x00\x00"};
  static const int szl[] = {1, 1, 1, 1, 2, 4, 5, 8, 8, 8, 8};
  int k = c.pick(11), parents = c.pick(3);
  uint64_t pos = els[i].pos;
  int idl, fl;
  size_field(b, pos, els[i].id, &idl, &fl);
  Bytes m = b;
  m.replace(pos + idl, fl, Bytes(sz[k], szl[k]));
  if (parents) {
    std::vector<std::pair<uint64_t, int>> open;
    for (int j = 0; j < i; ++j) {
      uint64_t q = els[j].pos;
      int il, f;
      size_field(b, q, els[j].id, &il, &f);
      uint64_t v = (unsigned char)b[q + il] & (0xff >> f);
      for (int t = 1; t < f; ++t) v = v << 8 | (unsigned char)b[q + il + t];
      if (v != (1ull << (7 * f)) - 1 && q + il + f + v > pos) open.push_back({q + il, f});
    }
    if (open.empty()) return nullptr;
    for (size_t t = open.size(); t-- > 0;)
      m.replace(open[t].first, open[t].second, parents == 1 ? Bytes("\x01\xff\xff\xff\xff\xff\xff\xfe", 8) : Bytes("\x01\xff\xff\xff\xff\xff\xff\xff", 8));
  }
  uint32_t id = els[i].id;
  return [=]() {
    R.desc = strf("%s: size field of %s @%llu replaced by variant %d, enclosing sizes %d", doc_name(s), eb::name_of(id), (ull)pos, k, parents);
    programs(m, EVERY);
  };
}
SPACE(C33, cuts) {
  int s = docs()[c.pick(NDOC)];
  Bytes b = dg::enc(doc(s));
  b.resize(c.pick((int)b.size() + 1));
  int pad = c.pick(3);
  return [=]() {
    R.desc = strf("%s, first %zu bytes%s", doc_name(s), b.size(), pad == 2 ? " and FF bytes" : pad ? " and zeros" : "");
    programs(pad ? b + Bytes(20, pad == 2 ? '\xff' : 0) : b, EVERY);
  };
}
SPACE(C33, edits) {
  int s = docs()[c.pick(NDOC)];
  dg::Doc d = doc(s);
  dg::EditCfg cfg;
  cfg.unknown_any = true;
  int node = c.pick(dg::node_count(d)), n = dg::edit_count(d, node, cfg);
  if (!n) return nullptr;
  Str desc = Str(doc_name(s)) + "; " + dg::apply(d, node, c.pick(n), cfg);
  Bytes b = dg::enc(d);
  return [=]() {
    R.desc = desc;
    programs(b, EVERY);
  };
}
SPACE(C33, edits2) {
  static const std::vector<int> few = {dg::TINY, VP9, VTT};
  const std::vector<int>& ds = R.thorough ? docs() : few;
  int s = ds[c.pick((int)ds.size())];
  dg::Doc d = doc(s);
  dg::EditCfg cfg;
  cfg.values = R.thorough;
  cfg.foreign = false;
  cfg.sizes = R.thorough;
  Str desc = doc_name(s);
  int from = 0;
  for (int i = 0; i < 2; ++i) {
    int nc = dg::node_count(d);
    if (from >= nc) return nullptr;
    int node = from + c.pick(nc - from), n = dg::edit_count(d, node, cfg);
    if (!n) return nullptr;
    desc += "; " + dg::apply(d, node, c.pick(n), cfg);
    if (!i && !c.mine()) return nullptr;
    from = node;
  }
  Bytes b = dg::enc(d);
  return [=]() {
    R.desc = desc;
    programs(b, s == VTT ? DEMUX | REMUX | INFO : EVERY);
  };
}
// texts given to the WebVTT programs
SPACE(C33, texts) {
  static const char* T[] = {"WEBVTT\n\n", "00:01.000 --> 00:02.000", "01:00:00.000-->9999:59:59.999 a:b", "\n", "\r", "text", "-->", "id\n", "\xef\xbb\xbf", " ", "00:00:00.000 --> ", ":", "NOTE x\n"};
  int n = 1 + c.pick(R.thorough ? 5 : 4);
  Str t;
  for (int i = 0; i < n; ++i) { t += T[c.pick(13)]; if (i == 1 && !c.mine()) return nullptr; }
  int head = c.pick(2);
  if (head) t = "WEBVTT\n\n" + t;
  return [=]() {
    R.desc = "text " + mc::hex(t.data(), t.size(), 200);
    Str v = dir().path + "/x.vtt", in = dir().path + "/in.webm", out = dir().path + "/out";
    put(v, t);
    int a = call(dumpvtt_main, {v}, "dumpvtt");
    mc::outcome(mc::mix((uint64_t)a, mc::hstr(t)));
    if (n <= 3) {
      put(in, dg::enc(dg::seed(dg::AV)));
      for (const char* o : {"-webvtt-subtitles", "-webvtt-chapters", "-webvtt-metadata"}) call(remux_main, {"-i", in, "-o", out, o, v}, "mkvmuxer_sample");
    }
    mc::tick();
    dir().clean();
  };
}
