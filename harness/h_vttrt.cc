// C29: WebVTT files muxed by SampleMuxerMetadata and the real muxer, demuxed by vttdemux, compared with the cues given.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include "ebml.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvwriter.h"
#include "sample_muxer_metadata.h"
using mc::R;
using mc::strf;
typedef std::string S;
int tool_main(int argc, const char* argv[]);   // vttdemux
namespace {
struct CueT {
  S id;
  long long start = 0, stop = 0;   // ms
  std::vector<std::pair<S, S>> set;
  std::vector<S> lines;
  S str() const {
    S s = "id '" + id + strf("' %lld..%lld", start, stop);
    for (auto& x : set) s += " " + x.first + ":" + x.second;
    for (auto& l : lines) s += " | " + l;
    return s;
  }
};
typedef std::vector<CueT> Cues;
S clock(long long ms, bool hours) {
  S s;
  if (hours || ms >= 3600000) s = strf("%02lld:", ms / 3600000);
  return s + strf("%02lld:%02lld.%03lld", ms / 60000 % 60, ms / 1000 % 60, ms % 1000);
}
S text(const Cues& v) {
  S s = "WEBVTT\n";
  for (auto& c : v) {
    s += "\n";
    if (!c.id.empty()) s += c.id + "\n";
    s += clock(c.start, false) + " --> " + clock(c.stop, false);
    for (auto& x : c.set) s += " " + x.first + ":" + x.second;
    s += "\n";
    for (auto& l : c.lines) s += l + "\n";
  }
  return s;
}
bool stamp(const S& s, long long* ms) {
  std::vector<S> p;
  size_t i = 0;
  for (size_t j; (j = s.find(':', i)) != S::npos; i = j + 1) p.push_back(s.substr(i, j - i));
  S last = s.substr(i);
  size_t dot = last.find('.');
  if (dot == S::npos || p.empty() || p.size() > 2) return false;
  auto num = [](const S& x) { for (char c : x) if (c < '0' || c > '9') return -1ll; return x.empty() || x.size() > 9 ? -1ll : atoll(x.c_str()); };
  long long h = p.size() == 2 ? num(p[0]) : 0, m = num(p[p.size() - 1]), sec = num(last.substr(0, dot)), f = num(last.substr(dot + 1));
  if (h < 0 || m < 0 || m > 59 || sec < 0 || sec > 59 || f < 0 || last.size() - dot != 4 || p[p.size() - 1].size() != 2 || dot != 2) return false;
  *ms = ((h * 60 + m) * 60 + sec) * 1000 + f;
  return true;
}
// WebVTT as the format describes it.
S parse(const S& t, Cues* out) {
  std::vector<S> lines;
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find('\n', i);
    if (j == S::npos) j = t.size();
    lines.push_back(t.substr(i, j - i));
    i = j + 1;
  }
  if (lines.empty() || lines[0].compare(0, 6, "WEBVTT")) return "no WEBVTT header";
  size_t k = 1;
  while (k < lines.size() && !lines[k].empty()) ++k;
  while (k < lines.size()) {
    if (lines[k].empty()) { ++k; continue; }
    CueT c;
    if (lines[k].find("-->") == S::npos) c.id = lines[k++];
    if (k >= lines.size()) return "identifier without a cue";
    size_t a = lines[k].find("-->");
    if (a == S::npos) return "no timings after '" + c.id + "'";
    S l = lines[k].substr(0, a), r = lines[k].substr(a + 3);
    auto trim = [](S& s) { while (!s.empty() && s.back() == ' ') s.pop_back(); size_t p = s.find_first_not_of(' '); s = p == S::npos ? "" : s.substr(p); };
    trim(l); trim(r);
    size_t e = r.find(' ');
    S rest = e == S::npos ? "" : r.substr(e);
    r = r.substr(0, e);
    if (!stamp(l, &c.start) || !stamp(r, &c.stop)) return "bad timings '" + lines[k] + "'";
    trim(rest);
    while (!rest.empty()) {
      size_t sp = rest.find(' ');
      S one = rest.substr(0, sp);
      size_t col = one.find(':');
      if (col == S::npos) return "bad setting '" + one + "'";
      c.set.push_back({one.substr(0, col), one.substr(col + 1)});
      rest = sp == S::npos ? "" : rest.substr(sp);
      trim(rest);
    }
    ++k;
    while (k < lines.size() && !lines[k].empty()) c.lines.push_back(lines[k++]);
    out->push_back(c);
  }
  return "";
}
void same(const S& what, const Cues& want, const Cues& got) {
  for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
    S w = i < want.size() ? want[i].str() : "nothing", g = i < got.size() ? got[i].str() : "nothing";
    if (w != g) FAIL("%s cue %zu: given [%s], came back [%s]", what.c_str(), i, w.c_str(), g.c_str());
  }
}
struct Dir {
  S path;
  Dir() {
    path = mc::scratch() + "/verifXXXXXX";
    if (!mkdtemp(&path[0])) abort();
  }
  void clear() {
    DIR* d = opendir(path.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
    closedir(d);
  }
  ~Dir() { clear(); rmdir(path.c_str()); }
};
S slurp(const S& p, bool* ok) {
  S s;
  FILE* f = fopen(p.c_str(), "rb");
  *ok = f != nullptr;
  if (!f) return s;
  char b[65536];
  for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) s.append(b, n);
  fclose(f);
  return s;
}
void spit(const S& p, const S& s) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) { fprintf(stderr, "scratch file %s: %s\n", p.c_str(), strerror(errno)); abort(); }
  fclose(f);
}
struct TrackT { SampleMuxerMetadata::Kind kind; Cues cues; };
struct Job {
  std::vector<TrackT> tr;
  std::vector<long long> video;   // frame times in ms
  bool live = false;
  int pad = 0;
  bool end_only = false;          // cues are flushed at the end instead of before each frame
};
const char* KN[5] = {"SUBTITLES", "CAPTIONS", "DESCRIPTIONS", "METADATA", "CHAPTERS"};
void run(const Job& j) {
  S d = strf("%d other tracks, video %zu%s%s", j.pad, j.video.size(), j.live ? " live" : "", j.end_only ? " end" : "");
  for (auto& t : j.tr) { d += strf("; %s", KN[t.kind]); for (auto& c : t.cues) d += " [" + c.str() + "]"; }
  R.desc = d.size() > 600 ? d.substr(0, 600) : d;
  static Dir* dir = nullptr;
  if (!dir) { dir = new Dir; atexit([]() { delete dir; dir = nullptr; }); }
  dir->clear();
  S webm = dir->path + "/f.webm";
  static bool quiet = false;
  if (!quiet) { quiet = true; if (!R.replay && !freopen("/dev/null", "w", stdout)) abort(); }
  std::vector<uint64_t> num;
  {
    mkvmuxer::MkvWriter w;
    if (!w.Open(webm.c_str())) abort();
    mkvmuxer::Segment seg;
    CHECK(seg.Init(&w), "Init failed");
    seg.set_mode(j.live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
    uint64_t vt = seg.AddVideoTrack(16, 16, 0);
    for (int i = 0; i < j.pad; ++i) CHECK(seg.AddAudioTrack(48000, 2, 0) == vt + 1 + i, "audio track refused");
    SampleMuxerMetadata md;
    CHECK(md.Init(&seg), "SampleMuxerMetadata::Init failed");
    uint64_t next = vt + j.pad + 1;
    for (size_t i = 0; i < j.tr.size(); ++i) {
      S f = dir->path + strf("/in%zu", i);
      spit(f, text(j.tr[i].cues));
      if (!md.Load(f.c_str(), j.tr[i].kind)) FAIL("Load refused a valid file (%s)", KN[j.tr[i].kind]);
      num.push_back(j.tr[i].kind == SampleMuxerMetadata::kChapters ? 0 : next++);
    }
    if (!md.AddChapters()) FAIL("AddChapters failed");
    for (long long ms : j.video) {
      if (!j.end_only && !md.Write(ms * 1000000)) FAIL("writing cues up to %lld ms failed", ms);
      const uint8_t fr[2] = {1, 2};
      if (!seg.AddFrame(fr, 2, vt, (uint64_t)ms * 1000000, true)) FAIL("video frame refused");
    }
    if (!md.Write(-1)) FAIL("writing the remaining cues failed");
    if (!seg.Finalize()) FAIL("Finalize failed");
    w.Close();
    mc::tick((unsigned)(2 + j.video.size()));
  }
  bool ok;
  S file = slurp(webm, &ok);
  // the blocks: identifier, settings and payload lines
  eb::Node root;
  S e = eb::read_doc(file, &root);
  if (!e.empty()) FAIL("WebM file not well-formed: %s", e.c_str());
  const eb::Node* sg = root.find(eb::Segment);
  std::map<uint64_t, std::vector<S>> frames;
  for (auto* cl : sg->all(eb::Cluster))
    for (auto& k : cl->kids) {
      const eb::Node* b = k.id == eb::SimpleBlock ? &k : k.id == eb::BlockGroup ? k.find(eb::Block) : nullptr;
      if (!b) continue;
      eb::BlockData bd;
      e = eb::read_block(b->data, &bd);
      if (!e.empty() || bd.frames.size() != 1) FAIL("bad block: %s", e.c_str());
      frames[bd.track].push_back(bd.frames[0]);
    }
  for (size_t i = 0; i < j.tr.size(); ++i) {
    if (!num[i]) continue;
    auto& fr = frames[num[i]];
    if (fr.size() != j.tr[i].cues.size()) FAIL("track %llu has %zu blocks for %zu cues", (unsigned long long)num[i], fr.size(), j.tr[i].cues.size());
    for (size_t k = 0; k < fr.size(); ++k) {
      const CueT& c = j.tr[i].cues[k];
      S want = c.id + "\n";
      for (size_t s = 0; s < c.set.size(); ++s) want += (s ? " " : "") + c.set[s].first + ":" + c.set[s].second;
      want += "\n";
      for (size_t s = 0; s < c.lines.size(); ++s) want += (s ? "\n" : "") + c.lines[s];
      S got = fr[k];
      if (!got.empty() && got.back() == '\n') got.pop_back();
      if (got != want) FAIL("cue %zu of track %llu stored as '%s'", k, (unsigned long long)num[i], got.c_str());
    }
  }
  const char* av[2] = {"vttdemux", webm.c_str()};
  int rc = tool_main(2, av);
  std::map<int, int> per;
  for (auto& t : j.tr) ++per[t.kind];
  bool any = false;
  for (auto& t : j.tr) any |= t.kind != SampleMuxerMetadata::kChapters || !t.cues.empty();
  if (any && rc != 0) FAIL("vttdemux failed");
  if (!any) return;
  size_t outs = 0;
  for (size_t i = 0; i < j.tr.size(); ++i) {
    const TrackT& t = j.tr[i];
    if (t.kind == SampleMuxerMetadata::kChapters && t.cues.empty()) continue;
    S name = dir->path + "/f_" + KN[t.kind] + (per[t.kind] > 1 ? strf("%llu", (unsigned long long)num[i]) : "") + ".vtt";
    S got = slurp(name, &ok);
    if (!ok) FAIL("no output file %s", name.c_str() + dir->path.size() + 1);
    ++outs;
    Cues back;
    e = parse(got, &back);
    if (!e.empty()) FAIL("%s output not valid WebVTT: %s", KN[t.kind], e.c_str());
    same(KN[t.kind], t.cues, back);
  }
  size_t found = 0;
  if (DIR* dd = opendir(dir->path.c_str())) { while (dirent* x = readdir(dd)) { S n = x->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".vtt") ++found; } closedir(dd); }
  if (found != outs) FAIL("%zu WebVTT files for %zu tracks", found, outs);
  mc::state();
  mc::outcome(mc::hstr(d));
  mc::sample(R.desc);
}
S longs(size_t n) { S s; for (size_t i = 0; i < n; ++i) s += (char)('a' + i % 26); return s; }
const std::vector<S>& ids() {
  static const std::vector<S> v = {"", "1", "a b", "\xc3\xa9", "NOTE", "a:b", "- ->", longs(126), longs(9000)};
  return v;
}
typedef std::vector<std::pair<S, S>> Set;
const std::vector<Set>& sets() {
  static const std::vector<Set> v = {{}, {{"align", "start"}}, {{"position", "10%"}, {"line", "-1"}}, {{"a", "b"}, {"c", "d"}, {"e", "f"}}, {{"region", longs(130)}}, {{"x", "-->"}}};
  return v;
}
const std::vector<std::vector<S>>& payloads() {
  static const std::vector<std::vector<S>> v = {{"x"}, {"one", "two"}, {"a", "b", "c"}, {" lead", "trail "}, {"<i>x</i> &amp;"}, {"\xc3\xa9\xe2\x82\xac"}, {"100%", "%s%n"}, {longs(127)}, {longs(9000), longs(9000)}, {"a:b c:d"}, {"12", "3"}, {"x\ty"}};
  return v;
}
const long long TT[] = {0, 1, 999, 1000, 59999, 60000, 3599999, 3600000, 3661001, 35999999, 36000000, 359999999, 360000000};
const long long DD[] = {1000, 1, 999, 60000, 3600000, 32767, 32768, 65535, 65536, 0};
}  // namespace

// One cue with every identifier, settings, payload, kind; start and length at every boundary.
SPACE(C29, single) {
  Job j;
  int kind = c.pick(5);
  if (!c.mine()) return nullptr;
  c.set_budget(R.thorough ? 6 : 3);
  CueT q;
  q.id = ids()[c.dev((int)ids().size())];
  int si = c.dev((int)sets().size());
  if (kind == 4 && si) return nullptr;      // chapters have no settings
  q.set = sets()[si];
  q.lines = payloads()[c.dev((int)payloads().size())];
  q.start = TT[c.dev(13)];
  q.stop = q.start + DD[c.dev(10)];
  j.live = c.dev(2);
  static const std::vector<long long> V[4] = {{0}, {0, 40, 80}, {0, 29999, 30000, 60001}, {1000, 400000000}};
  j.video = V[c.dev(4)];
  j.end_only = c.dev(2);
  // frames must be given in time order for the cue to be placed; at the end only if it starts after the last frame
  if (j.end_only && q.start < j.video.back()) return nullptr;
  j.tr.push_back({(SampleMuxerMetadata::Kind)kind, {q}});
  return [j]() { run(j); };
}
// Lists of cues: start times in every non-decreasing order, overlapping, over cluster limits.
SPACE(C29, lists) {
  Job j;
  int kind = c.pick(5), n = c.pick(R.thorough ? 6 : 5);
  if (!c.mine()) return nullptr;
  static const long long step[] = {0, 1, 1500, 30000, 33000};
  static const long long len[] = {1, 1500, 40000};
  long long t = 0;
  Cues v;
  for (int i = 0; i < n; ++i) {
    CueT q;
    t += step[c.pick(5)];
    q.start = t;
    q.stop = t + len[c.pick(n > 3 ? 2 : 3)];
    int shape = (i + kind) % 3;
    q.id = shape == 0 ? "" : strf("cue %d", i);
    if (shape == 2 && kind != 4) q.set = {{"line", strf("%d", i)}};
    for (int l = 0; l <= shape; ++l) q.lines.push_back(strf("line %d of %d", l, i));
    v.push_back(q);
  }
  static const std::vector<long long> V[3] = {{0}, {0, 1000, 2000, 31000, 61000, 100000}, {0, 1, 1500, 1501, 30000, 33000}};
  j.video = V[c.pick(3)];
  j.tr.push_back({(SampleMuxerMetadata::Kind)kind, v});
  return [j]() { run(j); };
}
// Several tracks, of the same and of different kinds.
SPACE(C29, tracks) {
  Job j;
  int n = 1 + c.pick(3);
  bool chap = false;
  long long base = 0;
  for (int i = 0; i < n; ++i) {
    int kind = c.pick(5);
    if (kind == 4 && chap) return nullptr;      // one chapters file at most
    chap |= kind == 4;
    if (i == 0 && !c.mine()) return nullptr;
    Cues v;
    int k = c.pick(4);                          // number of cues
    int when = c.pick(3);                       // same times, interleaved, later
    for (int x = 0; x < k; ++x) {
      CueT q;
      q.start = (when == 0 ? 0 : when == 1 ? i : 40000) + x * 1000 + base;
      q.stop = q.start + 700;
      if (x % 2) q.id = strf("t%d c%d", i, x);
      q.lines = {strf("track %d cue %d", i, x)};
      v.push_back(q);
    }
    if (!k && when) return nullptr;
    j.tr.push_back({(SampleMuxerMetadata::Kind)kind, v});
  }
  static const std::vector<long long> V[2] = {{0}, {0, 1000, 2000, 40000, 50000}};
  j.video = V[c.pick(2)];
  j.live = c.flag();
  static const int PAD[] = {0, 62, 122};
  j.pad = PAD[R.thorough || n < 3 ? c.pick(3) : 0];     // other tracks in front of them: high track numbers
  return [j]() { run(j); };
}
