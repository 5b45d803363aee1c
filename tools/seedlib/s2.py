import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MX='mkvmuxer/mkvmuxer.cc'; MP='mkvparser/mkvparser.cc'
seed('b07-find-cluster-at-start','C26',[(MP,'''    const long long t = pCluster->GetTime();

    if (t <= time_ns)
      i = k + 1;
    else
      j = k;

    assert(i <= j);
  }

  assert(i == j);
  assert(i > 0);
  assert(i <= m_clusterCount);

  const long k = i - 1;

  Cluster* const pCluster = m_clusters[k];
  assert(pCluster);
  assert(pCluster->m_index == k);
  assert(pCluster->GetTime() <= time_ns);

  return pCluster;
}

const Tracks*''','''    const long long t = pCluster->GetTime();

    if (t < time_ns)
      i = k + 1;
    else
      j = k;

    assert(i <= j);
  }

  assert(i == j);
  assert(i > 0);
  assert(i <= m_clusterCount);

  const long k = i - 1;

  Cluster* const pCluster = m_clusters[k];
  assert(pCluster);
  assert(pCluster->m_index == k);
  assert(pCluster->GetTime() <= time_ns);

  return pCluster;
}

const Tracks*''')],
 'a lookup at exactly the time of a cluster that is not the first',
 'FindCluster returns the cluster before the one that starts at the requested time',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    EXPECT(s.AddVideoTrack(16, 16, 1));
    for (int i = 0; i < 5; ++i) EXPECT(add(s, 1, i * 100, true, "v"));
    EXPECT(s.Finalize());
  }
  Doc d(w.b);
  EXPECT(d.ok && d.s->GetCount() == 5);
  for (int i = 0; i < 5; ++i) {
    EXPECT(d.s->FindCluster(i * 100000000ll)->GetTime() == i * 100000000ll);
    EXPECT(d.s->FindCluster(i * 100000000ll + 1)->GetTime() == i * 100000000ll);
  }
  return 0;
}
''')
seed('b08-relocated-cues-earlier','C28',[(MX,'''    for (int32_t i = 0; i < cues_.cue_entries_size(); ++i) {
      MoveCuesBeforeClustersHelper(diff, i, cues_size);
    }
  }
}''','''    for (int32_t i = index; i < cues_.cue_entries_size(); ++i) {
      MoveCuesBeforeClustersHelper(diff, i, cues_size);
    }
  }
}''')],
 'a cue point other than the first that becomes longer when the clusters move (its position crosses a byte boundary)',
 'the cue points before it still name the positions from before the cues grew',
'''#include "d.h"
static uint64_t num(const std::string& b, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)b[p + i]; return v; }
struct FileR : MemR { using MemR::MemR; };
int main() {
  for (int pay = 1; pay < 60; ++pay) {
    MemW w, o;
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    EXPECT(s.AddVideoTrack(16, 16, 1));
    s.OutputCues(true);
    for (int i = 0; i < 12; ++i) EXPECT(add(s, 1, i * 100, true, std::string(pay, 'v')));
    EXPECT(s.Finalize());
    MemR in(w.b);
    EXPECT(s.CopyAndMoveCuesBeforeClusters(&in, &o));
    Doc d(o.b);
    EXPECT(d.ok);
    const mkvparser::Cues* c = d.s->GetCues();
    EXPECT(c);
    while (!c->DoneParsing()) c->LoadCuePoint();
    int n = 0;
    const mkvparser::Track* t = d.s->GetTracks()->GetTrackByNumber(1);
    for (const mkvparser::CuePoint* p = c->GetFirst(); p; p = c->GetNext(p), ++n)
      EXPECT(o.b.compare(d.s->m_start + p->Find(t)->m_pos, 4, "\\x1f\\x43\\xb6\\x75") == 0);
    EXPECT(n == 12);
  }
  return 0;
}
''')

VPH='''#include "d.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
struct Bits { std::string b; int n = 0; void put(unsigned v, int k) { while (k--) { if (n % 8 == 0) b += '\\0'; if (v >> k & 1) b[n / 8] |= 0x80 >> n % 8; ++n; } } };
static std::string inter(int refresh) { Bits x; x.put(2, 2); x.put(0, 2); x.put(0, 1); x.put(1, 1); x.put(1, 1); x.put(0, 1); x.put(0, 2); x.put(refresh, 8); x.put(0, 12); x.put(1, 1); x.put(0, 60); return x.b; }
'''
seed('b09-last-reference-slot','C25',[('common/vp9_level_stats.cc','''    int ref_frame_count = frames_refreshed_ & 1;
    for (int i = 1; i < kMaxVp9RefFrames; ++i) {''','''    int ref_frame_count = frames_refreshed_ & 1;
    for (int i = 1; i < kMaxVp9RefFrames - 1; ++i) {''')],
 'a frame that refreshes the last of the eight reference slots',
 'that slot is not counted',
VPH+'''int main() {
  for (int slot = 0; slot < 8; ++slot) {
    vp9_parser::Vp9HeaderParser p;
    vp9_parser::Vp9LevelStats st;
    int64_t t = 0;
    auto feed = [&](const std::string& f) { EXPECT(p.ParseUncompressedHeader((const uint8_t*)f.data(), f.size())); st.AddFrame(p, t += 33000000); };
    feed(std::string() + "\\x82\\x49\\x83\\x42" + std::string("\\x20\\x03\\xf0\\x03\\xf0\\x00\\x00\\x00\\x00\\x00\\x00\\x00", 12));
    EXPECT(p.key() && p.width() == 64);
    feed(inter(1 << slot));
    EXPECT(!p.key() && p.refresh_frame_flags() == 1 << slot);
    EXPECT(st.GetMaxReferenceFrames() == 1);
  }
  return 0;
}
''','common/vp9_level_stats.cc common/vp9_header_parser.cc')
seed('b10-writer-far-seek','C30',[('mkvmuxer/mkvwriter.cc','''  return fseeko(file_, static_cast<off_t>(position), SEEK_SET);''','''  return fseeko(file_, static_cast<uint32>(position), SEEK_SET);''')],
 'a reposition beyond 4 GB',
 'the position is taken modulo 2^32, so that later writes land inside earlier data',
'''#include "d.h"
#include "mkvmuxer/mkvwriter.h"
int main() {
  mkvmuxer::MkvWriter w;
  EXPECT(w.Open("f.bin"));
  EXPECT(w.Write("ab", 2) == 0);
  EXPECT(w.Position(5000000000ll) == 0);
  EXPECT(w.Position() == 5000000000ll);
  w.Position(0);
  w.Close();
  return 0;
}
''')
seed('b11-vtt-sixty-minutes','C20',[('webvtt/webvttparser.cc','''      if (first_val >= 60)  // minutes
        return -1;''','''      if (first_val > 60)  // minutes
        return -1;''')],
 'a timing line without hours whose minutes are exactly 60',
 'the malformed time is accepted',
'''#include "d.h"
#include "webvtt/webvttparser.h"
struct R : libwebvtt::Reader { std::string s; size_t i = 0; int GetChar(char* c) override { if (i >= s.size()) return 1; *c = s[i++]; return 0; } };
static int parse(const std::string& line) {
  R r;
  r.s = "WEBVTT\\n\\n" + line + "\\nhello\\n";
  libwebvtt::Parser p(&r);
  if (p.Init()) return -9;
  libwebvtt::Cue c;
  return p.Parse(&c);
}
int main() {
  EXPECT(parse("59:00.000 --> 59:10.000") == 0);
  EXPECT(parse("60:00.000 --> 60:10.000") != 0);
  EXPECT(parse("59:00.000 --> 60:10.000") != 0);
  EXPECT(parse("61:00.000 --> 61:10.000") != 0);
  return 0;
}
''','webvtt/webvttparser.cc webvtt/vttreader.cc')
seed('b12-pts-top-bit','C21',[('m2ts/webm2pes.cc','''  const std::uint32_t pts1 = (pts_90khz >> 30) & 0x7;''','''  const std::uint32_t pts1 = (pts_90khz >> 30) & 0x3;''')],
 'a frame later than 2^32 ticks of 90 kHz (13 hours 15 minutes)',
 'the top bit of the presentation time is lost',
'''#include "d.h"
#include "m2ts/webm2pes.h"
int main() {
  const int64_t ticks[] = {0, 1, 1 << 30, 0xffffffffll, 0x100000000ll, 0x1ffffffffll};
  for (int64_t k : ticks) {
    libwebm::PesHeader h;
    h.optional_header.SetPtsBits(k);
    uint64_t b = h.optional_header.pts.bits;
    unsigned char q[5];
    for (int i = 0; i < 5; ++i) q[i] = b >> (8 * i);
    int64_t v = (int64_t)(q[0] >> 1 & 7) << 30 | q[1] << 22 | (q[2] >> 1) << 15 | q[3] << 7 | q[4] >> 1;
    EXPECT(v == k);
  }
  return 0;
}
''','m2ts/webm2pes.cc common/libwebm_util.cc common/video_frame.cc')

seed('b13-skip-unknown-size','C15',[('webm_parser/src/master_parser.cc','''          state_ = State::kFirstReadOfChildId;
        }
        PrepareForNextChild();
        callback = original_callback;
        continue;''','''          state_ = State::kFirstReadOfChildId;
          callback = original_callback;
        }
        PrepareForNextChild();
        continue;''')],
 'a skipped element of unknown size (a live cluster) that is followed by another element of the same parent',
 'the element after the skipped one is not reported either',
'''#include "d.h"
#include "webm/webm_parser.h"
#include "webm/callback.h"
#include "webm/buffer_reader.h"
#include "webm/status.h"
struct Cb : webm::Callback {
  int clusters = 0, blocks = 0, skip = -1;
  webm::Status OnClusterBegin(const webm::ElementMetadata&, const webm::Cluster&, webm::Action* a) override { *a = webm::Action::kRead; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnElementBegin(const webm::ElementMetadata& m, webm::Action* a) override { *a = m.id == webm::Id::kCluster && clusters++ == skip ? webm::Action::kSkip : webm::Action::kRead; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata&, const webm::SimpleBlock&, webm::Action* a) override { ++blocks; *a = webm::Action::kSkip; return webm::Status(webm::Status::kOkCompleted); }
};
int main() {
  MemW w;
  w.seek = false;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    s.set_mode(mkvmuxer::Segment::kLive);
    EXPECT(s.AddVideoTrack(16, 16, 1));
    for (int i = 0; i < 4; ++i) EXPECT(add(s, 1, i * 10, true, "v0"));
    EXPECT(s.Finalize());
  }
  for (int i = -1; i < 4; ++i) {
    webm::BufferReader r(std::vector<uint8_t>(w.b.begin(), w.b.end()));
    Cb cb;
    cb.skip = i;
    webm::WebmParser p;
    EXPECT(p.Feed(&cb, &r).code == webm::Status::kOkCompleted);
    EXPECT(cb.clusters == 4 && cb.blocks == (i < 0 ? 4 : 3));
  }
  return 0;
}
''')
seed('b14-superframe-second-size','C24',[('common/libwebm_util.cc','''        frame_ranges->push_back(Range(frame_offset, child_frame_length));
        frame_offset += child_frame_length;''','''        frame_ranges->push_back(Range(frame_offset, child_frame_length));
        frame_offset += child_frame_length & 0xffff;''')],
 'a superframe with a frame of 65536 bytes or more that is not the last',
 'the frames after it start at the wrong offset',
'''#include "d.h"
#include "common/libwebm_util.h"
int main() {
  const size_t n[3] = {70000, 3, 65536};
  std::string f;
  for (size_t k : n) f += std::string(k, 'f');
  unsigned char m = 0xc0 | (3 - 1) << 3 | 2;
  f += m;
  for (size_t k : n) for (int i = 0; i < 3; ++i) f += (char)(k >> (8 * i));
  f += m;
  libwebm::Ranges r;
  bool err = false;
  EXPECT(libwebm::ParseVP9SuperFrameIndex((const uint8_t*)f.data(), f.size(), &r, &err) && !err);
  EXPECT(r.size() == 3);
  size_t at = 0;
  for (int i = 0; i < 3; ++i) { EXPECT(r[i].offset == at && r[i].length == n[i]); at += n[i]; }
  return 0;
}
''','common/libwebm_util.cc')
