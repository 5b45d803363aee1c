import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MX='mkvmuxer/mkvmuxer.cc'; MP='mkvparser/mkvparser.cc'; MU='mkvmuxer/mkvmuxerutil.cc'
seed('b15-cue-without-memory','C34',[(MX,'''  if (!cues_.AddCue(cue)) {
    delete cue;
    return false;
  }
''','''  if (!cues_.AddCue(cue))
    return false;
''')],
 'the table of cue points has to grow and there is no memory for it',
 'the cue point that could not be stored is never freed',
'''#include "d.h"
#include <new>
static long live = 0, fail_at = -1, seen = 0;
static bool armed = false;
void* operator new(size_t n) { ++live; return malloc(n ? n : 1); }
void* operator new[](size_t n) { ++live; return malloc(n ? n : 1); }
static bool refuse() { return armed && seen++ == fail_at; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (refuse()) return nullptr; ++live; return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (refuse()) return nullptr; ++live; return malloc(n ? n : 1); }
static void rel(void* p) { if (p) { --live; free(p); } }
void operator delete(void* p) noexcept { rel(p); }
void operator delete[](void* p) noexcept { rel(p); }
void operator delete(void* p, size_t) noexcept { rel(p); }
void operator delete[](void* p, size_t) noexcept { rel(p); }
static void once() {
  MemW w;
  mkvmuxer::Segment s;
  EXPECT(s.Init(&w));
  EXPECT(s.AddVideoTrack(320, 240, 1) == 1);
  EXPECT(add(s, 1, 0, true, "a"));
  armed = true;
  for (int i = 0; i < 6; ++i) s.AddCuePoint(1000000ull * i, 1);
  armed = false;
  s.Finalize();
}
int main() {
  once();
  long n = seen;
  EXPECT(n > 6);
  for (fail_at = 0; fail_at < n; ++fail_at) {
    seen = 0;
    long before = live;
    once();
    EXPECT(live == before);
  }
}
''')
seed('b16-private-data-shrinks','C07',[(MX,'''  delete[] codec_private_;

  codec_private_ =
      new (std::nothrow) uint8_t[static_cast<size_t>(length)];  // NOLINT
  if (!codec_private_)
    return false;

  memcpy(codec_private_, codec_private, static_cast<size_t>(length));
  codec_private_length_ = length;
''','''  if (!codec_private_ || codec_private_length_ < length) {
    delete[] codec_private_;

    codec_private_ =
        new (std::nothrow) uint8_t[static_cast<size_t>(length)];  // NOLINT
    if (!codec_private_)
      return false;
    codec_private_length_ = length;
  }

  memcpy(codec_private_, codec_private, static_cast<size_t>(length));
''')],
 'private data set twice on a track, the second time shorter',
 'the tail of the earlier private data stays in the file',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    EXPECT(s.AddVideoTrack(320, 240, 1) == 1);
    mkvmuxer::Track* t = s.GetTrackByNumber(1);
    EXPECT(t->SetCodecPrivate((const uint8_t*)"first private", 13));
    EXPECT(t->SetCodecPrivate((const uint8_t*)"2nd", 3));
    EXPECT(add(s, 1, 0, true, "a"));
    EXPECT(s.Finalize());
  }
  Doc d(w.b);
  EXPECT(d.ok);
  size_t n = 0;
  const unsigned char* p = d.s->GetTracks()->GetTrackByIndex(0)->GetCodecPrivate(n);
  EXPECT(n == 3 && !memcmp(p, "2nd", 3));
}
''')
seed('b17-estimate-two-frames','C08',[(MX,'if (track_frames_written_[i] < 2)','if (track_frames_written_[i] <= 2)')],
 'duration estimation and a longest track of exactly two frames',
 'the duration written leaves out the last frame',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    s.set_estimate_file_duration(true);
    EXPECT(s.AddVideoTrack(320, 240, 1) == 1);
    EXPECT(add(s, 1, 0, true, "a"));
    EXPECT(add(s, 1, 40, false, "b"));
    EXPECT(s.Finalize());
  }
  Doc d(w.b);
  EXPECT(d.ok);
  EXPECT(d.s->GetInfo()->GetDuration() == 80000000);
}
''')
W='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "webm/buffer_reader.h"
#include "webm/callback.h"
#include "webm/status.h"
#include "webm/webm_parser.h"
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "line %d: %s does not hold\\n", __LINE__, #c); exit(1); } } while (0)
using namespace webm;
std::string el(const std::string& id, const std::string& body) { std::string o = id; o += (char)(0x40 | body.size() >> 8); o += (char)body.size(); return o + body; }
const std::string EBML = el("\\x1A\\x45\\xDF\\xA3", ""), TC = std::string("\\xE7\\x81\\x05", 3), SEG = "\\x18\\x53\\x80\\x67", CL = "\\x1F\\x43\\xB6\\x75", SB = "\\xA3";
'''
seed('b18-long-lace-difference','C14',[('webm_parser/src/block_parser.cc','''          constexpr std::uint64_t one = 1;  // Prettier than a static_cast.''','''          constexpr std::uint32_t one = 1;  // Prettier than a static_cast.''')],
 'an EBML-laced block whose frame size differences are coded in five or more bytes',
 'the sizes of the laced frames are wrong, and a valid block is refused',
W+'''
struct Cb : Callback {
  std::string log;
  Status OnFrame(const FrameMetadata&, Reader* r, std::uint64_t* left) override {
    while (*left) { uint8_t b; std::uint64_t n; Status s = r->Read(1, &b, &n); *left -= n; if (!s.completed_ok()) return s; log += (char)b; }
    log += '|';
    return Status(Status::kOkCompleted);
  }
};
int main() {
  for (int len = 1; len <= 8; ++len) {
    // three frames of 3, 4 and the remaining 2 bytes; the difference +1 is coded in len bytes
    unsigned long long v = (1ull << (7 * len - 1)) - 1 + 1, coded = v | 1ull << (7 * len);
    std::string diff;
    for (int i = len - 1; i >= 0; --i) diff += (char)(coded >> (8 * i));
    std::string block = std::string("\\x81\\x00\\x00\\x06\\x02", 5) + "\\x83" + diff + "aaabbbbcc";
    std::string doc = EBML + el(SEG, el(CL, TC + el(SB, block)));
    BufferReader r(std::vector<uint8_t>(doc.begin(), doc.end()));
    Cb cb;
    WebmParser p;
    Status s = p.Feed(&cb, &r);
    EXPECT(s.completed_ok());
    EXPECT(cb.log == "aaa|bbbb|cc|");
  }
}
''')
seed('b19-skip-four-gigabytes','C15',[('webm_parser/src/skip_parser.cc','num_bytes_remaining_ = metadata.size;','num_bytes_remaining_ = static_cast<std::uint32_t>(metadata.size);')],
 'skipping an element of 4 GB or more',
 'only the low 32 bits of the size are skipped and the contents of the skipped element are taken for elements',
W+'''
struct Rd : Reader {   // a document with a long run of zero bytes in it
  std::string head, tail; std::uint64_t run, pos = 0;
  std::uint64_t total() const { return head.size() + run + tail.size(); }
  Status Read(std::size_t n, std::uint8_t* b, std::uint64_t* got) override {
    *got = 0;
    if (pos >= total()) return Status(Status::kEndOfFile);
    for (; *got < n && pos < total(); ++pos, ++*got) b[*got] = pos < head.size() ? head[pos] : pos < head.size() + run ? 0 : tail[pos - head.size() - run];
    return Status(*got == n ? Status::kOkCompleted : Status::kOkPartial);
  }
  Status Skip(std::uint64_t n, std::uint64_t* got) override {
    *got = 0;
    if (pos >= total()) return Status(Status::kEndOfFile);
    *got = n < total() - pos ? n : total() - pos;
    pos += *got;
    return Status(*got == n ? Status::kOkCompleted : Status::kOkPartial);
  }
  std::uint64_t Position() const override { return pos; }
};
struct Cb : Callback {
  int clusters = 0;
  Status OnElementBegin(const ElementMetadata& m, Action* a) override { *a = m.id == Id::kCues || m.id == Id::kTags ? Action::kSkip : Action::kRead; return Status(Status::kOkCompleted); }
  Status OnClusterBegin(const ElementMetadata&, const Cluster&, Action* a) override { ++clusters; *a = Action::kRead; return Status(Status::kOkCompleted); }
};
int main() {
  Rd r;
  r.run = 5000000000ull;
  r.head = EBML + SEG + std::string("\\x01\\xff\\xff\\xff\\xff\\xff\\xff\\xff", 8) + "\\x12\\x54\\xC3\\x67" + std::string("\\x01\\x00\\x00\\x01\\x2A\\x05\\xF2\\x00", 8);
  r.tail = el(CL, TC + el(SB, std::string("\\x81\\x00\\x00\\x80x", 5)));
  Cb cb;
  WebmParser p;
  Status s = p.Feed(&cb, &r);
  EXPECT(s.completed_ok());
  EXPECT(cb.clusters == 1);
}
''')
seed('b20-cluster-table-full','C11',[(MP,'if (m_entries_count >= m_entries_size) {','if (m_entries_count > m_entries_size) {')],
 'a cluster with more than 1024 blocks',
 'the block table of the cluster is overrun (or an assertion fails)',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    EXPECT(s.AddVideoTrack(320, 240, 1) == 1);
    for (int i = 0; i < 1500; ++i) EXPECT(add(s, 1, i, i == 0, std::string(1, (char)i)));
    EXPECT(s.Finalize());
  }
  Doc d(w.b);
  EXPECT(d.ok);
  auto f = d.frames();
  EXPECT(f.size() == 1500);
  for (int i = 0; i < 1500; ++i) EXPECT(f[i].ns == i * 1000000ll && f[i].data == std::string(1, (char)i));
}
''')
seed('b21-block-size-of-payload','C02',[(MU,'GetUIntSize(libwebm::kMkvSimpleBlock) + GetCodedUIntSize(size) + 4','GetUIntSize(libwebm::kMkvSimpleBlock) + GetCodedUIntSize(frame->length()) + 4')],
 'a frame whose length is just below a boundary of the size encoding, so that payload and block need different size fields',
 'the cluster size written is too small by one byte',
'''#include "d.h"
int main() {
  for (size_t n = 118; n < 134; ++n) {
    MemW w;
    {
      mkvmuxer::Segment s;
      EXPECT(s.Init(&w));
      EXPECT(s.AddVideoTrack(320, 240, 1) == 1);
      EXPECT(add(s, 1, 0, true, std::string(n, 'x')));
      s.ForceNewClusterOnNextFrame();
      EXPECT(add(s, 1, 40, true, "b"));
      EXPECT(s.Finalize());
    }
    Doc d(w.b);
    EXPECT(d.ok);
    size_t at = 0, next = 0, size = 0;
    for (size_t i = 0; i + 12 <= w.b.size(); ++i) {
      if (memcmp(&w.b[i], "\\x1F\\x43\\xB6\\x75", 4) || w.b[i + 4] != 1) continue;
      (at ? next : at) = i;
    }
    EXPECT(at && next);
    for (int k = 1; k < 8; ++k) size = size * 256 + (unsigned char)w.b[at + 4 + k];
    EXPECT((unsigned char)w.b[at + 4] == 1 && at + 12 + size == next);
  }
}
''')
seed('b22-segment-after-seek','C16',[('webm_parser/src/webm_parser.cc','''          if (child_metadata_.id == Id::kSegment) {
            child_parser_ = &segment_parser_;
            did_seek_ = false;
''','''          if (child_metadata_.id == Id::kSegment) {
            child_parser_ = &segment_parser_;
''')],
 'a seek to the segment, which is followed by an element that belongs inside a segment',
 'the element behind the segment is reported as part of a second segment',
W+'''
struct Cb : Callback {
  int clusters = 0;
  Status OnClusterBegin(const ElementMetadata&, const Cluster&, Action* a) override { ++clusters; *a = Action::kRead; return Status(Status::kOkCompleted); }
};
int main() {
  std::string cl = el(CL, TC + el(SB, std::string("\\x81\\x00\\x00\\x80x", 5)));
  std::string doc = el(SEG, cl) + cl;   // the second cluster lies outside
  for (int seek = 0; seek < 2; ++seek) {
    BufferReader r(std::vector<uint8_t>(doc.begin(), doc.end()));
    Cb cb;
    WebmParser p;
    if (seek) p.DidSeek();
    Status s = p.Feed(&cb, &r);
    EXPECT(s.completed_ok());
    EXPECT(cb.clusters == 1);
  }
}
''')
