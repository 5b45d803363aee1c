import sys; sys.path.insert(0,'/tmp/seedlib')
from mkseed import seed
MX='mkvmuxer/mkvmuxer.cc'
seed('b01-copied-addition-id','C01',[(MX,'''                         frame.add_id())) {
    return false;
  }
  duration_ = frame.duration();''','''                         frame.additional_length() > 0 ? 1 : frame.add_id())) {
    return false;
  }
  duration_ = frame.duration();''')],
 'a frame with block-addition data and an addition id other than 1 that is copied before it is written (queued audio, or frames held back for accurate cluster durations)',
 'the addition id of the frame is replaced by 1 in the file',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    EXPECT(s.AddVideoTrack(16, 16, 1));
    EXPECT(s.AddAudioTrack(48000, 2, 2));
    EXPECT(add(s, 1, 0, true, "v0"));
    EXPECT(s.AddFrameWithAdditional((const uint8_t*)"au", 2, (const uint8_t*)"x", 1, 5, 2, 3000000, true));
    EXPECT(add(s, 1, 10, false, "v1"));
    EXPECT(s.Finalize());
  }
  EXPECT(w.b.find(std::string("\\xee\\x81\\x05", 3)) != std::string::npos);
  return 0;
}
''')
seed('b02-cue-block-two','C03',[(MX,'''  if (output_block_number_ && block_number_ > 1)
    size += EbmlElementSize(libwebm::kMkvCueBlockNumber,
                            static_cast<uint64>(block_number_));
  const uint64_t track_pos_size =
      EbmlMasterElementSize(libwebm::kMkvCueTrackPositions, size) + size;
  const uint64_t payload_size =
      EbmlElementSize(libwebm::kMkvCueTime, static_cast<uint64>(time_)) +
      track_pos_size;

  if (!WriteEbml''','''  if (output_block_number_ && block_number_ > 2)
    size += EbmlElementSize(libwebm::kMkvCueBlockNumber,
                            static_cast<uint64>(block_number_));
  const uint64_t track_pos_size =
      EbmlMasterElementSize(libwebm::kMkvCueTrackPositions, size) + size;
  const uint64_t payload_size =
      EbmlElementSize(libwebm::kMkvCueTime, static_cast<uint64>(time_)) +
      track_pos_size;

  if (!WriteEbml'''),(MX,'''  if (output_block_number_ && block_number_ > 1) {
    if (!WriteEbmlElement(''','''  if (output_block_number_ && block_number_ > 2) {
    if (!WriteEbmlElement('''),(MX,'''  if (output_block_number_ && block_number_ > 1)
    size += EbmlElementSize(libwebm::kMkvCueBlockNumber,
                            static_cast<uint64>(block_number_));
  const uint64_t track_pos_size =
      EbmlMasterElementSize(libwebm::kMkvCueTrackPositions, size) + size;
  const uint64_t payload_size =
      EbmlElementSize(libwebm::kMkvCueTime, static_cast<uint64>(time_)) +
      track_pos_size;

  return''','''  if (output_block_number_ && block_number_ > 2)
    size += EbmlElementSize(libwebm::kMkvCueBlockNumber,
                            static_cast<uint64>(block_number_));
  const uint64_t track_pos_size =
      EbmlMasterElementSize(libwebm::kMkvCueTrackPositions, size) + size;
  const uint64_t payload_size =
      EbmlElementSize(libwebm::kMkvCueTime, static_cast<uint64>(time_)) +
      track_pos_size;

  return''')],
 'a cue point for the second block of its cluster, as when a queued audio frame comes before the keyframe',
 'the cue point names the first block (another track) instead of the second',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    EXPECT(s.AddVideoTrack(16, 16, 1));
    EXPECT(s.AddAudioTrack(48000, 2, 2));
    EXPECT(s.CuesTrack(1));
    EXPECT(add(s, 2, 0, true, "a0"));
    EXPECT(add(s, 1, 5, true, "v0"));
    EXPECT(add(s, 1, 15, false, "v1"));
    EXPECT(s.Finalize());
  }
  Doc d(w.b);
  EXPECT(d.ok);
  const mkvparser::Cues* c = d.s->GetCues();
  EXPECT(c);
  while (!c->DoneParsing()) c->LoadCuePoint();
  const mkvparser::CuePoint* p = c->GetFirst();
  EXPECT(p);
  const mkvparser::Track* t = d.s->GetTracks()->GetTrackByNumber(1);
  const mkvparser::BlockEntry* e = c->GetBlock(p, p->Find(t));
  EXPECT(e && e->GetBlock()->GetTrackNumber() == 1);
  EXPECT(p->Find(t)->m_block == 2);
  return 0;
}
''')
seed('b03-duration-reposition','C04',[(MX,'''      if (writer->Position(duration_pos_))
        return false;

      if (!WriteEbmlElement(writer, libwebm::kMkvDuration,''','''      if (writer->Position(duration_pos_))
        return true;

      if (!WriteEbmlElement(writer, libwebm::kMkvDuration,''')],
 'the reposition to the duration field fails during finalisation',
 'Finalize reports success although the duration could not be updated',
'''#include "d.h"
int main() {
  for (long at = 0;; ++at) {
    MemW w;
    w.fail_at = at;
    mkvmuxer::Segment s;
    bool ok = s.Init(&w);
    ok = s.AddVideoTrack(16, 16, 1) && ok;
    ok = add(s, 1, 0, true, "v0") && ok;
    ok = add(s, 1, 10, false, "v1") && ok;
    ok = s.Finalize() && ok;
    if (!w.failed) { EXPECT(ok); break; }
    EXPECT(!ok);
  }
  return 0;
}
''')
seed('b04-cluster-duration-limit','C05',[(MX,'''  const uint64_t delta_ns = delta_timecode * timecode_scale;

  if (max_cluster_duration_ > 0 && delta_ns >= max_cluster_duration_)''','''  const uint32_t delta_ns = delta_timecode * timecode_scale;

  if (max_cluster_duration_ > 0 && delta_ns >= max_cluster_duration_)''')],
 'a maximum cluster duration of several seconds (more than 2^32 ns), so that the distance to the cluster start does not fit 32 bits',
 'clusters go on beyond the configured maximum duration',
'''#include "d.h"
int main() {
  MemW w;
  {
    mkvmuxer::Segment s;
    EXPECT(s.Init(&w));
    s.set_max_cluster_duration(5000000000ull);
    EXPECT(s.AddVideoTrack(16, 16, 1));
    EXPECT(add(s, 1, 0, true, "v0"));
    for (int i = 1; i <= 12; ++i) EXPECT(add(s, 1, i * 1000, false, "v1"));
    EXPECT(s.Finalize());
  }
  Doc d(w.b);
  EXPECT(d.ok);
  EXPECT(d.s->GetCount() >= 3);
  return 0;
}
''')
seed('b05-skip-resume','C12',[('webm_parser/src/block_parser.cc','''          *num_bytes_read += local_num_bytes_read;
          header_bytes_read_ += local_num_bytes_read;
        } while (status.code == Status::kOkPartial);
        return status;

      case State::kReadingFrames:''','''          *num_bytes_read += local_num_bytes_read;
          if (status.ok()) {
            header_bytes_read_ = *num_bytes_read;
          }
        } while (status.code == Status::kOkPartial);
        return status;

      case State::kReadingFrames:''')],
 'a block that the callback skips, with the reader stopping for lack of data in the middle of the skipped payload and going on later',
 'after the stop the parser skips too much, so that what follows the block is lost or misread',
'''#include <webm/callback.h>
#include <webm/reader.h>
#include <webm/webm_parser.h>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <string>
using namespace webm;
struct R : Reader {
  std::string b; size_t pos = 0; bool dry = false, slow = false;
  Status Read(std::size_t n, std::uint8_t* o, std::uint64_t* g) override { return go(n, o, g); }
  Status Skip(std::uint64_t n, std::uint64_t* g) override { return go(n, nullptr, g); }
  Status go(uint64_t n, uint8_t* o, uint64_t* g) {
    *g = 0;
    if (slow) { dry = !dry; if (dry) return Status(Status::kWouldBlock); }
    uint64_t m = std::min<uint64_t>(n, b.size() - pos);
    if (slow) m = std::min<uint64_t>(m, 1);
    if (m == 0) return Status(Status::kEndOfFile);
    if (o) memcpy(o, b.data() + pos, m);
    pos += m; *g = m;
    return Status(m == n ? Status::kOkCompleted : Status::kOkPartial);
  }
  std::uint64_t Position() const override { return pos; }
};
struct C : Callback {
  std::string log;
  Status OnSimpleBlockBegin(const ElementMetadata& m, const SimpleBlock& v, Action* a) override {
    log += "block " + std::to_string(v.track_number) + " @" + std::to_string(m.position) + ";";
    *a = v.track_number == 1 ? Action::kSkip : Action::kRead;
    return Status(Status::kOkCompleted);
  }
};
int main() {
  std::string b("\\x1a\\x45\\xdf\\xa3\\x80\\x18\\x53\\x80\\x67\\xff\\x1f\\x43\\xb6\\x75\\xff\\xe7\\x81\\x00", 18);
  b += std::string("\\xa3\\x8c\\x81\\x00\\x00\\x80", 6) + "payload1";
  b += std::string("\\xa3\\x8c\\x82\\x00\\x00\\x80", 6) + "payload2";
  std::string logs[2];
  for (int i = 0; i < 2; ++i) {
    R r; r.b = b; r.slow = i;
    C c; WebmParser p;
    Status s;
    int guard = 0;
    do { s = p.Feed(&c, &r); } while ((s.code == Status::kWouldBlock || s.code == Status::kOkPartial) && ++guard < 100000);
    logs[i] = c.log + std::to_string(s.code);
  }
  if (logs[0] != logs[1]) { fprintf(stderr, "whole: %s\\nslow: %s\\n", logs[0].c_str(), logs[1].c_str()); return 1; }
  return logs[0].find("block 2") == std::string::npos ? 2 : 0;
}
''')
seed('b06-seek-keeps-error','C16',[('webm_parser/src/webm_parser.cc','''  parser_->DidSeek();
  parsing_status_ = Status(Status::kOkPartial);''','''  parser_->DidSeek();
  if (!parsing_status_.is_parsing_error())
    parsing_status_ = Status(Status::kOkPartial);''')],
 'the parser has met a parsing error before the application seeks away from the damaged place',
 'parsing never continues after the seek: the old error is returned for ever',
'''#include <webm/buffer_reader.h>
#include <webm/callback.h>
#include <webm/webm_parser.h>
using namespace webm;
struct C : Callback {
  int clusters = 0;
  Status OnClusterBegin(const ElementMetadata&, const Cluster&, Action* a) override { ++clusters; *a = Action::kRead; return Status(Status::kOkCompleted); }
};
int main() {
  C c;
  WebmParser p;
  BufferReader bad({0x1a, 0x45, 0xdf, 0xa3, 0x80, 0x18, 0x53, 0x80, 0x67, 0xff, 0x00, 0x00, 0x00});
  Status s = p.Feed(&c, &bad);
  if (!s.is_parsing_error()) return 2;
  BufferReader good({0x1f, 0x43, 0xb6, 0x75, 0x83, 0xe7, 0x81, 0x05});
  p.DidSeek();
  s = p.Feed(&c, &good);
  return s.completed_ok() && c.clusters == 1 ? 0 : 1;
}
''')
