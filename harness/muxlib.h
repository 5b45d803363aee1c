// Muxer histories: configuration + operation list, runner on the real muxer, reference view of the output.
#ifndef VERIF_MUXLIB_H_
#define VERIF_MUXLIB_H_
#include <memory>
#include "ebml.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxertypes.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvparser.h"

namespace mx {
using eb::Bytes;

struct WOp { char kind; int64_t pos; uint64_t len; };  // w write, s set position, n notify

// In-memory output.  fault_at: index of the operation (Write / set Position) that fails.
class MemWriter : public mkvmuxer::IMkvWriter {
 public:
  Bytes buf;
  int64_t pos = 0;
  bool seekable = true;
  long long ops = 0;
  long long fault_at = -1;
  bool persistent = false;
  int fault_code = -1;
  bool partial = false;       // the failing write stores half of its bytes
  bool faulted = false;
  std::string defect;         // contract breach by the muxer
  bool pending_notify = false;
  uint64_t notify_id = 0;

  MemWriter() { buf.reserve(4096); }
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 len) override {
    if (pending_notify) {
      pending_notify = false;
      Bytes id = eb::enc_id((uint32_t)notify_id);
      if (!(len >= 1 && static_cast<const char*>(b)[0] == id[0]) && defect.empty())
        defect = mc::strf("element %llx announced but something else written at %lld", (unsigned long long)notify_id, (long long)pos);
    }
    long long k = ops++;
    if (fault_at >= 0 && (k == fault_at || (persistent && k > fault_at))) {
      faulted = true;
      if (partial) put(b, len / 2);
      return fault_code;
    }
    put(b, len);
    return 0;
  }
  mkvmuxer::int64 Position() const override { return pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override {
    long long k = ops++;
    if (fault_at >= 0 && (k == fault_at || (persistent && k > fault_at))) { faulted = true; return fault_code; }
    if (!seekable) {
      if (defect.empty()) defect = mc::strf("repositioned a non-seekable output to %lld", (long long)p);
      return -1;
    }
    if (p < 0 || (size_t)p > buf.size()) {
      if (defect.empty()) defect = mc::strf("repositioned the output to %lld outside [0,%zu]", (long long)p, buf.size());
      return -1;
    }
    pos = p;
    return 0;
  }
  bool Seekable() const override { return seekable; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) override {
    if (p != pos && defect.empty())
      defect = mc::strf("element %llx announced at %lld but output is at %lld", (unsigned long long)id, (long long)p, (long long)pos);
    pending_notify = true;
    notify_id = id;
  }
 private:
  void put(const void* b, size_t len) {
    if ((size_t)pos + len > buf.size()) buf.resize(pos + len);
    memcpy(&buf[pos], b, len);
    pos += len;
  }
};

class MemReader : public mkvparser::IMkvReader {
 public:
  const Bytes& b;
  explicit MemReader(const Bytes& x) : b(x) {}
  int Read(long long pos, long len, unsigned char* out) override {
    if (pos < 0 || len < 0 || pos > (long long)b.size() || len > (long long)b.size() - pos) return -1;
    memcpy(out, b.data() + pos, len);
    return 0;
  }
  int Length(long long* total, long long* avail) override {
    if (total) *total = b.size();
    if (avail) *avail = b.size();
    return 0;
  }
};

enum TrackKind { TV, TA, TS };
struct TrackDef { TrackKind kind; int number; int req; };  // req: number passed to the API (0 = automatic)

struct Cfg {
  bool live = false, seekable = true, accurate = false, fixed = false, estimate = false, cues = true;
  int cues_track = 0;          // index into tracks +1, 0 = automatic
  uint64_t scale = 1000000;
  uint64_t max_dur = 30000000000ull, max_size = 0;  // documented default: 30 s, no size limit
  double set_duration = -1;
  int chapters = 0, tags = 0;
  bool codec_delay = false;
  bool block_numbers = true;
  std::vector<TrackDef> tracks;
  std::string str() const;
};

enum Kind { PLAIN, ADD1, ADD4, DISCARD, NEGDISCARD, DUR, SHORTDUR, ALLOPT, REF, NKINDS };
struct Op {
  enum T { FRAME, FORCE, CUE, BAD } t = FRAME;
  int track = 0;     // index
  uint64_t ts = 0;
  bool key = false;
  Kind kind = PLAIN;
  int len = 3;
  int alen = 0;       // bytes of block addition (0: as the kind says)
  int bad = 0;
  std::string str() const;
};
struct Case { Cfg cfg; std::vector<Op> ops; std::string str() const; };

struct FrameRec {
  uint64_t track, ts;
  bool key;
  Bytes payload;
  bool has_add = false;
  Bytes add;
  uint64_t add_id = 0;
  int64_t discard = 0;
  uint64_t dur = 0;
  bool forced = false;    // a new cluster was requested just before
  int op = 0;
};

struct Result {
  bool init_ok = false, all_ok = true, fin_ok = false;
  int first_fail_op = -1;           // index of the first FRAME/CUE op that reported failure
  bool any_fail_after_fault = false;
  std::vector<bool> rc;
  int bad_calls = 0;                // invalid calls actually made
  std::vector<FrameRec> accepted;   // frames for which the call reported success, in call order
  std::vector<std::pair<uint64_t, uint64_t>> user_cues;
};

const int NBAD = 24;
struct Hooks {
  std::function<void(mkvmuxer::Segment&)> before_header;
  std::function<void(mkvmuxer::Segment&, MemWriter&)> after_finalize;
};
// Runs the case on the real muxer, writing to w.  stop_on_fail: stop at the first reported failure.
// go: 0 continue with later calls after a failure, 1 go straight to Finalize, 2 destroy at once, 3 retry the failed call, then continue.
void run(const Case& c, MemWriter& w, Result* r, int go = 0, Hooks* h = nullptr);
FrameRec make_frame(const Case& c, const Op& o, int idx);

// Reference view.
struct OBlock {
  uint64_t track; uint64_t tc; bool key; Bytes payload; bool group;
  bool has_add = false; Bytes add; uint64_t add_id = 1; bool has_discard = false; int64_t discard = 0;
  bool has_dur = false; uint64_t dur = 0; int cluster = 0; int index = 0; int64_t rel = 0;
  uint64_t pos = 0, end = 0;
};
struct OCluster { uint64_t tc, pos, body, end; bool unknown; std::vector<OBlock> blocks; };
struct View {
  eb::Node root;
  const eb::Node* seg = nullptr;
  std::vector<OCluster> clusters;
};
// "" or description of what is wrong with the structure.
std::string view(const Bytes& b, View* v);

struct Profile {
  int len;            // number of frames
  bool free_ops;      // every combination of track/key and time step
  int budget;         // deviations (configuration, options, extra calls) allowed
  bool bad_ops = false;
  bool disorder = false;  // audio times may run backwards within the queue
  bool wide = false;  // thorough alphabet
  int period = 0;     // > 0: a pattern of up to so many frames repeated many times (capacity growth, long files)
  int sizes = 0;      // frame sizes around every boundary of the size encoding (2: the boundary at 2 MB; 3, 4: the same for block additions)
};
Case gen(mc::Chooser& c, const Profile& p);

void check_frames(const Case& c, const Result& r, const View& v);     // C01
void check_structure(const Case& c, const MemWriter& w, const View& v);  // C02
void check_index(const Case& c, const Result& r, const View& v, bool cues_first = false);      // C03
void check_clusters(const Case& c, const Result& r, const View& v);   // C05
void check_info(const Case& c, const Result& r, const View& v);       // C08
}  // namespace mx
#endif
