// Push parser (webm_parser): logging callback, scripted reader and a reference event predictor.
#ifndef VERIF_WPREF_H_
#define VERIF_WPREF_H_
#include <functional>
#include <set>
#include "ebml.h"
#include "webm/callback.h"
#include "webm/reader.h"
#include "webm/webm_parser.h"

namespace wp {
using eb::Bytes;
const uint64_t UNK = ~0ull;

// Decisions of the application, shared by the real run and the prediction.
struct Policy {
  std::set<int> skip;        // ordinals of the action-bearing notifications answered with "skip"
  bool skip_all_of(int ord) const { return skip.count(ord) != 0; }
};

// ---------------------------------------------------------------- reader
// Answers to the n-th Read/Skip call.
struct Answer {
  enum K { FULL, PART, BLOCK, ERR } k = FULL;
  uint64_t n = 0;     // PART: bytes delivered
  int code = 0;       // ERR
};
class ScriptReader : public webm::Reader {
 public:
  Bytes b;
  uint64_t pos = 0;
  std::function<Answer(long long call, uint64_t want)> script;
  long long calls = 0;
  int last = 0;               // last status returned
  uint64_t max_pos = UNK;     // declared end: requests beyond it are a breach
  bool probing_end = false;
  std::string breach;
  explicit ScriptReader(Bytes d) : b(std::move(d)) {}
  webm::Status Read(std::size_t n, std::uint8_t* buf, std::uint64_t* got) override { return go(n, buf, got); }
  webm::Status Skip(std::uint64_t n, std::uint64_t* got) override { return go(n, nullptr, got); }
  std::uint64_t Position() const override { return pos; }
 private:
  webm::Status ret(int c) { last = c; return webm::Status(c); }
  webm::Status go(uint64_t n, uint8_t* buf, uint64_t* got);
};

// ---------------------------------------------------------------- callback
class LogCb : public webm::Callback {
 public:
  std::string log;            // completed notifications, one per line
  int events = 0;             // notifications completed
  int actions = 0;            // action-bearing notifications completed
  const Policy* pol = nullptr;
  // Pauses: for event index e answer status code once (or `times` times) before completing it.
  std::map<int, int> pause;   // event -> times left
  int pause_code = webm::Status::kWouldBlock;
  std::string pending;        // arguments of the paused notification
  int pauses = 0;
  uint64_t chunk = 0;         // bytes per read of frame data; 0 = all at once
  int chunk_code = 0;         // not 0: returned after each chunk while data remains
  std::string breach;
  std::vector<int> action_event;  // event index of each action-bearing notification

  webm::Status OnElementBegin(const webm::ElementMetadata& m, webm::Action* a) override;
  webm::Status OnUnknownElement(const webm::ElementMetadata& m, webm::Reader* r, std::uint64_t* n) override;
  webm::Status OnEbml(const webm::ElementMetadata& m, const webm::Ebml& v) override;
  webm::Status OnVoid(const webm::ElementMetadata& m, webm::Reader* r, std::uint64_t* n) override;
  webm::Status OnSegmentBegin(const webm::ElementMetadata& m, webm::Action* a) override;
  webm::Status OnSeek(const webm::ElementMetadata& m, const webm::Seek& v) override;
  webm::Status OnInfo(const webm::ElementMetadata& m, const webm::Info& v) override;
  webm::Status OnClusterBegin(const webm::ElementMetadata& m, const webm::Cluster& v, webm::Action* a) override;
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata& m, const webm::SimpleBlock& v, webm::Action* a) override;
  webm::Status OnSimpleBlockEnd(const webm::ElementMetadata& m, const webm::SimpleBlock& v) override;
  webm::Status OnBlockGroupBegin(const webm::ElementMetadata& m, webm::Action* a) override;
  webm::Status OnBlockBegin(const webm::ElementMetadata& m, const webm::Block& v, webm::Action* a) override;
  webm::Status OnBlockEnd(const webm::ElementMetadata& m, const webm::Block& v) override;
  webm::Status OnBlockGroupEnd(const webm::ElementMetadata& m, const webm::BlockGroup& v) override;
  webm::Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r, std::uint64_t* n) override;
  webm::Status OnClusterEnd(const webm::ElementMetadata& m, const webm::Cluster& v) override;
  webm::Status OnTrackEntry(const webm::ElementMetadata& m, const webm::TrackEntry& v) override;
  webm::Status OnCuePoint(const webm::ElementMetadata& m, const webm::CuePoint& v) override;
  webm::Status OnEditionEntry(const webm::ElementMetadata& m, const webm::EditionEntry& v) override;
  webm::Status OnTag(const webm::ElementMetadata& m, const webm::Tag& v) override;
  webm::Status OnSegmentEnd(const webm::ElementMetadata& m) override;

 private:
  Bytes data_;                // of the notification whose data is being read
  std::string cur_;
  int cur_event_ = -1;
  webm::Status finish(std::string line, webm::Action* a);
  webm::Status body(std::string line, webm::Reader* r, std::uint64_t* n);
};

// ---------------------------------------------------------------- reference
struct Pred {
  std::string log;
  int events = 0, actions = 0;
  int status = 0;
  std::vector<int> action_event;
  struct Elem { uint64_t pos; uint32_t id; int event; };
  std::vector<Elem> elems;    // every element begun (not skipped over), with its event index
};
// What a conforming push parser reports for bytes b.  seek: position of the element to start at after a seek (or UNK).
Pred predict(const Bytes& b, const Policy& pol, uint64_t seek = UNK);

// Feeds until completion, an error, or `max_feeds`; blocks are resumed.
struct RunOut { int status = 0; int feeds = 0; };
RunOut feed_all(webm::WebmParser& p, LogCb& cb, webm::Reader& r, int max_feeds = 100000);
std::string diff(const std::string& want, const std::string& got);
bool parsing_error(int c);
bool known_id(uint32_t id);   // an element the push parser knows, other than Void
}  // namespace wp
#endif
