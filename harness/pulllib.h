// Pull parser (mkvparser): memory reader with growing availability, walker that logs everything, reference log.
#ifndef VERIF_PULLLIB_H_
#define VERIF_PULLLIB_H_
#include <functional>
#include "ebml.h"
#include "mkvparser/mkvparser.h"
namespace pl {
using eb::Bytes;
class MemReader : public mkvparser::IMkvReader {
 public:
  Bytes b;
  long long avail;             // bytes available now
  bool total_known = true;
  long long reads = 0;
  long long fail_at = -1;      // index of the read that fails
  long long fail_pos = -1;     // where it was
  std::string breach;          // requests no reader can serve
  bool strict_avail = false;   // a request for bytes not yet available is a breach
  explicit MemReader(Bytes d) : b(std::move(d)), avail((long long)b.size()) {}
  int Read(long long pos, long len, unsigned char* buf) override;
  int Length(long long* total, long long* available) override;
};
enum Mode { LOAD, INC, NEXT, NMODES };
struct Out {
  std::string log;       // everything reported
  long status = 0;       // 0, or the first error
  std::string where;     // call that failed
  std::string breach;
  long long grows = 0;
  bool cue_stop = false; // LoadCuePoint found no further cue point, or failed
};
// Opens and reads everything.  grow: called when the parser asks for more; false if there is nothing more.
struct Grow {
  std::function<bool()> f;
  int limit = 1 << 20;
  std::vector<long long> preload;   // cluster offsets asked for before clusters are loaded
  int preparse = 0;                 // 1: walk their blocks, 2: and go on to the clusters after them
};
Out walk(MemReader& r, Mode m, const Grow& g, bool query = false);
// What the specification says bytes mean, in the same form.  "" in *why if the document is within the supported range.
std::string expect(const eb::Node& root, const Bytes& b, std::string* why);
std::string diff(const std::string& want, const std::string& got);
}  // namespace pl
#endif
