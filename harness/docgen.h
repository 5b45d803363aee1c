// Document space: a handful of seed documents covering every element, and all documents within k edits of them.
#ifndef VERIF_DOCGEN_H_
#define VERIF_DOCGEN_H_
#include "ebml.h"
namespace dg {
using eb::Bytes;
using eb::El;
typedef std::vector<El> Doc;           // document-level elements
enum Seed { AV, TRACK, META, LACES, LIVE, CHAIN, TINY, FRONT, BACK, NSEEDS };
Doc seed(int s);
const char* seed_name(int s);
Bytes enc(const Doc& d);

struct EditCfg {
  bool unknown_any = false;   // unknown size on any master, not only segment and cluster
  bool foreign = true;        // elements not in the specification
  bool structure = true;      // delete / duplicate / swap
  bool values = true;         // alternative leaf contents
  bool sizes = true;
  bool zero = true;           // zero-length leaves
};
int node_count(const Doc& d);
// Number of edits available at node i (preorder); apply edit e.  Returns a description.
int edit_count(const Doc& d, int node, const EditCfg& c);
std::string apply(Doc& d, int node, int e, const EditCfg& c);
// Picks a seed among `seeds` and up to `edits` edits.  Empty: the case is another shard's.
Doc pick(mc::Chooser& c, const std::vector<int>& seeds, int edits, const EditCfg& cfg, std::string* desc);
// One laced or plain block, enumerated.
Bytes pick_block(mc::Chooser& c, bool simple, bool wide, std::string* desc);
// One laced block whose lace sizes are coded in any length, or with many laces; may be invalid.
Bytes pick_laces(mc::Chooser& c, bool wide, std::string* desc);
// Documents with many elements of one kind, around the sizes at which tables grow.
Doc pick_many(mc::Chooser& c, bool wide, std::string* desc);
}  // namespace dg
#endif
