// Small video files with real frame headers.
#ifndef VERIF_VIDGEN_H_
#define VERIF_VIDGEN_H_
#include "docgen.h"
namespace vg {
using namespace eb;
struct Bits { Bytes o; int n = 0; void put(unsigned v, int k) { for (int i = k - 1; i >= 0; --i) { if (n % 8 == 0) o += '\0'; if (v >> i & 1) o.back() = (char)(o.back() | 0x80 >> n % 8); ++n; } } };
// VP9: k key, a alternate reference (not shown), p plain, e error resilient, d key with another display size, s key in sRGB profile 1, w wide key (tiles)
inline Bytes vp9_frame(char k) {
  Bits b;
  int prof = k == 's' ? 1 : 0;
  b.put(2, 2);
  b.put(prof & 1, 1);
  b.put(prof >> 1, 1);
  b.put(0, 1);
  bool key = k == 'k' || k == 'd' || k == 's' || k == 'w';
  bool shown = k != 'a', err = k == 'e';
  b.put(!key, 1);
  b.put(shown, 1);
  b.put(err, 1);
  if (key) {
    b.put(0x498342, 24);
    b.put(k == 's' ? 7 : 2, 3);
    if (k == 's') b.put(0, 1);
    else b.put(0, 1);
    int w = k == 'w' ? 2048 : 64, h = 48;
    b.put(w - 1, 16);
    b.put(h - 1, 16);
    b.put(k == 'd', 1);
    if (k == 'd') { b.put(99, 16); b.put(49, 16); }
  } else {
    if (!shown) b.put(0, 1);                 // intra only
    if (!err) b.put(0, 2);                   // reset context
    b.put(k == 'a' ? 4 : 1, 8);              // refresh
    for (int i = 0; i < 3; ++i) { b.put(i, 3); b.put(0, 1); }
    b.put(1, 1);                             // size from the first reference
    b.put(0, 1);                             // display size the same
    b.put(0, 1);                             // high precision vectors
    b.put(1, 1);                             // switchable filter
  }
  if (!err) { b.put(1, 1); b.put(k == 'p', 1); }
  b.put(0, 2);                               // context
  b.put(0, 6); b.put(0, 3); b.put(0, 1);     // loop filter
  b.put(60, 8); b.put(0, 3);                 // quantizer
  b.put(0, 1);                               // segmentation
  b.put(k == 'w' ? 2 : 0, k == 'w' ? 2 : 1); // tile columns
  b.put(0, 1);                               // tile rows
  b.put(20, 16);
  b.put(0, 40);
  return b.o;
}
inline Bytes superframe(const std::vector<Bytes>& f, int mag) {
  Bytes o;
  for (auto& x : f) o += x;
  char mk = (char)(0xc0 | (mag - 1) << 3 | (f.size() - 1));
  o += mk;
  for (auto& x : f) for (int i = 0; i < mag; ++i) o += (char)(x.size() >> (8 * i));
  return o + mk;
}
inline El block(int rel, int flags, int lacing, const std::vector<Bytes>& fr) { return es(SimpleBlock, enc_block(1, rel, flags, lacing, fr)); }
inline dg::Doc video(const char* codec, bool encrypted, const std::vector<El>& blocks, double dur = 5000, const Bytes& priv = "") {
  El t(TrackEntry, {eu(TrackNumber, 1), eu(TrackUID, 1), eu(TrackType, 1), es(CodecID, codec)});
  if (!priv.empty()) t.add(es(CodecPrivate, priv));
  t.add(El(Video, {eu(PixelWidth, 64), eu(PixelHeight, 48)}));
  if (encrypted)
    t.add(El(ContentEncodings, {El(ContentEncoding, {eu(ContentEncodingOrder, 0), eu(ContentEncodingScope, 1), eu(ContentEncodingType, 1),
                                                     El(ContentEncryption, {eu(ContentEncAlgo, 5), es(ContentEncKeyID, Bytes("k\1\xff", 3)), El(ContentEncAESSettings, {eu(AESSettingsCipherMode, 1)})})})}));
  El cl(Cluster, {eu(Timecode, 0)});
  for (auto& b : blocks) cl.add(b);
  return {El(EBML, {es(DocType, "webm")}), El(Segment, {El(Info, {eu(TimecodeScale, 1000000), ef(Duration, dur, 8)}), El(Tracks, {t}), cl})};
}
}  // namespace vg
#endif
