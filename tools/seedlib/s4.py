import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MX='mkvmuxer/mkvmuxer.cc'; VH='common/vp9_header_parser.cc'; WV='webvtt/webvttparser.cc'
seed('b23-flags-of-an-older-frame','C25',[(VH,'''  subsampling_y_ = 0;
  refresh_frame_flags_ = 0;
  return true;''','''  subsampling_y_ = 0;
  return true;''')],
 'an inter frame, a key frame, then a frame that only shows an existing one, then an inter frame that refreshes other slots',
 'the slots refreshed before the key frame are counted again',
'''#include "d.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
struct Bits { std::string b; int n = 0; void put(unsigned v, int k) { while (k--) { if (n % 8 == 0) b += '\\0'; if (v >> k & 1) b[n / 8] |= 0x80 >> n % 8; ++n; } } };
static std::string inter(int refresh) { Bits x; x.put(2, 2); x.put(0, 2); x.put(0, 1); x.put(1, 1); x.put(1, 1); x.put(0, 1); x.put(0, 2); x.put(refresh, 8); x.put(0, 12); x.put(1, 1); x.put(0, 60); return x.b; }
int main() {
  vp9_parser::Vp9HeaderParser p;
  vp9_parser::Vp9LevelStats st;
  int64_t t = 0;
  auto feed = [&](const std::string& f) { EXPECT(p.ParseUncompressedHeader((const uint8_t*)f.data(), f.size())); st.AddFrame(p, t += 33000000); };
  std::string key = std::string() + "\\x82\\x49\\x83\\x42" + std::string("\\x20\\x03\\xf0\\x03\\xf0\\x00\\x00\\x00\\x00\\x00\\x00\\x00", 12);
  feed(key);
  feed(inter(0x03));
  EXPECT(st.GetMaxReferenceFrames() == 2);
  feed(key);
  Bits x; x.put(2, 2); x.put(0, 2); x.put(1, 1); x.put(1, 3);
  feed(x.b);
  feed(inter(0x30));
  EXPECT(st.GetMaxReferenceFrames() == 2);
}
''',' common/vp9_level_stats.cc common/vp9_header_parser.cc')
seed('b24-addition-beyond-64k','C01',[(MX,'memcpy(additional_, additional, static_cast<size_t>(additional_length_));','memcpy(additional_, additional, static_cast<uint16_t>(additional_length_));')],
 'a block addition of more than 65535 bytes',
 'only the first (size modulo 65536) bytes of the addition reach the file',
'''#include "d.h"
int main() {
  MemW w;
  mkvmuxer::Segment s;
  EXPECT(s.Init(&w));
  EXPECT(s.AddVideoTrack(320, 240, 1) == 1);
  std::string a(70001, 'q');
  for (size_t i = 0; i < a.size(); ++i) a[i] = (char)(i * 7 + i / 256 + 3);
  EXPECT(s.AddFrameWithAdditional((const uint8_t*)"abc", 3, (const uint8_t*)a.data(), a.size(), 1, 1, 0, true));
  EXPECT(s.Finalize());
  EXPECT(w.b.find(a) != std::string::npos);
}
''')
seed('b25-byte-put-back-negative','C20',[(WV,'unget_ = static_cast<unsigned char>(c); }','unget_ = c; }')],
 'a line ended by a lone CR and followed by a line that starts with a byte above 0x7f',
 'the first byte of that line is lost',
'''#include "d.h"
#include "webvtt/webvttparser.h"
struct R : libwebvtt::Reader { std::string s; size_t i = 0; int GetChar(char* c) override { if (i >= s.size()) return 1; *c = s[i++]; return 0; } };
int main() {
  R r;
  r.s = "WEBVTT\\r\\r00:01.000 --> 00:02.000\\r\\xc3\\xa9t\\xc3\\xa9\\r";
  libwebvtt::Parser p(&r);
  EXPECT(p.Init() == 0);
  libwebvtt::Cue c;
  EXPECT(p.Parse(&c) == 0);
  EXPECT(c.payload.size() == 1);
  EXPECT(c.payload.front() == "\\xc3\\xa9t\\xc3\\xa9");
}
''',' webvtt/webvttparser.cc')
