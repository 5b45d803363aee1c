// C19: EBML primitives of the muxer and both readers against specification arithmetic.
#include <cmath>
#include "muxlib.h"
#include "wpref.h"
using mc::R;
using mc::strf;
using eb::Bytes;
typedef unsigned long long ull;
using mx::MemWriter;

namespace {
// Stream of which only the first `avail` bytes have arrived.
class Mem : public mkvparser::IMkvReader {
 public:
  Bytes b;
  long long avail;
  int over = 1;   // answer to a read beyond what has arrived: 1 = not yet there, negative = error
  explicit Mem(Bytes d) : b(std::move(d)), avail(b.size()) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0) FAIL("negative read %lld+%ld", pos, len);
    if (pos + len > avail) return over;
    memcpy(buf, b.data() + pos, len);
    return 0;
  }
  int Length(long long* t, long long* a) override { if (t) *t = b.size(); if (a) *a = avail; return 0; }
};

// Structured 64-bit values: everything small, and everything near a boundary of any encoding.
const std::vector<uint64_t>& values() {
  static std::vector<uint64_t> v;
  if (v.empty()) {
    for (int k = 0; k < 64; ++k)
      for (int d = -3; d <= 3; ++d) v.push_back((1ull << k) + (uint64_t)(int64_t)d);
    static const uint8_t pat[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
    for (int len = 1; len <= 8; ++len)     // top byte, second byte, low byte, filler
      for (uint8_t a : pat) for (uint8_t b : pat) for (uint8_t z : pat) for (uint8_t f : pat) {
        uint64_t x = 0;
        for (int i = 0; i < len; ++i) x = x << 8 | (i == 0 ? a : i == 1 ? b : i == len - 1 ? z : f);
        v.push_back(x);
      }
    for (int i = -4; i <= 4; ++i) v.push_back((uint64_t)(int64_t)i);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
  }
  return v;
}
const uint32_t IDS[] = {0xA3, 0x4286, 0x2AD7B1, 0x1F43B675};
int min_uint(uint64_t v) { int n = 1; while (n < 8 && v >> (8 * n)) ++n; return n; }
int min_int(int64_t v) {
  for (int n = 1; n < 8; ++n) { int64_t lim = 1ll << (8 * n - 1); if (v >= -lim && v < lim) return n; }
  return 8;
}
int min_vint(uint64_t v) {  // 0 = none
  for (int n = 1; n <= 8; ++n) if (v < (1ull << (7 * n)) - 1) return n;
  return 0;
}
Bytes head(uint32_t id, uint64_t n) { return eb::enc_id(id) + eb::enc_size(n); }

void expect(const char* what, ull v, bool ok, const Bytes& got, const Bytes& want, ull announced) {
  if (!ok) FAIL("%s refused %llu (0x%llx)", what, v, v);
  if (got != want) FAIL("%s(0x%llx) wrote %s instead of %s", what, v, mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
  if (announced != got.size()) FAIL("%s(0x%llx) announced %llu bytes and wrote %zu", what, v, announced, got.size());
}

// Push parser: value of one leaf inside its parents.
struct One : webm::Callback {
  webm::Element<double> dur; webm::Ebml eb; bool have_eb = false;
  webm::Element<std::uint64_t> scale; webm::Element<std::int64_t> date; webm::Element<std::int64_t> pad;
  webm::Element<std::string> title;
  Bytes bin; bool have_bin = false;
  webm::Status OnEbml(const webm::ElementMetadata&, const webm::Ebml& e) override { eb = e; have_eb = true; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnInfo(const webm::ElementMetadata&, const webm::Info& i) override {
    dur = i.duration; scale = webm::Element<std::uint64_t>(i.timecode_scale.value(), i.timecode_scale.is_present());
    date = i.date_utc; title = i.title;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockGroupEnd(const webm::ElementMetadata&, const webm::BlockGroup& g) override { pad = g.discard_padding; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnSeek(const webm::ElementMetadata&, const webm::Seek&) override { return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnTag(const webm::ElementMetadata&, const webm::Tag& t) override {
    for (auto& s : t.tags) if (s.value().binary.is_present()) { auto& v = s.value().binary.value(); bin.assign(v.begin(), v.end()); have_bin = true; }
    return webm::Status(webm::Status::kOkCompleted);
  }
};
int push(const Bytes& doc, One* cb) {
  wp::ScriptReader r(doc);
  webm::WebmParser p;
  webm::Status s = p.Feed(cb, &r);
  return s.code;
}
Bytes in(uint32_t master, const Bytes& body) { return head(master, body.size()) + body; }
Bytes info(const Bytes& leaf) { return in(eb::Segment, in(eb::Info, leaf)); }
Bytes group(const Bytes& leaf) { return in(eb::Segment, in(eb::Cluster, in(eb::BlockGroup, leaf))); }

void check_uint(uint64_t v, bool readers) {
  mc::tick();
  CHECK(mkvmuxer::GetUIntSize(v) == min_uint(v), "GetUIntSize(0x%llx) = %d", (ull)v, mkvmuxer::GetUIntSize(v));
  int n = min_vint(v);
  if (n) CHECK(mkvmuxer::GetCodedUIntSize(v) == n, "GetCodedUIntSize(0x%llx) = %d", (ull)v, mkvmuxer::GetCodedUIntSize(v));
  { // coded size, shortest
    MemWriter w;
    int st = mkvmuxer::WriteUInt(&w, v);
    if (n) expect("WriteUInt", v, st == 0, w.buf, eb::enc_size(v), mkvmuxer::GetCodedUIntSize(v));
    else if (st == 0) FAIL("WriteUInt(0x%llx) reports success for a value that cannot be coded", (ull)v);
  }
  for (int len = 0; len <= 8; ++len) {
    MemWriter w;
    int st = mkvmuxer::WriteUIntSize(&w, v, len);
    bool can = len ? n && n <= len : n != 0;
    if (can) expect("WriteUIntSize", v, st == 0, w.buf, eb::enc_size(v, len), len ? len : n);
    else if (st == 0) FAIL("WriteUIntSize(0x%llx, %d) reports success for a value that cannot be coded", (ull)v, len);
  }
  for (uint32_t id : IDS) {
    { MemWriter w;
      bool ok = mkvmuxer::WriteEbmlElement(&w, id, (mkvmuxer::uint64)v);
      expect("WriteEbmlElement(uint)", v, ok, w.buf, head(id, min_uint(v)) + eb::enc_uint(v, min_uint(v)), mkvmuxer::EbmlElementSize(id, (mkvmuxer::uint64)v)); }
    if (!readers) break;
    for (int fix = 1; fix <= 8; ++fix) {
      MemWriter w;
      bool ok = mkvmuxer::WriteEbmlElement(&w, id, (mkvmuxer::uint64)v, (mkvmuxer::uint64)fix);
      if (fix >= min_uint(v)) expect("WriteEbmlElement(uint, fixed)", v, ok, w.buf, head(id, fix) + eb::enc_uint(v, fix), mkvmuxer::EbmlElementSize(id, (mkvmuxer::uint64)v, (mkvmuxer::uint64)fix));
      else if (ok) FAIL("WriteEbmlElement(0x%llx, fixed %d) reports success", (ull)v, fix);
    }
    if (n) {
      MemWriter w;
      bool ok = mkvmuxer::WriteEbmlMasterElement(&w, id, v);
      expect("WriteEbmlMasterElement", v, ok, w.buf, head(id, v), mkvmuxer::EbmlMasterElementSize(id, v));
      Mem m(w.buf);
      long long pos = 0, gid = -1, size = -1;
      long st = mkvparser::ParseElementHeader(&m, pos, -1, gid, size);
      if (st || gid != id || (ull)size != v || pos != (long long)w.buf.size())
        FAIL("ParseElementHeader read id %llx size %lld at %lld (status %ld) from a header of id %x size %llu", (ull)gid, size, pos, st, id, (ull)v);
    }
  }
  for (int len = min_uint(v); readers && len <= 8; ++len) {  // decoding, with leading zero bytes
    Bytes b = eb::enc_uint(v, len);
    Mem m("\x55" + b + "\xAA");
    long long g = mkvparser::UnserializeUInt(&m, 1, len);
    // the pull parser reports values from 2^63 as negative, that is, as errors
    if (v >> 63 ? g >= 0 : (ull)g != v) FAIL("UnserializeUInt(%s) = %lld", mc::hex(b.data(), len).c_str(), g);
    for (int av = 0; av < len; ++av)
      for (int over : {1, -5}) {
        m.avail = 1 + av; m.over = over;
        g = mkvparser::UnserializeUInt(&m, 1, len);
        if (g >= 0) FAIL("UnserializeUInt returned %lld when only %d of %d bytes could be read", g, av, len);
      }
    One cb;
    int st = push(info(head(eb::TimecodeScale, len) + b), &cb);
    if (st != webm::Status::kOkCompleted || !cb.scale.is_present() || cb.scale.value() != v)
      FAIL("push parser read 0x%llx (status %d) from %s", cb.scale.is_present() ? (ull)cb.scale.value() : 0ull, st, mc::hex(b.data(), len).c_str());
    mc::state();
  }
  mc::state();
}
void check_int(int64_t v, bool readers) {
  mc::tick();
  CHECK(mkvmuxer::GetIntSize(v) == min_int(v), "GetIntSize(%lld) = %d", (long long)v, mkvmuxer::GetIntSize(v));
  for (uint32_t id : IDS) {
    MemWriter w;
    bool ok = mkvmuxer::WriteEbmlElement(&w, id, (mkvmuxer::int64)v);
    expect("WriteEbmlElement(int)", v, ok, w.buf, head(id, min_int(v)) + eb::enc_int(v, min_int(v)), mkvmuxer::EbmlElementSize(id, (mkvmuxer::int64)v));
    MemWriter d;
    ok = mkvmuxer::WriteEbmlDateElement(&d, id, v);
    expect("WriteEbmlDateElement", v, ok, d.buf, head(id, 8) + eb::enc_int(v, 8), mkvmuxer::EbmlDateElementSize(id));
    if (!readers) break;
  }
  for (int len = 0; len <= 9; ++len) {
    MemWriter w;
    int st = mkvmuxer::SerializeInt(&w, v, len);
    if (len >= 1 && len <= 8) { if (st || w.buf != eb::enc_int(v, 8).substr(8 - len)) FAIL("SerializeInt(%lld,%d) wrote %s", (long long)v, len, mc::hex(w.buf.data(), w.buf.size()).c_str()); }
    else if (st == 0) FAIL("SerializeInt(%lld,%d) reports success", (long long)v, len);
    if (!readers) break;
  }
  for (int len = min_int(v); readers && len <= 8; ++len) {
    Bytes b = eb::enc_int(v, len);
    Mem m("\x55" + b + "\xAA");
    long long g = 12345;
    long st = mkvparser::UnserializeInt(&m, 1, len, g);
    if (st || g != v) FAIL("UnserializeInt(%s) = %lld status %ld", mc::hex(b.data(), len).c_str(), g, st);
    for (int av = 0; av < len; ++av)
      for (int over : {1, -5}) {
        m.avail = 1 + av; m.over = over;
        if (mkvparser::UnserializeInt(&m, 1, len, g) == 0) FAIL("UnserializeInt succeeded when only %d of %d bytes could be read", av, len);
      }
    One cb;
    int s = push(group(head(eb::DiscardPadding, len) + b), &cb);
    if (s != webm::Status::kOkCompleted || !cb.pad.is_present() || cb.pad.value() != v) FAIL("push parser read %lld (status %d) from %s", cb.pad.is_present() ? (long long)cb.pad.value() : 0ll, s, mc::hex(b.data(), len).c_str());
    if (len == 8) {
      One c2;
      s = push(info(head(eb::DateUTC, 8) + b), &c2);
      if (s != webm::Status::kOkCompleted || !c2.date.is_present() || c2.date.value() != v) FAIL("push parser read date %lld (status %d) from %s", c2.date.is_present() ? (long long)c2.date.value() : 0ll, s, mc::hex(b.data(), len).c_str());
    }
    mc::state();
  }
  mc::state();
}
bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
void check_float_bits(uint32_t bits) {
  mc::tick();
  float f;
  memcpy(&f, &bits, 4);
  MemWriter w;
  bool ok = mkvmuxer::WriteEbmlElement(&w, 0x4489, f);
  Bytes raw = eb::enc_uint(bits, 4);
  expect("WriteEbmlElement(float)", bits, ok, w.buf, head(0x4489, 4) + raw, mkvmuxer::EbmlElementSize(0x4489, f));
  Mem m("\x55" + raw);
  double d = -7;
  long st = mkvparser::UnserializeFloat(&m, 1, 4, d);
  bool finite = ((bits >> 23) & 0xff) != 0xff;
  if (finite ? (st != 0 || !same_bits(d, (double)f)) : st == 0) FAIL("UnserializeFloat(%08x) = %g status %ld", bits, d, st);
  One cb;
  int s = push(info(w.buf), &cb);
  if (s != webm::Status::kOkCompleted || !cb.dur.is_present() || (f == f ? !same_bits(cb.dur.value(), (double)f) : cb.dur.value() == cb.dur.value()))
    FAIL("push parser read %g (status %d) from %08x", cb.dur.is_present() ? cb.dur.value() : 0, s, bits);
  mc::state();
}
void check_double_bits(uint64_t bits) {
  mc::tick();
  double f;
  memcpy(&f, &bits, 8);
  Bytes raw = eb::enc_uint(bits, 8);
  Mem m("\x55" + raw);
  double d = -7;
  long st = mkvparser::UnserializeFloat(&m, 1, 8, d);
  bool finite = ((bits >> 52) & 0x7ff) != 0x7ff;
  if (finite ? (st != 0 || !same_bits(d, f)) : st == 0) FAIL("UnserializeFloat(%016llx) = %g status %ld", (ull)bits, d, st);
  One cb;
  int s = push(info(head(0x4489, 8) + raw), &cb);
  if (s != webm::Status::kOkCompleted || !cb.dur.is_present() || (f == f ? !same_bits(cb.dur.value(), f) : cb.dur.value() == cb.dur.value()))
    FAIL("push parser read %g (status %d) from %016llx", cb.dur.is_present() ? cb.dur.value() : 0, s, (ull)bits);
  mc::state();
}
}  // namespace

SPACE(C19, special) {   // every structured value, every width, all readers
  int n = (int)values().size();
  int i = c.pick((n + 15) / 16);
  return [=]() {
    R.desc = strf("values %d..", i * 16);
    for (int k = i * 16; k < std::min(n, i * 16 + 16); ++k) {
      if (!mc::sub(k)) continue;
      check_uint(values()[k], true);
      check_int((int64_t)values()[k], true);
      mc::outcome(values()[k]);
    }
  };
}
SPACE(C19, small) {     // every value below 2^22 (quick) / 2^26: writer; below 2^15 / 2^19: readers too
  const int bits = 10;
  int blocks = (R.thorough ? 1 << 26 : 1 << 22) >> bits;
  int i = c.pick(blocks);
  return [=]() {
    R.desc = strf("values %d * %d..", i, 1 << bits);
    bool readers = i < ((R.thorough ? 1 << 19 : 1 << 15) >> bits);
    for (uint64_t v = (uint64_t)i << bits; v < (uint64_t)(i + 1) << bits; ++v) {
      check_uint(v, readers);
      check_int((int64_t)v, false);
      check_int(-(int64_t)v, readers);
    }
    mc::outcome(0x5a110000u + i);
  };
}
SPACE(C19, floats) {    // every sign and exponent with every 7-bit mantissa head, and boundary mantissas
  int i = c.pick(1 << 8);
  return [=]() {
    R.desc = strf("floats %02x......", i);
    for (uint32_t lo = 0; lo < 256; ++lo) {
      static const uint32_t tail[] = {0, 1, 0x7fff, 0x8000, 0xffff};
      for (uint32_t t : tail) check_float_bits((uint32_t)i << 24 | lo << 16 | t);
      if (R.thorough) for (uint32_t t = 2; t < 0xffff; t += 1) if ((t & (t - 1)) == 0 || (t & 0xff) == 0xa5) check_float_bits((uint32_t)i << 24 | lo << 16 | t);
      static const uint64_t t8[] = {0, 1, 0x0000ffffffffffffull, 0x0000800000000000ull, 0x0000123456789abcull};
      for (uint64_t t : t8) check_double_bits((uint64_t)i << 56 | (uint64_t)lo << 48 | t);
    }
    // sizes that no float can have
    for (int n = 1; n <= 9; ++n) {
      if (n == 4 || n == 8) continue;
      Mem m(Bytes(16, (char)i));
      double d;
      if (mkvparser::UnserializeFloat(&m, 1, n, d) == 0) FAIL("UnserializeFloat accepted %d bytes", n);
      One cb;
      int s = push(info(head(0x4489, n) + Bytes(n, (char)i)), &cb);
      if (s >= 0) FAIL("push parser accepted a float of %d bytes (status %d)", n, s);
    }
    for (int n = 4; n <= 8; n += 4)
      for (int av = 0; av < n; ++av) for (int over : {1, -5}) {
        Mem m(Bytes(16, (char)i)); m.avail = 1 + av; m.over = over;
        double d;
        if (mkvparser::UnserializeFloat(&m, 1, n, d) == 0) FAIL("UnserializeFloat succeeded with %d of %d bytes", av, n);
      }
    mc::outcome(0xf10a7000u + i);
  };
}
SPACE(C19, payloads) {  // strings, binaries and padding of every length around each size boundary
  int k = c.pick(R.thorough ? 300 : 160);
  return [=]() {
    std::vector<uint64_t> lens;
    if (k < 140) lens = {(uint64_t)k};
    else if (k < 150) lens = {(uint64_t)k, 16370u + 3 * (k - 140), 16371u + 3 * (k - 140), 16372u + 3 * (k - 140)};
    else if (k < 160) lens = {2097140ull + 2 * (k - 150), 2097141ull + 2 * (k - 150)};
    else lens = {(uint64_t)k};
    for (uint64_t n : lens) {
      R.desc = strf("payload of %llu bytes", (ull)n);
      Bytes s;
      for (uint64_t i = 0; i < n; ++i) s.push_back((char)(1 + i % 255));
      for (uint32_t id : IDS) {
        { MemWriter w;
          bool ok = mkvmuxer::WriteEbmlElement(&w, id, s.c_str());
          expect("WriteEbmlElement(string)", n, ok, w.buf, head(id, n) + s, mkvmuxer::EbmlElementSize(id, s.c_str())); }
        if (n) { MemWriter w;
          bool ok = mkvmuxer::WriteEbmlElement(&w, id, (const mkvmuxer::uint8*)s.data(), n);
          expect("WriteEbmlElement(binary)", n, ok, w.buf, head(id, n) + s, mkvmuxer::EbmlElementSize(id, (const mkvmuxer::uint8*)s.data(), n)); }
        mc::tick(2);
      }
      { Mem m("\x55" + s + "Z");
        char* str = nullptr;
        long st = mkvparser::UnserializeString(&m, 1, n, str);
        if (n <= 20 * 1000 * 1000 && (st || strlen(str) != n || Bytes(str) != s)) FAIL("UnserializeString of %llu bytes: status %ld", (ull)n, st);
        delete[] str;
        if (n) { str = nullptr; m.avail = n; if (mkvparser::UnserializeString(&m, 1, n, str) == 0) FAIL("UnserializeString succeeded with a byte missing"); delete[] str; } }
      { One cb;
        int st = push(info(head(eb::Title, n) + s), &cb);
        if (st != webm::Status::kOkCompleted || !cb.title.is_present() || cb.title.value() != s) FAIL("push parser: string of %llu bytes, status %d", (ull)n, st); }
      { One cb;   // trailing zero bytes pad a string
        int st = push(info(head(eb::Title, n + 2) + s + Bytes(2, '\0')), &cb);
        if (st != webm::Status::kOkCompleted || !cb.title.is_present() || Bytes(cb.title.value().c_str()) != s) FAIL("push parser: padded string of %llu bytes, status %d", (ull)n, st); }
      { One cb;
        int st = push(in(eb::Segment, in(eb::Tags, in(eb::Tag, in(eb::SimpleTag, in(eb::TagBinary, s))))), &cb);
        if (st != webm::Status::kOkCompleted || !cb.have_bin || cb.bin != s) FAIL("push parser: binary of %llu bytes, status %d", (ull)n, st); }
      { // padding element of exactly n bytes in all, or a refusal
        MemWriter w;
        uint64_t got = mkvmuxer::WriteVoidElement(&w, n);
        if (got == 0) {
          // 0, 1 and sizes right where the shortest size field grows may be refused, no others
          bool edge = n < 2;
          for (int l = 1; l <= 8; ++l) if (n >= (1ull << (7 * l)) && n <= (1ull << (7 * l)) + 8) edge = true;
          if (!edge) FAIL("WriteVoidElement(%llu) refused", (ull)n);
        } else {
          if (got != n || w.buf.size() != n) FAIL("WriteVoidElement(%llu) returned %llu and wrote %zu", (ull)n, (ull)got, w.buf.size());
          Mem m(w.buf);
          long long pos = 0, id, size;
          if (mkvparser::ParseElementHeader(&m, pos, n, id, size) || id != 0xEC || pos + size != (long long)n) FAIL("WriteVoidElement(%llu) wrote a header of id %llx size %lld", (ull)n, (ull)id, size);
        }
      }
      mc::state();
      mc::outcome(0x9a110000u + n);
    }
  };
}
namespace {
struct Head : webm::Callback {
  webm::ElementMetadata m; int seen = 0;
  webm::Status OnElementBegin(const webm::ElementMetadata& e, webm::Action* a) override { if (!seen++) m = e; *a = webm::Action::kRead; return webm::Status(-99); }
};
void decode(const Bytes& b) {
  mc::tick();
  // size / coded integer
  size_t n = b.size();
  int len = 0;
  uint8_t c0 = n ? b[0] : 0;
  for (int k = 0; k < 8 && !len; ++k) if (c0 & (0x80 >> k)) len = k + 1;
  Mem m(b);
  long l = -1;
  long long g = mkvparser::ReadUInt(&m, 0, l);
  if (n == 0 || (len && (size_t)len > n)) { if (g != mkvparser::E_BUFFER_NOT_FULL) FAIL("ReadUInt on %s = %lld", mc::hex(b.data(), n).c_str(), g); }
  else if (!len) { if (g >= 0) FAIL("ReadUInt accepted %s", mc::hex(b.data(), n).c_str()); }
  else {
    uint64_t v = eb::dec_uint(b.substr(0, len)) & ((1ull << (7 * len)) - 1);
    if ((ull)g != v || l != len) FAIL("ReadUInt on %s = %lld, length %ld", mc::hex(b.data(), n).c_str(), g, l);
  }
  l = -1;
  long long gl = mkvparser::GetUIntLength(&m, 0, l);
  if (n == 0) { if (gl != 0 || l != 1) { if (gl < 0) FAIL("GetUIntLength on nothing = %lld", gl); } }
  else if (!len) { if (gl >= 0) FAIL("GetUIntLength accepted %s", mc::hex(b.data(), n).c_str()); }
  else if (gl != 0 || l != len) FAIL("GetUIntLength on %s = %lld, %ld", mc::hex(b.data(), n).c_str(), gl, l);
  // id
  int il = len && len <= 4 ? len : 0;
  l = -1;
  g = mkvparser::ReadID(&m, 0, l);
  if (n == 0 || (il && (size_t)il > n)) { if (g != mkvparser::E_BUFFER_NOT_FULL) FAIL("ReadID on %s = %lld", mc::hex(b.data(), n).c_str(), g); }
  else if (!il) { if (g >= 0) FAIL("ReadID accepted %s", mc::hex(b.data(), n).c_str()); }
  else if ((ull)g != eb::dec_uint(b.substr(0, il)) || l != il) FAIL("ReadID on %s = %llx, %ld", mc::hex(b.data(), n).c_str(), g, l);
  mc::state();
}
void decode_push(const Bytes& b) {
  mc::tick();
  size_t n = b.size();
  auto vlen = [](uint8_t c) { for (int k = 0; k < 8; ++k) if (c & (0x80 >> k)) return k + 1; return 0; };
  int want = 1;           // 1 = header read; otherwise the status
  uint64_t id = 0, size = 0;
  size_t hdr = 0;
  int il = n ? vlen(b[0]) : 0;
  if (n == 0) want = webm::Status::kOkCompleted;
  else if (il == 0 || il > 4) want = webm::Status::kInvalidElementId;
  else if ((size_t)il > n) want = webm::Status::kEndOfFile;
  else {
    id = eb::dec_uint(b.substr(0, il));
    if ((size_t)il == n) want = webm::Status::kEndOfFile;
    else {
      int sl = vlen(b[il]);
      if (!sl) want = webm::Status::kInvalidElementSize;
      else if ((size_t)(il + sl) > n) want = webm::Status::kEndOfFile;
      else { size = eb::dec_uint(b.substr(il, sl)) & ((1ull << (7 * sl)) - 1); if (size == (1ull << (7 * sl)) - 1) size = wp::UNK; hdr = il + sl; }
    }
  }
  Head cb;
  wp::ScriptReader r(b);
  webm::WebmParser p;
  int st = p.Feed(&cb, &r).code;
  if (want != 1) {
    if (cb.seen || st != want) FAIL("push parser on header %s: status %d (%d notifications), expected %d", mc::hex(b.data(), n).c_str(), st, cb.seen, want);
  } else {
    if (st != -99 && !cb.seen) { // an unknown-size element that is not a known master is refused without being reported
      if (size == wp::UNK && wp::parsing_error(st)) { mc::state(); return; }
    }
    if (!cb.seen || (ull)static_cast<std::uint32_t>(cb.m.id) != id || cb.m.size != size || cb.m.header_size != hdr || cb.m.position != 0)
      FAIL("push parser on header %s: status %d, %d notifications, id %x size %llu header %u", mc::hex(b.data(), n).c_str(), st, cb.seen, (unsigned)cb.m.id, (ull)cb.m.size, (unsigned)cb.m.header_size);
  }
  mc::state();
}
}  // namespace
SPACE(C19, decode3) {   // every byte string of up to three bytes (pull parser), two bytes (push parser)
  int hi = c.pick(256);
  return [=]() {
    R.desc = strf("byte strings starting %02x", hi);
    if (hi == 0) { decode(""); decode_push(""); }
    Bytes b(1, (char)hi);
    decode(b);
    decode_push(b);
    for (int x = 0; x < 256; ++x) {
      b.resize(2); b[1] = (char)x;
      decode(b);
      decode_push(b);
      for (int y = 0; y < 256; ++y) { b.resize(3); b[2] = (char)y; decode(b); if (R.thorough || (y & 15) == 15 || y < 2) decode_push(b); }
    }
    mc::outcome(0xdec0de00u + hi);
  };
}
SPACE(C19, decode) {    // longer strings: every id length x every size length x boundary bytes x every cut
  static const uint8_t pat[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
  int il = 1 + c.pick(5), sl = 1 + c.pick(9);
  uint8_t a = pat[c.pick(5)], b2 = pat[c.pick(5)], x = pat[c.pick(5)], y = pat[c.pick(5)];
  int lead = c.pick(3), slead = c.pick(3);
  return [=]() {
    auto mk = [](int len, int lead, uint8_t f, uint8_t last) {
      Bytes s;
      uint8_t m = len <= 8 ? 0x80 >> (len - 1) : 0;
      s.push_back((char)(m | (lead == 0 ? 0 : lead == 1 ? (uint8_t)(m - 1) & 0x55 : (uint8_t)(m - 1) & 0x7f)));
      if (len == 9) s[0] = 0;
      for (int i = 1; i < len; ++i) s.push_back((char)(i == len - 1 ? last : f));
      return s;
    };
    Bytes h = mk(il, lead, a, b2) + mk(sl, slead, x, y);
    R.desc = strf("header %s", mc::hex(h.data(), h.size()).c_str());
    for (size_t n = 1; n <= h.size(); ++n) { decode(h.substr(0, n)); decode_push(h.substr(0, n)); decode(h.substr(n - 1)); }
    mc::outcome(mc::hstr(h));
  };
}
