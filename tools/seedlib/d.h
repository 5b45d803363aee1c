// Shared by the demonstrations: memory writer / reader and a frame lister.
#ifndef D_H_
#define D_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvparser/mkvparser.h"
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #c); exit(1); } } while (0)
struct MemW : mkvmuxer::IMkvWriter {
  std::string b; int64_t pos = 0; bool seek = true; long ops = 0, fail_at = -1; bool failed = false;
  bool bad() { if (ops++ == fail_at) { failed = true; return true; } return false; }
  mkvmuxer::int64 Position() const override { return pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override { if (!seek || bad()) return -1; pos = p; return 0; }
  bool Seekable() const override { return seek; }
  mkvmuxer::int32 Write(const void* d, mkvmuxer::uint32 n) override { if (bad()) return -1; if (b.size() < (size_t)pos + n) b.resize(pos + n); memcpy(&b[pos], d, n); pos += n; return 0; }
  void ElementStartNotify(mkvmuxer::uint64, mkvmuxer::int64) override {}
};
struct MemR : mkvparser::IMkvReader {
  std::string b; long long avail = -1;
  explicit MemR(const std::string& x) : b(x) {}
  int Read(long long p, long n, unsigned char* o) override { if (p < 0 || n < 0 || p + n > (avail < 0 ? (long long)b.size() : avail)) return -1; memcpy(o, b.data() + p, n); return 0; }
  int Length(long long* t, long long* a) override { if (t) *t = b.size(); if (a) *a = avail < 0 ? (long long)b.size() : avail; return 0; }
};
struct Fr { long long track, ns; bool key; std::string data; long long discard; };
struct Doc {
  MemR r; mkvparser::Segment* s = nullptr; bool ok = false;
  explicit Doc(const std::string& b) : r(b) {
    mkvparser::EBMLHeader h; long long pos = 0;
    if (h.Parse(&r, pos) < 0) return;
    if (mkvparser::Segment::CreateInstance(&r, pos, s) || !s) return;
    ok = s->Load() >= 0;
  }
  ~Doc() { delete s; }
  std::vector<Fr> frames() {
    std::vector<Fr> v;
    if (!ok) return v;
    for (const mkvparser::Cluster* c = s->GetFirst(); c && !c->EOS(); c = s->GetNext(c)) {
      const mkvparser::BlockEntry* e = nullptr;
      long st = c->GetFirst(e);
      while (st >= 0 && e && !e->EOS()) {
        const mkvparser::Block* k = e->GetBlock();
        for (int i = 0; i < k->GetFrameCount(); ++i) {
          const mkvparser::Block::Frame& f = k->GetFrame(i);
          std::string d(f.len, 0);
          f.Read(&r, (unsigned char*)&d[0]);
          v.push_back(Fr{k->GetTrackNumber(), k->GetTime(c), k->IsKey(), d, k->GetDiscardPadding()});
        }
        st = c->GetNext(e, e);
      }
    }
    return v;
  }
};
inline bool add(mkvmuxer::Segment& s, uint64_t track, uint64_t ms, bool key, const std::string& d) {
  return s.AddFrame((const uint8_t*)d.data(), d.size(), track, ms * 1000000, key);
}
#endif
