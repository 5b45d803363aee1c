// C30: the bundled file writer, file reader and file helpers against an array model of a file.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <memory>
#include "common/file_util.h"
#include "mc.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvreader.h"
using mc::R;
using mc::strf;
typedef std::string S;
typedef long long ll;
namespace {
struct Dir {
  S path;
  Dir() {
    S t = mc::scratch() + "/verif_c30_XXXXXX";
    path = mkdtemp(&t[0]) ? t : S();
    if (path.empty()) FAIL("no scratch directory");
  }
  void clear() const {
    if (DIR* d = opendir(path.c_str())) {
      while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
      closedir(d);
    }
  }
  ~Dir() { clear(); rmdir(path.c_str()); }
};
S slurp(const S& p, bool* ok) {
  S s;
  FILE* f = fopen(p.c_str(), "rb");
  *ok = f != nullptr;
  if (!f) return s;
  char b[8192];
  for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) s.append(b, n);
  fclose(f);
  return s;
}
void spit(const S& p, const S& d) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) FAIL("scratch file");
  fclose(f);
}
S bytes(size_t n, int salt = 0) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(i * 7 + i / 251 + salt); return s; }
int fds() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}

// ---- writer ----
enum { OPEN1, OPEN2, OPENBAD, OPENNULL, W0, W1, WBIG, WNULL, WNULL0, WUSER, TELL, SEEK0, SEEK2, SEEKEND, SEEKGAP, SEEKNEG, CLOSE, NOPS };
const char* NAME[] = {"Open(1)", "Open(2)", "Open(missing dir)", "Open(NULL)", "Write 0", "Write 1", "Write 5000", "Write NULL", "Write NULL 0", "Write 3", "Position()", "Position(0)", "Position(2)", "Position(end)", "Position(end+3)", "Position(-1)", "Close"};
void writer_case(int start, const std::vector<int>& ops) {
  Dir d;
  S p1 = d.path + "/1", p2 = d.path + "/2", bad = d.path + "/none/3";
  R.desc = start == 0 ? "MkvWriter():" : start == 1 ? "MkvWriter(FILE):" : start == 2 ? "MkvWriter(FILE at 3):" : "MkvWriter(NULL FILE):";
  for (int o : ops) R.desc += S(" ") + NAME[o] + ";";
  const int before = fds();
  spit(p1, "old");
  std::map<S, S> model{{p1, "old"}};
  S cur;            // open file, by name
  ll pos = 0;
  FILE* fp = nullptr;
  if (start == 1 || start == 2) {
    fp = fopen(p1.c_str(), "wb");
    model[p1] = "";
    cur = p1;
    if (start == 2) { fwrite("abc", 1, 3, fp); model[p1] = "abc"; pos = 3; }
  }
  std::unique_ptr<mkvmuxer::MkvWriter> w(start == 0 ? new mkvmuxer::MkvWriter : new mkvmuxer::MkvWriter(fp));
  if (!w->Seekable()) FAIL("file output not seekable");
  auto put = [&](const S& x) {
    S& m = model[cur];
    if (m.size() < (size_t)pos + x.size()) m.resize(pos + x.size(), 0);
    m.replace(pos, x.size(), x);
    pos += x.size();
  };
  int salt = 0;
  for (int o : ops) {
    mc::tick();
    ++salt;
    const S one = bytes(1, salt), big = bytes(5000, salt), three = bytes(3, salt);
    const bool open = !cur.empty();
    switch (o) {
      case OPEN1: case OPEN2: {
        const S& p = o == OPEN1 ? p1 : p2;
        bool r = w->Open(p.c_str());
        if (r == open) FAIL("Open %s", r ? "succeeded while a file was open" : "failed");
        if (r) { cur = p; pos = 0; model[p] = ""; }
        break;
      }
      case OPENBAD: if (w->Open(bad.c_str())) FAIL("opened a file in a missing directory"); break;
      case OPENNULL: if (w->Open(nullptr)) FAIL("opened NULL"); break;
      case W0: if ((w->Write(one.data(), 0) == 0) != open) FAIL("empty write"); break;
      case W1: if ((w->Write(one.data(), 1) == 0) != open) FAIL("write"); if (open) put(one); break;
      case WUSER: if ((w->Write(three.data(), 3) == 0) != open) FAIL("write"); if (open) put(three); break;
      case WBIG: if ((w->Write(big.data(), 5000) == 0) != open) FAIL("write"); if (open) put(big); break;
      case WNULL: if (w->Write(nullptr, 3) == 0) FAIL("wrote from NULL"); break;
      case WNULL0: if ((w->Write(nullptr, 0) == 0) != open) FAIL("empty write from NULL"); break;
      case TELL: if (w->Position() != (open ? pos : 0)) FAIL("position %lld, not %lld", (ll)w->Position(), open ? pos : 0); break;
      case SEEK0: case SEEK2: case SEEKEND: case SEEKGAP: {
        ll to = o == SEEK0 ? 0 : o == SEEK2 ? 2 : open ? (ll)model[cur].size() + (o == SEEKGAP ? 3 : 0) : 5;
        if ((w->Position(to) == 0) != open) FAIL("reposition to %lld", to);
        if (open) pos = to;
        break;
      }
      case SEEKNEG: if (w->Position(-1) == 0) FAIL("repositioned to -1"); break;
      case CLOSE: {
        w->Close();
        if (open && !(fp && cur == p1)) {      // the file's content is complete once closed (a borrowed one is the caller's)
          bool ok; S got = slurp(cur, &ok);
          if (!ok || got != model[cur]) FAIL("after Close the file has %zu bytes: %s, not %zu: %s", got.size(), mc::hex(got.data(), got.size()).c_str(), model[cur].size(), mc::hex(model[cur].data(), model[cur].size()).c_str());
        }
        if (fp && cur == p1) {
          if (fflush(fp) || ftell(fp) != pos) FAIL("borrowed file not left to the caller");
          fclose(fp);
          fp = nullptr;
        }
        cur.clear(); pos = 0;
        break;
      }
    }
    if (w->Position() != (cur.empty() ? 0 : pos)) FAIL("position %lld after %s, not %lld", (ll)w->Position(), NAME[o], cur.empty() ? 0 : pos);
  }
  w.reset();
  if (fp) { if (fflush(fp)) FAIL("borrowed file closed"); fclose(fp); }
  if (fds() != before) FAIL("%d file descriptors left open", fds() - before);
  for (auto& f : model) {
    bool ok; S got = slurp(f.first, &ok);
    if (!ok || got != f.second) FAIL("file %s has %zu bytes: %s, not %zu: %s", f.first == p1 ? "1" : "2", got.size(), mc::hex(got.data(), got.size()).c_str(), f.second.size(), mc::hex(f.second.data(), f.second.size()).c_str());
    mc::outcome(mc::hstr(f.second));
  }
  mc::state();
  mc::sample(R.desc);
}

// ---- reader ----
enum { ROPEN, ROPENBAD, ROPENNULL, RCLOSE, RLEN, RLENT, RLENA, RREAD };
void reader_read(mkvparser::MkvReader& r, const S& d, bool open, ll off, long len) {
  mc::tick();
  std::vector<unsigned char> b((size_t)(len > 0 ? len : 0) + 8, 0xa5);
  int st = r.Read(off, len, b.data());
  bool want = open && off >= 0 && len >= 0 && (len == 0 || (ll)d.size() - off >= len);
  if (open && len == 0 && off > (ll)d.size()) return;     // nothing to read beyond the end: either answer
  if (len == 0 && off < 0) { if (st == 0) FAIL("read at %lld", off); return; }
  if ((st == 0) != want) FAIL("Read(%lld, %ld) of %zu bytes gives %d", off, len, d.size(), st);
  if (want && len && memcmp(b.data(), d.data() + off, len)) FAIL("Read(%lld, %ld) gives wrong bytes", off, len);
  for (int i = 0; i < 8; ++i) if (b[(size_t)(len > 0 ? len : 0) + i] != 0xa5) FAIL("Read(%lld, %ld) wrote beyond the buffer", off, len);
}
// A FILE that takes only so many bytes.
struct Sink { size_t room; S got; };
ssize_t sink_write(void* p, const char* b, size_t n) {
  Sink* s = (Sink*)p;
  size_t k = n < s->room ? n : s->room;
  s->room -= k;
  s->got.append(b, k);
  return k;
}
}  // namespace

SPACE(C30, writer) {     // every short sequence of writer operations on an own or a borrowed file
  int start = c.pick(4);
  int n = R.thorough ? 5 : 4;
  std::vector<int> ops;
  for (int i = 0; i < n; ++i) {
    int o = c.pick(NOPS + 1);
    if (i == 0 && !c.mine()) return nullptr;
    if (o == NOPS) { break; }
    ops.push_back(o);
  }
  return [=]() { writer_case(start, ops); };
}
SPACE(C30, reader) {     // every short sequence of reader operations on files of every size around the buffer sizes
  static const int size[] = {0, 1, 2, 5, 4095, 4096, 4097, 9000};
  int z = size[c.pick(8)], how = c.pick(3);
  struct Op { int kind; ll off; long len; };
  std::vector<Op> ops;
  int n = R.thorough ? 3 : 2;
  for (int i = 0; i < n; ++i) {
    int k = c.pick(8);
    Op o{k, 0, 0};
    if (k == RREAD) {
      const ll off[] = {0, 1, z / 2, z - 1, z, z + 1, -1, 4096, 1ll << 32, INT64_MAX, INT64_MIN};
      o.off = off[c.pick(11)];
      const long len[] = {0, 1, 2, (long)(z > 0 ? z - 1 : 3), z, z + 1, 4096, -1};
      o.len = len[c.pick(8)];
    }
    if (i == 0 && !c.mine()) return nullptr;
    ops.push_back(o);
  }
  return [=]() {
    R.desc = strf("reader %s of %d bytes:", how == 0 ? "MkvReader()" : how == 1 ? "MkvReader() opened" : "MkvReader(FILE)", z);
    for (auto& o : ops) R.desc += strf(" %d %lld %ld;", o.kind, o.off, o.len);
    static const char* K[] = {"Open", "Open(missing)", "Open(NULL)", "Close", "Length", "Length(total)", "Length(available)", "Read"};
    for (auto& o : ops) { R.desc += S(" ") + K[o.kind]; if (o.kind == RREAD) R.desc += strf("(%lld,%ld)", o.off, o.len); }
    Dir dir;
    S p = dir.path + "/f", p2 = dir.path + "/g", d = bytes(z), d2 = bytes(7, 99);
    spit(p, d);
    spit(p2, d2);
    const int before = fds();
    FILE* fp = nullptr;
    std::unique_ptr<mkvparser::MkvReader> r;
    bool open = how != 0, own = how != 2;
    S cur = open ? d : S();
    if (how == 2) { fp = fopen(p.c_str(), "rb"); r.reset(new mkvparser::MkvReader(fp)); }
    else { r.reset(new mkvparser::MkvReader); if (how == 1 && r->Open(p.c_str())) FAIL("cannot open"); }
    for (auto& o : ops) {
      mc::tick();
      ll t = -7, a = -7;
      switch (o.kind) {
        case ROPEN: { bool ok = r->Open(p2.c_str()) == 0; if (ok == open) FAIL("Open %s", ok ? "succeeded while open" : "failed"); if (ok) { open = true; cur = d2; own = true; } break; }
        case ROPENBAD: if (r->Open((dir.path + "/none").c_str()) == 0) FAIL("opened a missing file"); break;
        case ROPENNULL: if (r->Open(nullptr) == 0) FAIL("opened NULL"); break;
        case RCLOSE: {
          int fd = open && !own && fp ? fileno(fp) : -1;
          r->Close();
          if (fd >= 0) {      // an explicit Close may or may not close a borrowed file
            if (fcntl(fd, F_GETFD) >= 0) fclose(fp);
            fp = nullptr;
          }
          open = false;
          break;
        }
        case RLEN: case RLENT: case RLENA: {
          int st = r->Length(o.kind == RLENA ? nullptr : &t, o.kind == RLENT ? nullptr : &a);
          if ((st == 0) != open) FAIL("Length gives %d", st);
          if (open && o.kind != RLENA && t != (ll)cur.size()) FAIL("total %lld, not %zu", t, cur.size());
          if (open && o.kind != RLENT && a != (ll)cur.size()) FAIL("available %lld, not %zu", a, cur.size());
          break;
        }
        case RREAD: reader_read(*r, cur, open, o.off, o.len); break;
      }
    }
    // still usable
    reader_read(*r, cur, open, 0, (long)cur.size());
    reader_read(*r, cur, open, (ll)cur.size() / 2, 1);
    r.reset();
    if (fp) { if (fcntl(fileno(fp), F_GETFD) < 0) FAIL("borrowed file closed"); fclose(fp); }
    if (fds() != before) FAIL("%d file descriptors left open", fds() - before);
    bool ok;
    if (slurp(p, &ok) != d || !ok || slurp(p2, &ok) != d2 || !ok) FAIL("reading changed the file");
    mc::state();
    mc::outcome(mc::hstr(R.desc));
    mc::sample(R.desc);
  };
}
SPACE(C30, ranges) {     // every range of a file
  static const int size[] = {0, 1, 3, 17, 64};
  int z = size[c.pick(5)];
  bool own = c.flag();
  int first = c.pick(z + 3) - 1;
  return [=]() {
    R.desc = strf("every range from %d of a file of %d bytes", first, z);
    Dir dir;
    S p = dir.path + "/f", d = bytes(z, 3);
    spit(p, d);
    FILE* fp = own ? nullptr : fopen(p.c_str(), "rb");
    std::unique_ptr<mkvparser::MkvReader> r(own ? new mkvparser::MkvReader : new mkvparser::MkvReader(fp));
    if (own && r->Open(p.c_str())) FAIL("cannot open");
    for (long n = -1; n <= z + 2; ++n) { reader_read(*r, d, true, first, n); mc::state(); }
    r.reset();
    if (fp) fclose(fp);
    mc::outcome(mc::hstr(R.desc));
  };
}
SPACE(C30, large) {      // positions and lengths beyond 2^31 and 2^32 (sparse files)
  static const ll at[] = {INT32_MAX - 2ll, (ll)INT32_MAX + 1, (1ll << 32) - 2, (1ll << 32) + 5, (1ll << 33) + 1};
  ll pos = at[c.pick(5)];
  bool back = c.flag(), own = c.flag();
  return [=]() {
    R.desc = strf("4 bytes written at %lld of %s file%s", pos, own ? "its own" : "a borrowed", back ? ", then 2 at the start" : "");
    Dir dir;
    S p = dir.path + "/f";
    {
      FILE* fp = own ? nullptr : fopen(p.c_str(), "wb");
      std::unique_ptr<mkvmuxer::MkvWriter> w(own ? new mkvmuxer::MkvWriter : new mkvmuxer::MkvWriter(fp));
      if (own && !w->Open(p.c_str())) FAIL("cannot open");
      if (w->Position(pos) || w->Position() != pos) FAIL("cannot reposition");
      if (w->Write("wxyz", 4) || w->Position() != pos + 4) FAIL("cannot write");
      if (back && (w->Position(0) || w->Write("AB", 2) || w->Position() != 2)) FAIL("cannot go back");
      w.reset();
      if (fp) fclose(fp);
    }
    struct stat st;
    if (stat(p.c_str(), &st) || st.st_size != pos + 4) FAIL("file of %lld bytes", (ll)st.st_size);
    if (libwebm::GetFileSize(p) != (uint64_t)pos + 4) FAIL("GetFileSize");
    FILE* fp = own ? nullptr : fopen(p.c_str(), "rb");
    {
      std::unique_ptr<mkvparser::MkvReader> r(own ? new mkvparser::MkvReader : new mkvparser::MkvReader(fp));
      if (own && r->Open(p.c_str())) FAIL("cannot open");
      ll t, a;
      if (r->Length(&t, &a) || t != pos + 4 || a != t) FAIL("length %lld", t);
      unsigned char b[8];
      for (int i = -2; i <= 4; ++i) for (int n = 1; n <= 6; ++n) {
        mc::tick();
        memset(b, 9, sizeof b);
        int s = r->Read(pos + i, n, b);
        if ((s == 0) != (i + n <= 4)) FAIL("Read(%lld, %d) gives %d", pos + i, n, s);
        if (s == 0) for (int k = 0; k < n; ++k) if (b[k] != (i + k < 0 ? 0 : "wxyz"[i + k])) FAIL("Read(%lld, %d) gives wrong bytes", pos + i, n);
      }
      if (r->Read(0, 2, b) || memcmp(b, back ? "AB" : "\0\0", 2)) FAIL("start of the file");
    }
    if (fp) fclose(fp);
    mc::state();
    mc::outcome(mc::hstr(R.desc));
  };
}
SPACE(C30, full) {       // an output that fails after any number of bytes: reported by the write it affects
  int room = c.pick(12);
  std::vector<int> w;
  int n = 1 + c.pick(4);
  for (int i = 0; i < n; ++i) w.push_back(c.pick(6));
  bool flushed = c.flag();
  return [=]() {
    R.desc = strf("output with room for %d bytes, writes of", room);
    for (int x : w) R.desc += strf(" %d", x);
    Sink s{(size_t)room, ""};
    cookie_io_functions_t io{};
    io.write = sink_write;
    FILE* fp = fopencookie(&s, "wb", io);
    setvbuf(fp, nullptr, _IONBF, 0);
    int used = 0;
    {
      mkvmuxer::MkvWriter wr(fp);
      for (int x : w) {
        mc::tick();
        int st = wr.Write("abcdef", x);
        bool fits = used + x <= room;
        if ((st == 0) != fits) FAIL("write of %d bytes after %d gives %d", x, used, st);
        used = fits ? used + x : room;
      }
      if (flushed) wr.Close();
    }
    fclose(fp);
    if ((int)s.got.size() != used) FAIL("%zu bytes arrived, not %d", s.got.size(), used);
    mc::state();
    mc::outcome(mc::hstr(R.desc));
  };
}
SPACE(C30, pipes) {      // files that cannot be measured
  int how = c.pick(2);
  return [=]() {
    R.desc = how ? "MkvReader::Open of a named pipe" : "MkvReader(FILE) of a pipe";
    const int before = fds();
    {
      Dir dir;
      unsigned char b[4];
      ll t, a;
      if (how == 0) {
        int p[2];
        if (pipe(p)) FAIL("pipe");
        FILE* fp = fdopen(p[0], "rb");
        { mkvparser::MkvReader r(fp); if (r.Read(0, 1, b) == 0) FAIL("read from a pipe"); int s = r.Length(&t, &a); if (s == 0 && (t > 0 || a > 0)) FAIL("length of a pipe"); }
        fclose(fp);
        close(p[1]);
      } else {
        S n = dir.path + "/p";
        if (mkfifo(n.c_str(), 0600)) FAIL("mkfifo");
        int k = open(n.c_str(), O_RDWR);
        { mkvparser::MkvReader r; if (r.Open(n.c_str()) == 0) FAIL("opened a pipe"); if (r.Read(0, 1, b) == 0) FAIL("read from a pipe"); }
        close(k);
      }
    }
    if (fds() != before) FAIL("%d file descriptors left open", fds() - before);
    mc::tick();
    mc::state();
    mc::outcome(how);
  };
}
SPACE(C30, helpers) {
  static const int size[] = {-1, 0, 1, 2, 255, 4096, 70000};
  int z = size[c.pick(7)], salt = c.pick(3);
  return [=]() {
    R.desc = strf("helpers on a file of %d bytes", z);
    Dir dir;
    S p = dir.path + "/f", d = z < 0 ? S() : bytes(z, salt * 13);
    if (salt == 2) for (char& x : d) x = "\r\n\0\x1a\xff"[(unsigned char)x % 5];
    if (z >= 0) spit(p, d);
    if (libwebm::GetFileSize(p) != (z < 0 ? 0 : (uint64_t)z)) FAIL("GetFileSize gives %llu", (unsigned long long)libwebm::GetFileSize(p));
    S got = "junk";
    bool ok = libwebm::GetFileContents(p, &got);
    if (ok != (z >= 0)) FAIL("GetFileContents gives %d", ok);
    if (ok && got != d) FAIL("GetFileContents gives %zu bytes", got.size());
    setenv("TEST_TMPDIR", dir.path.c_str(), 1);
    S a, b;
    {
      libwebm::TempFileDeleter t;
      a = t.name();
      libwebm::TempFileDeleter u;
      b = u.name();
      if (a.empty() || b.empty() || a == b || a.compare(0, dir.path.size() + 1, dir.path + "/") || b.compare(0, dir.path.size() + 1, dir.path + "/")) FAIL("temporary names '%s' '%s'", a.c_str(), b.c_str());
      if (salt) spit(a, d);
      if (salt == 2) unlink(b.c_str());
    }
    if (access(a.c_str(), F_OK) == 0 || access(b.c_str(), F_OK) == 0) FAIL("temporary file left");
    S n = libwebm::GetTempFileName();
    struct stat st;
    if (stat(n.c_str(), &st) || st.st_size != 0) FAIL("temporary file missing");
    if (z >= 0 && slurp(p, &ok) != d) FAIL("another file changed");
    unsetenv("TEST_TMPDIR");
    mc::tick(); mc::state(); mc::outcome(mc::hstr(R.desc)); mc::sample(R.desc);
  };
}
