// C20: WebVTT parser against an independent reading of the format.
#include <memory>
#include <set>
#include "mc.h"
#include "webvtt/webvttparser.h"
#include "webvtt/vttreader.h"
using mc::R;
using mc::strf;
typedef std::string Str;

namespace {
struct RefCue {
  Str id;
  long long t[2] = {0, 0};
  std::vector<std::pair<Str, Str>> set;
  std::vector<Str> text;
  Str show() const {
    Str s = "[" + id + "] " + strf("%lld-%lld", t[0], t[1]);
    for (auto& p : set) s += " {" + p.first + "=" + p.second + "}";
    for (auto& l : text) s += " |" + l;
    return s;
  }
};
struct Ref { bool init = false; std::vector<RefCue> cues; bool error = false; };
bool blank(char c) { return c == ' ' || c == '\t'; }

// Lines of a text; bad: index of the first line that cannot be read (not UTF-8, too long), or -1.
void lines_of(const Str& s, std::vector<Str>* out, int* bad) {
  *bad = -1;
  Str cur;
  size_t i = 0;
  bool open = false;
  auto flush = [&]() {
    if (*bad < 0) for (char c : cur) if (c == '\xFE' || c == '\xFF') *bad = (int)out->size();
    if (*bad < 0 && cur.size() > 10000) *bad = (int)out->size();
    out->push_back(cur);
    cur.clear();
    open = false;
  };
  while (i < s.size()) {
    if (s[i] == '\n') { flush(); ++i; }
    else if (s[i] == '\r') { flush(); i += (i + 1 < s.size() && s[i + 1] == '\n') ? 2 : 1; }
    else { cur.push_back(s[i++]); open = true; }
  }
  if (open) flush();
}
// Timestamp at the front of w (no blanks in it): milliseconds or -1.
long long stamp(const Str& w) {
  std::vector<Str> part(1);
  Str frac;
  bool dot = false;
  for (char c : w) {
    if (c == ':' && !dot) part.emplace_back();
    else if (c == '.' && !dot) dot = true;
    else if (c >= '0' && c <= '9') (dot ? frac : part.back()).push_back(c);
    else return -1;
  }
  if (part.size() > 3 || (dot && (frac.empty() || frac.size() > 3))) return -1;
  std::vector<long long> v;
  for (auto& p : part) {
    if (p.empty()) return -1;
    __int128 x = 0;
    for (char c : p) { x = x * 10 + (c - '0'); if (x > 2147483647) return -1; }
    v.push_back((long long)x);
  }
  long long h = 0, m = 0, s = 0;
  if (v.size() == 1) s = v[0];
  else if (v.size() == 2) { m = v[0]; s = v[1]; if (m >= 60 || s >= 60) return -1; }
  else { h = v[0]; m = v[1]; s = v[2]; if (m >= 60 || s >= 60) return -1; }
  long long ms = 0;
  if (dot) { while (frac.size() < 3) frac.push_back('0'); ms = atoi(frac.c_str()); }
  return ((h * 60 + m) * 60 + s) * 1000 + ms;
}
bool timing(const Str& line, RefCue* c) {
  if (line.find('\0') != Str::npos) return false;
  size_t a = line.find("-->");
  if (a == Str::npos) return false;
  auto trim = [](Str s) { while (!s.empty() && blank(s[0])) s.erase(0, 1); while (!s.empty() && blank(s.back())) s.pop_back(); return s; };
  c->t[0] = stamp(trim(line.substr(0, a)));
  if (c->t[0] < 0) return false;
  std::vector<Str> w;
  Str rest = line.substr(a + 3), cur;
  for (char ch : rest + " ") { if (blank(ch)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur.push_back(ch); }
  if (w.empty()) return false;
  c->t[1] = stamp(w[0]);
  if (c->t[1] < 0) return false;
  for (size_t i = 1; i < w.size(); ++i) {
    size_t k = w[i].find(':');
    if (k == Str::npos || k == 0 || k + 1 == w[i].size() || w[i].find(':', k + 1) != Str::npos) return false;
    c->set.push_back({w[i].substr(0, k), w[i].substr(k + 1)});
  }
  return true;
}
Ref reference(Str s) {
  Ref r;
  if (!s.empty() && s[0] == '\xEF') { if (s.compare(0, 3, "\xEF\xBB\xBF") != 0) return r; s.erase(0, 3); }
  if (s.compare(0, 6, "WEBVTT") != 0) return r;
  s.erase(0, 6);
  std::vector<Str> l;
  int bad;
  lines_of(s, &l, &bad);
  if (l.empty()) { r.init = true; return r; }
  if (bad == 0) return r;
  if (!l[0].empty() && !blank(l[0][0])) return r;
  if (l.size() == 1) { r.init = true; return r; }
  if (bad == 1 || !l[1].empty()) return r;
  r.init = true;
  size_t i = 2;
  for (;;) {
    while (i < l.size() && l[i].empty()) ++i;
    if (i >= l.size()) return r;
    RefCue c;
    size_t last = l.size();
    if (bad >= 0) last = bad;
    if (i >= last) { r.error = true; return r; }
    if (l[i].find("-->") == Str::npos) { c.id = l[i]; ++i; }
    if (i >= last || !timing(l[i], &c)) { r.error = true; return r; }
    ++i;
    while (i < l.size() && !l[i].empty()) { if (i >= last) { r.error = true; return r; } c.text.push_back(l[i++]); }
    if (c.text.empty()) { r.error = true; return r; }
    r.cues.push_back(c);
  }
}
struct StrReader : libwebvtt::Reader {
  Str s; size_t i = 0; long long fail_at = -1; bool failed = false;
  int GetChar(char* c) override {
    if (fail_at >= 0 && (long long)i >= fail_at) { failed = true; return -9; }
    if (i >= s.size()) return 1;
    *c = s[i++];
    return 0;
  }
};
Str esc(const Str& s) {
  Str o;
  for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += strf("\\x%02x", (unsigned char)c); else o += c; }
  return o.size() > 400 ? o.substr(0, 400) + "..." : o;
}
Str real_show(const libwebvtt::Cue& c) {
  RefCue x;
  x.id = c.identifier;
  for (int k = 0; k < 2; ++k) {
    const libwebvtt::Time& t = k ? c.stop_time : c.start_time;
    if (t.minutes < 0 || t.minutes > 59 || t.seconds < 0 || t.seconds > 59 || t.milliseconds < 0 || t.milliseconds > 999 || t.hours < 0) return "time out of range";
    x.t[k] = ((t.hours * 60ll + t.minutes) * 60 + t.seconds) * 1000 + t.milliseconds;
  }
  for (auto& s : c.settings) x.set.push_back({s.name, s.value});
  for (auto& p : c.payload) x.text.push_back(p);
  return x.show();
}
void compare(const Str& s) {
  mc::tick();
  Ref w = reference(s);
  StrReader rd;
  rd.s = s;
  libwebvtt::Parser p(&rd);
  int e = p.Init();
  if ((e == 0) != w.init) FAIL("Init returned %d on \"%s\", expected %s", e, esc(s).c_str(), w.init ? "success" : "failure");
  uint64_t h = e == 0;
  if (e == 0) {
    libwebvtt::Cue cue;    // reused, as the tools do
    for (size_t k = 0;; ++k) {
      CHECK(k <= w.cues.size() + 1, "endless cues");
      e = p.Parse(&cue);
      if (k < w.cues.size()) {
        Str want = w.cues[k].show();
        if (e) FAIL("cue %zu of \"%s\": status %d, expected %s", k, esc(s).c_str(), e, want.c_str());
        Str got = real_show(cue);
        if (got != want) FAIL("cue %zu of \"%s\": %s, expected %s", k, esc(s).c_str(), got.c_str(), want.c_str());
        h = mc::mix(h, mc::hstr(got));
      } else {
        if (w.error ? e >= 0 : e <= 0) FAIL("after %zu cues of \"%s\": status %d, expected %s", k, esc(s).c_str(), e, w.error ? "an error" : "the end");
        h = mc::mix(h, e < 0);
        if (!w.error) { e = p.Parse(&cue); if (e <= 0) FAIL("after the end of \"%s\": status %d", esc(s).c_str(), e); }
        break;
      }
    }
  }
  mc::state();
  mc::outcome(h);
}
// Cues before the failing read are those of the whole text and the failure is passed on.
void compare_fault(const Str& s, long long at) {
  mc::tick();
  Ref w = reference(s);
  StrReader rd;
  rd.s = s;
  rd.fail_at = at;
  libwebvtt::Parser p(&rd);
  int e = p.Init();
  if (rd.failed) { if (e >= 0) FAIL("Init returned %d although the reader failed at %lld in \"%s\"", e, at, esc(s).c_str()); return; }
  if (e) { if (w.init) FAIL("Init failed"); return; }
  libwebvtt::Cue cue;
  for (size_t k = 0;; ++k) {
    CHECK(k <= w.cues.size() + 1, "endless cues");
    e = p.Parse(&cue);
    if (rd.failed) { if (e >= 0) FAIL("Parse returned %d although the reader failed at %lld in \"%s\"", e, at, esc(s).c_str()); break; }
    if (e) break;
    CHECK(k < w.cues.size() && real_show(cue) == w.cues[k].show(), "cue %zu differs before a failing read at %lld of \"%s\"", k, at, esc(s).c_str());
  }
  mc::state();
}
Str pick_tokens(mc::Chooser& c, const std::vector<Str>& tok, int n) {
  Str s;
  for (int i = 0; i < n; ++i) { int k = c.pick((int)tok.size() + 1); if (k == 0) break; s += tok[k - 1]; }
  return s;
}
const Str NUL(1, '\0');
}  // namespace

SPACE(C20, header) {
  static const std::vector<Str> tok = {"WEBVTT", "\xEF\xBB\xBF", "\xEF", "\n", "\r", " ", "\t", "x", "1 --> 2", "\xFF", NUL};
  Str s = pick_tokens(c, tok, R.thorough ? 7 : 5);
  return [=]() { R.desc = "header"; compare(s); compare("WEBVTT" + s); };
}
SPACE(C20, timing) {     // every token string as the timing line
  static const std::vector<Str> tok = {"0", "5", "59", "60", ":", ".", " ", "-->", "a", "\t", NUL, "-"};
  int d = R.thorough ? 7 : 5;
  Str s;
  for (int i = 0; i < d; ++i) { int k = c.pick((int)tok.size() + 1); if (i == 1 && !c.mine()) return nullptr; if (k == 0) break; s += tok[k - 1]; }
  return [=]() {
    R.desc = "timing line";
    Str pre = "WEBVTT\n\n";
    mc::sub(0); compare(pre + s + "\np\n\n1 --> 2\nq\n");
    mc::sub(1); compare(pre + s + "-->7\np");
    mc::sub(2); compare(pre + "07:07.007 -->" + s + "\np");
    mc::sub(3); compare(pre + "id\n1 --> 2 " + s + "\np");
  };
}
SPACE(C20, stamps) {     // every combination of fields with every boundary value
  static const std::vector<Str> f = {"", "0", "00", "9", "10", "59", "059", "60", "99", "100", "2147483647", "2147483648", "4294967296", "99999999999999999999"};
  static const std::vector<Str> fr = {"-", "", "0", "5", "05", "50", "99", "000", "005", "050", "500", "999", "0005", "1000", "0000", "4294967297"};
  int n = 1 + c.pick(4);
  Str s;
  for (int i = 0; i < n; ++i) s += (i ? ":" : "") + f[c.pick((int)f.size())];
  int k = c.pick((int)fr.size());
  if (k) s += "." + fr[k];
  return [=]() {
    R.desc = "time stamp " + s;
    mc::sub(0); compare("WEBVTT\n\n" + s + " --> 1\np\n");
    mc::sub(1); compare("WEBVTT\n\n1-->" + s + "\np\n");
    mc::sub(2); compare("WEBVTT\n\n1-->" + s + " a:b\np\n");
    mc::sub(3); compare("WEBVTT\n\n1--> " + s + "x\np\n");
  };
}
SPACE(C20, settings) {
  static const std::vector<Str> tok = {"a", "bc", ":", " ", "\t", "%", "-->", "\xC3\xA9", NUL, "1"};
  Str s = pick_tokens(c, tok, R.thorough ? 7 : 5);
  return [=]() { R.desc = "settings"; compare("WEBVTT\n\n1 --> 2" + s + "\np\n\n3 --> 4 z:y\nq"); compare("WEBVTT\n\n1 --> 2 " + s + "\np\n\n3 --> 4\nq"); };
}
SPACE(C20, lines) {      // every sequence of lines with every line ending
  static const std::vector<Str> ln = {"", "id", "00:01.000 --> 00:02.000", "5 --> 60 a:b c:d", "text", "bad --> 1", "\xFE", "WEBVTT", " ", "NOTE x"};
  static const Str term[] = {"\n", "\r", "\r\n", ""};
  int n = R.thorough ? 7 : 5;
  Str s = "WEBVTT";
  int style = c.pick(5);   // 4: endings chosen one by one (fewer lines)
  if (style == 4) n -= 1;
  s += term[style == 4 ? 0 : style % 3];
  for (int i = 0; i < n; ++i) {
    int k = c.pick((int)ln.size() + 1);
    if (i == 1 && !c.mine()) return nullptr;
    if (k == 0) break;
    s += ln[k - 1];
    bool last = false;
    if (style == 4) s += term[c.pick(3)];
    else s += term[style % 3];
    (void)last;
  }
  bool chop = style == 3;
  return [=]() {
    R.desc = "lines";
    Str t = s;
    if (chop) while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
    compare(t);
  };
}
SPACE(C20, faults) {     // reader failure at every character of a set of texts
  static const std::vector<Str> texts = {
    "WEBVTT\n\nid\n00:00:01.000 --> 00:00:02.000 line:1 align:end\nfoo\nbar\n\n1 --> 2\nx\n",
    "\xEF\xBB\xBFWEBVTT hello\r\n\r\n\r\n1:02 --> 1:03\r\ntext\r\n",
    "WEBVTT\r\rid\r1 --> 2\ra\r\r\r3 --> 4\rb",
    "WEBVTT",
    "WEBVTT\n\nid\n",
  };
  int t = c.pick((int)texts.size());
  return [=]() {
    R.desc = strf("faults in text %d", t);
    for (size_t at = 0; at <= texts[t].size(); ++at) if (mc::sub(at)) { compare_fault(texts[t], at); compare(texts[t].substr(0, at)); }
  };
}
SPACE(C20, longlines) {
  int n = c.pick(8);
  int where = c.pick(4);
  return [=]() {
    R.desc = strf("line of %d characters", 9996 + n);
    Str x(9996 + n, 'x');
    if (where == 0) compare("WEBVTT\n\n" + x + "\n1 --> 2\np\n");
    if (where == 1) compare("WEBVTT\n\n1 --> 2\n" + x + "\n\n1 --> 2\np");
    if (where == 2) compare("WEBVTT " + x.substr(1) + "\n\n1 --> 2\np");
    if (where == 3) compare("WEBVTT\n\n1 --> 2\n" + x);
  };
}
SPACE(C20, arithmetic) {
  static std::vector<long long> v;
  static const long long top = (2147483648ll * 3600 - 1) * 1000 + 999;    // the largest time whose hours are an int
  if (v.empty()) {
    std::set<long long> s;
    const long long unit[] = {1, 1000, 60000, 3600000};
    for (long long u : unit) for (long long k : {0ll, 1ll, 9ll, 59ll, 60ll, 61ll, 99ll, 595ll, 597ll, 1000ll}) for (long long d : {-1ll, 0ll, 1ll}) s.insert(u * k + d);
    for (int k = 28; k <= 40; ++k) for (long long d : {-1ll, 0ll, 1ll}) s.insert((1ll << k) + d);
    s.insert(2147483647ll * 1000 + 999);
    for (int k = 41; k <= 52; ++k) for (long long d : {-1ll, 0ll, 1ll}) s.insert((1ll << k) + d);
    for (long long d : {-3600000ll, -1ll, 0ll, 1ll, 3600000ll}) { s.insert(2147483648ll * 1000 + d); s.insert(4294967296ll * 1000 + d); s.insert(2147483647ll * 3600000 / 2 + d); }
    s.insert(top - 1);
    s.insert(top);
    for (long long x : s) if (x >= 0 && x <= top) v.push_back(x);
  }
  int i = c.pick((int)v.size());
  return [=]() {
    using libwebvtt::Time;
    long long a = v[i];
    Time ta;
    ta.presentation(a);
    R.desc = strf("time %lld", a);
    {
      Time tc;      // given by its fields, as the parser does
      tc.hours = (int)(a / 3600000);
      tc.minutes = (int)(a / 60000 % 60);
      tc.seconds = (int)(a / 1000 % 60);
      tc.milliseconds = (int)(a % 1000);
      CHECK(tc.presentation() == a && tc == ta, "%d:%d:%d.%d is %lld ms, not %lld", tc.hours, tc.minutes, tc.seconds, tc.milliseconds, (long long)tc.presentation(), a);
    }
    auto val = [](const Time& t) { return ((t.hours * 60ll + t.minutes) * 60 + t.seconds) * 1000 + t.milliseconds; };
    auto ok = [](const Time& t) { return t.hours >= 0 && t.minutes >= 0 && t.minutes < 60 && t.seconds >= 0 && t.seconds < 60 && t.milliseconds >= 0 && t.milliseconds < 1000; };
    CHECK(ok(ta) && val(ta) == a && ta.presentation() == a, "%lld ms became %d:%d:%d.%d (%lld)", a, ta.hours, ta.minutes, ta.seconds, ta.milliseconds, (long long)ta.presentation());
    for (long long b : v) {
      mc::tick();
      Time tb;
      tb.presentation(b);
      CHECK((ta == tb) == (a == b) && (ta < tb) == (a < b) && (ta > tb) == (a > b) && (ta <= tb) == (a <= b) && (ta >= tb) == (a >= b), "comparison of %lld and %lld", a, b);
      CHECK(ta - tb == a - b, "%lld - %lld", a, b);
      if (a + b <= top) {
        Time s = ta + b;
        CHECK(ok(s) && val(s) == a + b, "%lld + %lld = %lld", a, b, val(s));
        s = ta; s += b;
        CHECK(ok(s) && val(s) == a + b, "%lld += %lld = %lld", a, b, val(s));
      }
      if (a >= b) { Time s = ta; s -= b; CHECK(ok(s) && val(s) == a - b, "%lld -= %lld = %lld", a, b, val(s)); }
      mc::state();
    }
    mc::outcome(a);
  };
}
#include <unistd.h>
SPACE(C20, files) {      // the file reader hands on every byte, then reports the end, and failures as failures
  static const char A[] = {'a', '\n', '\r', '\0', '\x1a', '\xff', '\xef'};
  Str s;
  int n = R.thorough ? 5 : 4;
  for (int i = 0; i < n; ++i) { int k = c.pick(8); if (!k) break; s += A[k - 1]; }
  int big = c.pick(3);
  return [=]() {
    Str t = s;
    if (big) for (int i = 0; i < (big == 1 ? 4094 : 70000); ++i) t += (char)(i * 7);
    R.desc = "file " + mc::hex(t.data(), t.size(), 40);
    struct F { Str p = mc::scratch() + strf("/v%d.vtt", (int)getpid()); ~F() { unlink(p.c_str()); } } f;
    FILE* o = fopen(f.p.c_str(), "wb");
    if (!o || fwrite(t.data(), 1, t.size(), o) != t.size() || fclose(o)) abort();
    libwebvtt::VttReader r;
    char ch = 7;
    CHECK(r.GetChar(&ch) < 0, "a character without a file");
    CHECK(r.Open(nullptr) != 0, "no name accepted");
    CHECK(r.Open((f.p + ".missing").c_str()) != 0, "missing file opened");
    CHECK(r.GetChar(&ch) < 0, "a character without a file");
    for (int round = 0; round < 2; ++round) {
      CHECK(r.Open(f.p.c_str()) == 0, "Open");
      CHECK(r.Open(f.p.c_str()) != 0, "opened twice");
      CHECK(r.GetChar(nullptr) < 0, "nowhere to put the character");
      for (size_t i = 0; i < t.size(); ++i) {
        int st = r.GetChar(&ch);
        CHECK(st == 0 && ch == t[i], "byte %zu: status %d, %02x instead of %02x", i, st, ch & 0xff, t[i] & 0xff);
      }
      for (int k = 0; k < 3; ++k) { int st = r.GetChar(&ch); CHECK(st > 0, "status %d at the end", st); }
      r.Close();
      CHECK(r.GetChar(&ch) < 0, "a character of a closed file");
    }
    mc::state();
    mc::tick((unsigned)t.size());
    mc::outcome(mc::hstr(t));
  };
}
