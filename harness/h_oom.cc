// C34: running out of memory is reported.  Every allocation the libraries are prepared to see fail (new (std::nothrow)) fails in
// turn, once or from then on; the run reports it, or gives the complete result, and leaks nothing.
#include <new>
#include "docgen.h"
#include "mc.h"
#include "muxlib.h"
#include "pulllib.h"
using mc::R;
using mc::strf;
typedef long long ll;

namespace oom {
bool armed = false;
ll count = 0, at = -1;
bool persist = false, hit = false;
bool tables = false;   // only the first allocations of every table size count
size_t sizes[64][2];
bool counts(size_t n) {
  if (!tables) return true;
  if (n < 256) return false;
  for (auto& s : sizes) {
    if (!s[0]) s[0] = n;
    if (s[0] == n) return ++s[1] <= 3;
  }
  return false;
}
bool refuse(size_t n) {
  if (!armed || !counts(n)) return false;
  ll k = count++;
  if (at >= 0 && (k == at || (persist && k > at))) { hit = true; return true; }
  return false;
}
void arm(ll a, bool p) { armed = true; count = 0; at = a; persist = p; hit = false; memset(sizes, 0, sizeof sizes); }
struct Off { ~Off() { armed = false; } };
}  // namespace oom
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  if (oom::refuse(n)) return nullptr;
  return ::operator new(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  if (oom::refuse(n)) return nullptr;
  return ::operator new[](n);
}

namespace {
const std::vector<int> ALL = {dg::AV, dg::TRACK, dg::META, dg::LACES, dg::LIVE, dg::CHAIN, dg::TINY, dg::FRONT, dg::BACK};
const char* mode_name[] = {"Load", "LoadCluster", "ParseNext"};

// Seek entries and cue points are hints: those that cannot be read are left out.
std::string without(const std::string& log, bool encodings, bool cues) {
  std::string o;
  bool in = false, cue = false;
  for (size_t i = 0; i < log.size();) {
    size_t e = log.find('\n', i);
    e = e == std::string::npos ? log.size() : e + 1;
    std::string l = log.substr(i, e - i);
    i = e;
    if (l.compare(0, 5, "seek ") == 0) continue;
    in = l.compare(0, 10, "  encoding") == 0 || (in && l.compare(0, 3, "   ") == 0);
    if (encodings && in) continue;
    cue = l.compare(0, 5, " cue ") == 0 || (cue && l.compare(0, 2, "  ") == 0);
    if (cues && cue) continue;
    o += l;
  }
  return o;
}
void complete(const pl::Out& base, const pl::Out& o) {
  bool cs = o.cue_stop;
  if (o.status != 0 || o.log == base.log || without(o.log, false, cs) == without(base.log, false, cs)) return;
  if (without(o.log, true, cs) == without(base.log, true, cs)) {
    mc::known("C34", "K2", "a failing read or allocation inside ContentEncodings leaves the track without content encodings or with wrong ones, and no error is reported");
    return;
  }
  FAIL("the failure was not reported, and the result differs: %s", pl::diff(base.log, o.log).c_str());
}

mc::Exec pull(const eb::Bytes& b, const std::string& desc, bool tables = false) {
  return [=]() {
    oom::tables = tables;
    ll idx = 0;
    for (int m = 0; m < pl::NMODES; ++m)
      for (int query = 0; query < (tables ? 1 : 2); ++query) {
        pl::Out base;
        ll n;
        auto once = [&](ll at, bool persist, pl::Out* o) {
          oom::Off off;
          pl::MemReader r(b);
          oom::arm(at, persist);
          *o = pl::walk(r, (pl::Mode)m, pl::Grow(), query);
        };
        R.desc = desc + strf(", %s%s", mode_name[m], query ? ", with queries" : "");
        once(-1, false, &base);
        n = oom::count;
        for (ll f = 0; f < n; ++f)
          for (int p = 0; p < 2; ++p) {
            if (!mc::sub(idx++)) continue;
            R.desc = desc + strf(", %s%s, allocation %lld of %lld fails%s", mode_name[m], query ? ", with queries" : "", f, n, p ? " and all later ones" : "");
            mc::state();
            mc::tick();
            pl::Out o;
            o.log.reserve(base.log.size() * 2 + 4096);
            size_t before = mc::live_bytes();
            { pl::Out t; once(f, p, &t); o.status = t.status; o.log = t.log; o.cue_stop = t.cue_stop; t = pl::Out(); }
            size_t after = mc::live_bytes();
            CHECK(oom::hit, "allocation not reached");
            CHECK(after <= before, "%lld bytes leaked", (ll)after - (ll)before);
            complete(base, o);
            mc::outcome(mc::mix(mc::hstr(o.log), o.status));
          }
        mc::outcome(mc::hstr(base.log));
      }
    mc::sample(desc);
  };
}
}  // namespace
namespace {
mc::Exec reads(const eb::Bytes& b, const std::string& desc) {
  return [=]() {
    ll idx = 0;
    for (int m = 0; m < pl::NMODES; ++m) {
      pl::Out base;
      ll n;
      auto once = [&](ll at, pl::Out* o) {
        pl::MemReader r(b);
        r.fail_at = at;
        *o = pl::walk(r, (pl::Mode)m, pl::Grow());
        n = r.reads;
      };
      R.desc = desc + strf(", %s", mode_name[m]);
      once(-1, &base);
      ll total = n;
      for (ll f = 0; f < total; ++f) {
        if (!mc::sub(idx++)) continue;
        R.desc = desc + strf(", %s, read %lld of %lld fails", mode_name[m], f, total);
        mc::state();
        mc::tick();
        pl::Out o;
        once(f, &o);
        complete(base, o);
        mc::outcome(mc::mix(mc::hstr(o.log), o.status));
      }
      mc::outcome(mc::hstr(base.log));
    }
    mc::sample(desc);
  };
}
}  // namespace
SPACE(C34, read_faults) {
  dg::EditCfg cfg;
  std::string desc;
  cfg.values = cfg.sizes = R.thorough;
  dg::Doc d = dg::pick(c, ALL, 1, cfg, &desc);
  if (d.empty()) return nullptr;
  return reads(dg::enc(d), desc);
}
SPACE(C34, parse) {
  dg::EditCfg cfg;
  std::string desc;
  cfg.values = cfg.sizes = R.thorough;
  dg::Doc d = dg::pick(c, ALL, 1, cfg, &desc);
  if (d.empty()) return nullptr;
  return pull(dg::enc(d), desc);
}
SPACE(C34, tables) {
  std::string desc;
  dg::Doc d = dg::pick_many(c, R.thorough, &desc);
  if (!c.mine()) return nullptr;
  return pull(dg::enc(d), desc, true);
}

namespace {
// After a refused call the caller goes on: what later calls accept is in the file, and the file is well formed.
void after(const mx::Case& k, const mx::Result& r, const mx::MemWriter& w) {
  mx::View v;
  std::string e = mx::view(w.buf, &v);
  CHECK(e.empty(), "the output is not well formed: %s", e.c_str());
  std::map<uint64_t, std::vector<eb::Bytes>> got;
  for (auto& cl : v.clusters) for (auto& b : cl.blocks) got[b.track].push_back(b.payload);
  std::map<uint64_t, size_t> at;
  for (auto& f : r.accepted) {
    auto& g = got[f.track];
    size_t& i = at[f.track];
    while (i < g.size() && g[i] != f.payload) ++i;
    CHECK(i < g.size(), "a frame of track %d that was accepted (operation %d) is not in the output", (int)f.track, f.op);
    ++i;
  }
}
mc::Exec mux(mc::Chooser& c, const mx::Profile& p) {
  auto k = std::make_shared<mx::Case>(mx::gen(c, p));
  return [k]() {
    oom::tables = false;
    auto once = [&](ll at, bool persist, int go, mx::MemWriter* w, mx::Result* r) {
      oom::Off off;
      mx::Hooks h;
      h.before_header = [&](mkvmuxer::Segment&) { oom::arm(at, persist); r->rc.clear(); r->all_ok = true; };
      mx::run(*k, *w, r, go, &h);
    };
    mx::MemWriter w0;
    mx::Result r0;
    R.desc = k->str();
    once(-1, false, 0, &w0, &r0);
    CHECK(r0.all_ok, "the run without failures fails");
    after(*k, r0, w0);
    ll n = oom::count, idx = 0;
    for (ll f = 0; f < n; ++f)
      for (int v = 0; v < 4; ++v) {   // once: continue, give up, finalize; from then on: continue
        if (!mc::sub(idx++)) continue;
        bool persist = v == 3;
        int go = v == 1 ? 2 : v == 2 ? 1 : 0;
        R.desc = k->str() + strf(" | allocation %lld of %lld fails%s, caller %s", f, n, persist ? " and all later ones" : "", go == 0 ? "continues" : go == 1 ? "finalises" : "gives up");
        mc::state();
        size_t before = mc::live_bytes();
        bool all_ok, same;
        {
          mx::MemWriter w;
          mx::Result r;
          once(f, persist, go, &w, &r);
          all_ok = r.all_ok;
          same = w.buf == w0.buf;
          CHECK(w.defect.empty(), "%s", w.defect.c_str());
          if (r.fin_ok) after(*k, r, w);
        }
        size_t after = mc::live_bytes();
        CHECK(oom::hit, "allocation not reached");
        CHECK(!all_ok || same, "the failure was not reported, and the output differs");
        CHECK(after == before, "%lld bytes leaked", (ll)after - (ll)before);
      }
    mc::outcome(mc::fnv(w0.buf.data(), w0.buf.size()));
    mc::sample(k->str());
  };
}
}  // namespace
SPACE(C34, mux) { mx::Profile p{R.thorough ? 4 : 3, false, R.thorough ? 2 : 1}; return mux(c, p); }
SPACE(C34, mux_long) { mx::Profile p{R.thorough ? 3 : 2, false, 0}; p.period = R.thorough ? 2 : 1; return mux(c, p); }

// Metadata calls: one that reports failure can be repeated once there is memory, and the file is the one it would have been.
namespace {
struct Setup {
  mkvmuxer::Segment seg;
  mkvmuxer::Track* t[3] = {};
  mkvmuxer::Chapter* ch[3] = {};
  mkvmuxer::Tag* tag[3] = {};
};
struct Step { const char* name; std::function<bool(Setup&)> f; bool silent; };   // silent: the call has no way to report
const uint8_t* u8(const char* s) { return reinterpret_cast<const uint8_t*>(s); }
std::vector<Step> steps(int order) {
  using namespace mkvmuxer;
  std::vector<Step> tr, meta, info;
  tr.push_back({"AddVideoTrack", [](Setup& s) { if (!s.seg.AddVideoTrack(320, 240, 1)) return false; s.t[0] = s.seg.GetTrackByNumber(1); s.t[0]->set_uid(11); return true; }, false});
  tr.push_back({"AddAudioTrack", [](Setup& s) { if (!s.seg.AddAudioTrack(48000, 2, 2)) return false; s.t[1] = s.seg.GetTrackByNumber(2); s.t[1]->set_uid(12); return true; }, false});
  tr.push_back({"AddTrack", [](Setup& s) { Track* t = s.seg.AddTrack(3); if (!t) return false; s.t[2] = t; t->set_uid(13); t->set_type(0x11); return true; }, false});
  for (int i = 0; i < 3; ++i) {
    tr.push_back({"set_codec_id", [i](Setup& s) { s.t[i]->set_codec_id(i == 0 ? "V_VP9" : i == 1 ? "A_OPUS" : "S_TEXT/UTF8"); return true; }, true});
    tr.push_back({"set_name", [i](Setup& s) { s.t[i]->set_name("name"); return true; }, true});
    tr.push_back({"set_name again", [i](Setup& s) { s.t[i]->set_name("other name"); return true; }, true});
    tr.push_back({"set_language", [i](Setup& s) { s.t[i]->set_language("fre"); return true; }, true});
    tr.push_back({"SetCodecPrivate", [i](Setup& s) { return s.t[i]->SetCodecPrivate(u8("privat"), 6); }, false});
    tr.push_back({"SetCodecPrivate again", [i](Setup& s) { return s.t[i]->SetCodecPrivate(u8("other private"), 13); }, false});
    for (int j = 0; j < 2; ++j) {
      tr.push_back({"AddContentEncoding", [i](Setup& s) { return s.t[i]->AddContentEncoding(); }, false});
      tr.push_back({"SetEncryptionID", [i, j](Setup& s) { ContentEncoding* e = s.t[i]->GetContentEncodingByIndex(j); return e && e->SetEncryptionID(u8("keyid"), 5); }, false});
      tr.push_back({"SetEncryptionID again", [i, j](Setup& s) { ContentEncoding* e = s.t[i]->GetContentEncodingByIndex(j); return e && e->SetEncryptionID(u8("another keyid"), 13); }, false});
    }
  }
  for (int k = 0; k < 2; ++k) {
    tr.push_back({"set_colour_space", [k](Setup& s) { static_cast<VideoTrack*>(s.t[0])->set_colour_space(k ? "YV12x" : "I420"); return true; }, true});
    tr.push_back({"SetColour", [k](Setup& s) {
      Colour c;
      c.set_range(1);
      MasteringMetadata m;
      PrimaryChromaticity r(.1f, .2f), g(.3f, .4f), b(.5f, .4f), w(.2f, .1f);
      if (!m.SetChromaticity(&r, &g, k ? &b : nullptr, &w)) return false;
      m.set_luminance_max(100);
      if (!c.SetMasteringMetadata(m)) return false;
      if (!c.SetMasteringMetadata(m)) return false;
      return static_cast<VideoTrack*>(s.t[0])->SetColour(c); }, false});
    tr.push_back({"SetProjection", [k](Setup& s) {
      Projection p;
      p.set_type(Projection::kEquirectangular);
      if (!p.SetProjectionPrivate(u8(k ? "longer data" : "dat"), k ? 11 : 3)) return false;
      return static_cast<VideoTrack*>(s.t[0])->SetProjection(p); }, false});
  }
  for (int i = 0; i < 3; ++i) {
    meta.push_back({"AddChapter", [i](Setup& s) { s.ch[i] = s.seg.AddChapter(); if (!s.ch[i]) return false; return true; }, false});
    // earlier chapters may have moved
    meta.push_back({"set_id", [i](Setup& s) { s.ch[i]->set_uid(70 + i); s.ch[i]->set_time(s.seg, 1000000 * i, 1000000 * i + 5); return s.ch[i]->set_id("chapter"); }, false});
    meta.push_back({"set_id again", [i](Setup& s) { return s.ch[i]->set_id("other chapter"); }, false});
    for (int j = 0; j < 3; ++j) meta.push_back({"add_string", [i, j](Setup& s) { return s.ch[i]->add_string(j ? "other" : "title", j == 1 ? nullptr : "en", j == 2 ? nullptr : "us"); }, false});
  }
  for (int i = 0; i < 3; ++i) {
    meta.push_back({"AddTag", [i](Setup& s) { s.tag[i] = s.seg.AddTag(); return s.tag[i] != nullptr; }, false});
    for (int j = 0; j < 3; ++j) meta.push_back({"add_simple_tag", [i, j](Setup& s) { return s.tag[i]->add_simple_tag(j ? "NAME" : "N", "value"); }, false});
  }
  for (int k = 0; k < 2; ++k) {
    info.push_back({"set_muxing_app", [k](Setup& s) { s.seg.GetSegmentInfo()->set_muxing_app(k ? "muxer" : "m"); return true; }, true});
    info.push_back({"set_writing_app", [k](Setup& s) { s.seg.GetSegmentInfo()->set_writing_app(k ? "writer" : "w"); return true; }, true});
  }
  std::vector<Step> o;
  std::vector<std::vector<Step>*> parts[3] = {{&tr, &meta, &info}, {&info, &meta, &tr}, {&meta, &tr, &info}};
  for (auto* p : parts[order]) o.insert(o.end(), p->begin(), p->end());
  return o;
}
}  // namespace
SPACE(C34, metadata) {
  int order = c.pick(3), from = c.pick(2), persist = c.pick(3);   // persist: failing once, twice, or until the call is over
  return [=]() {
    oom::tables = false;
    auto st = steps(order);
    ll reported = 0;
    auto once = [&](ll at, mx::MemWriter* w, std::string* where) {
      oom::Off off;
      Setup s;
      oom::arm(at, false);
      auto call = [&](const char* name, bool silent, std::function<bool()> f) {
        bool h0 = oom::hit;
        mc::tick();
        bool ok = f();
        bool now = oom::hit && !h0;
        if (now) *where = name;
        if (!ok) CHECK(now, "%s failed although memory was given", name);
        if (!ok) ++reported;
        if (!ok || (now && silent)) {
          if (persist) {   // repeated, with less memory than before
            ll lim = persist == 1 ? 1 : 3;
            for (ll i = 0; i < lim; ++i) { oom::at = oom::count + (persist == 1 ? 0 : i); f(); }
          }
          oom::armed = false;
          if (persist && ok == false) { return; }
          CHECK(f(), "%s fails when repeated with memory at hand", name);
        }
      };
      bool stop = false;
      call("Init", false, [&] { return s.seg.Init(w); });
      s.seg.set_mode(from ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
      for (auto& x : st) {
        call(x.name, x.silent, [&] { return x.f(s); });
        if (persist && oom::hit) { stop = true; break; }
      }
      if (stop) return;
      oom::armed = false;
      s.seg.GetSegmentInfo()->set_date_utc(1);
      CHECK(s.seg.AddFrame(u8("f"), 1, 1, 0, true), "frame refused after %s", where->c_str());
      CHECK(s.seg.Finalize(), "Finalize after %s", where->c_str());
    };
    mx::MemWriter w0;
    std::string where;
    R.desc = strf("metadata, order %d", order);
    once(-1, &w0, &where);
    ll n = oom::count;
    mx::View v;
    CHECK(mx::view(w0.buf, &v).empty(), "output");
    ll idx = 0;
    for (ll f = 0; f < n; ++f) {
      if (!mc::sub(idx++)) continue;
      R.desc = strf("metadata, order %d, %s, allocation %lld of %lld fails, the call is %s", order, from ? "live" : "file", f, n, persist ? "repeated without memory" : "repeated with memory");
      mc::state();
      where.clear();
      where.reserve(64);
      size_t before = mc::live_bytes();
      bool same;
      { mx::MemWriter w; once(f, &w, &where); same = w.buf == w0.buf; }
      size_t after = mc::live_bytes();
      CHECK(after == before, "%lld bytes leaked after %s", (ll)after - (ll)before, where.c_str());
      if (!persist) CHECK(same, "the file differs after %s was repeated", where.c_str());
      mc::outcome(mc::mix(mc::mix(f, order), persist));
    }
    mc::sample(R.desc);
  };
}
