#include "pulllib.h"
#include <climits>
#include <cmath>
#include <memory>
#include <set>
using namespace mkvparser;
using mc::strf;
typedef unsigned long long ull;
typedef long long ll;
namespace pl {
int MemReader::Read(ll pos, long len, unsigned char* buf) {
  ++reads;
  if (pos < 0 || len < 0) {
    if (breach.empty()) breach = strf("read of %ld bytes at %lld", len, pos);
    return -1;
  }
  if (fail_at >= 0 && reads - 1 == fail_at) { fail_pos = pos; return -1; }
  if (len == 0) return 0;
  if (pos >= (ll)b.size() || len > (ll)b.size() - pos) return -1;
  if (pos + len > avail) {
    if (strict_avail && breach.empty()) breach = strf("read of %ld bytes at %lld while %lld are available", len, pos, avail);
    return E_BUFFER_NOT_FULL;
  }
  memcpy(buf, b.data() + pos, len);
  return 0;
}
int MemReader::Length(ll* total, ll* a) {
  if (total) *total = total_known ? (ll)b.size() : -1;
  if (a) *a = avail;
  return 0;
}
namespace {
std::string s(const char* p) { return p ? "\"" + std::string(p) + "\"" : std::string("-"); }
std::string bin(const void* p, size_t n) { return strf("%zu:", n) + mc::hex(p, n, 100000); }
std::string fl(double d) { return strf("%.9g", d); }

struct W {
  MemReader& r;
  const Grow& g;
  Out o;
  bool more() {
    ++o.grows;
    if (o.grows > g.limit) { o.breach = "asks for more data again and again"; return false; }
    return g.f && g.f();
  }
  void line(const std::string& l) { o.log += l; o.log += '\n'; }
  bool err(const char* w, ll st) {
    if (o.status == 0) { o.status = (long)(st ? st : -1); o.where = w; }
    return false;
  }
  void encodings(const Track* t) {
    for (unsigned long i = 0; i < t->GetContentEncodingCount(); ++i) {
      const ContentEncoding* e = t->GetContentEncodingByIndex(i);
      line(strf("  encoding order %llu scope %llu type %llu", e->encoding_order(), e->encoding_scope(), e->encoding_type()));
      for (unsigned long k = 0; k < e->GetCompressionCount(); ++k) {
        auto c = e->GetCompressionByIndex(k);
        line(strf("   compression %llu %s", c->algo, bin(c->settings, c->settings_len).c_str()));
      }
      for (unsigned long k = 0; k < e->GetEncryptionCount(); ++k) {
        auto c = e->GetEncryptionByIndex(k);
        line(strf("   encryption %llu key %s sig %s sigkey %s sigalgo %llu hash %llu mode %llu", c->algo, bin(c->key_id, c->key_id_len).c_str(),
                  bin(c->signature, c->signature_len).c_str(), bin(c->sig_key_id, c->sig_key_id_len).c_str(), c->sig_algo, c->sig_hash_algo,
                  c->aes_settings.cipher_mode));
      }
      if (e->GetCompressionByIndex(e->GetCompressionCount()) || e->GetEncryptionByIndex(e->GetEncryptionCount())) line("   entry beyond the last");
    }
    if (t->GetContentEncodingByIndex(t->GetContentEncodingCount())) line("  encoding beyond the last");
  }
  static std::string cv(ll v) { return v == Colour::kValueNotPresent ? "-" : strf("%lld", v); }
  static std::string xy(const PrimaryChromaticity* p) { return p ? fl(p->x) + "," + fl(p->y) : "-"; }
  static std::string lum(float v) { return v == MasteringMetadata::kValueNotPresent ? "-" : fl(v); }
  static std::string pose(float v) { return v == Projection::kValueNotPresent ? "-" : fl(v); }
  void tracks(const Tracks* ts) {
    for (unsigned long i = 0; i < ts->GetTracksCount(); ++i) {
      const Track* t = ts->GetTrackByIndex(i);
      if (!t) { line("null track"); continue; }
      size_t n = 0;
      const unsigned char* cp = t->GetCodecPrivate(n);
      line(strf("track %ld at %lld+%lld type %ld uid %llu name %s lang %s codec %s codecname %s private %s lacing %d dd %llu delay %llu preroll %llu",
                t->GetNumber(), t->m_element_start, t->m_element_size, t->GetType(), t->GetUid(), s(t->GetNameAsUTF8()).c_str(), s(t->GetLanguage()).c_str(),
                s(t->GetCodecId()).c_str(), s(t->GetCodecNameAsUTF8()).c_str(), cp ? bin(cp, n).c_str() : "-", t->GetLacing(), t->GetDefaultDuration(),
                t->GetCodecDelay(), t->GetSeekPreRoll()));
      if (ts->GetTrackByNumber(t->GetNumber()) != t) line("  not found by its number");
      if (t->GetType() == Track::kVideo) {
        const VideoTrack* v = static_cast<const VideoTrack*>(t);
        line(strf("  video %lld x %lld display %lld x %lld unit %lld stereo %lld rate %s space %s", v->GetWidth(), v->GetHeight(), v->GetDisplayWidth(),
                  v->GetDisplayHeight(), v->GetDisplayUnit(), v->GetStereoMode(), fl(v->GetFrameRate()).c_str(), s(v->GetColourSpace()).c_str()));
        if (const Colour* c = v->GetColour()) {
          line("  colour " + cv(c->matrix_coefficients) + " " + cv(c->bits_per_channel) + " " + cv(c->chroma_subsampling_horz) + " " +
               cv(c->chroma_subsampling_vert) + " " + cv(c->cb_subsampling_horz) + " " + cv(c->cb_subsampling_vert) + " " + cv(c->chroma_siting_horz) + " " +
               cv(c->chroma_siting_vert) + " " + cv(c->range) + " " + cv(c->transfer_characteristics) + " " + cv(c->primaries) + " " + cv(c->max_cll) + " " +
               cv(c->max_fall));
          if (const MasteringMetadata* m = c->mastering_metadata)
            line("  mastering " + xy(m->r) + " " + xy(m->g) + " " + xy(m->b) + " " + xy(m->white_point) + " " + lum(m->luminance_max) + " " +
                 lum(m->luminance_min));
        }
        if (const Projection* p = v->GetProjection())
          line(strf("  projection %d ", (int)p->type) + bin(p->private_data, p->private_data_length) + " " + pose(p->pose_yaw) + " " + pose(p->pose_pitch) +
               " " + pose(p->pose_roll));
      } else if (t->GetType() == Track::kAudio) {
        const AudioTrack* a = static_cast<const AudioTrack*>(t);
        line(strf("  audio %s ch %lld depth %lld", fl(a->GetSamplingRate()).c_str(), a->GetChannels(), a->GetBitDepth()));
      }
      encodings(t);
    }
    if (ts->GetTrackByIndex(ts->GetTracksCount())) line("track beyond the last");
  }
  void headers(Segment* seg) {
    line(strf("segment start %lld size %lld", seg->m_start, seg->m_size));
    if (const SegmentInfo* i = seg->GetInfo())
      line(strf("info scale %lld duration %lld %s %s %s", i->GetTimeCodeScale(), i->GetDuration(), s(i->GetMuxingAppAsUTF8()).c_str(),
                s(i->GetWritingAppAsUTF8()).c_str(), s(i->GetTitleAsUTF8()).c_str()));
    if (seg->GetInfo() && seg->GetDuration() != seg->GetInfo()->GetDuration()) line("segment duration differs");
    if (const SeekHead* h = seg->GetSeekHead()) {
      for (int i = 0; i < h->GetCount(); ++i) {
        auto e = h->GetEntry(i);
        line(strf("seek %llx pos %lld at %lld+%lld", (ull)e->id, e->pos, e->element_start, e->element_size));
      }
      for (int i = 0; i < h->GetVoidElementCount(); ++i) line(strf("seek void at %lld+%lld", h->GetVoidElement(i)->element_start, h->GetVoidElement(i)->element_size));
      if (h->GetEntry(h->GetCount()) || h->GetEntry(-1) || h->GetVoidElement(h->GetVoidElementCount())) line("seek entry beyond the last");
    }
    if (seg->GetTracks()) tracks(seg->GetTracks());
    if (const Chapters* c = seg->GetChapters()) {
      line("chapters");
      for (int i = 0; i < c->GetEditionCount(); ++i) {
        line(" edition");
        auto e = c->GetEdition(i);
        for (int k = 0; k < e->GetAtomCount(); ++k) {
          auto a = e->GetAtom(k);
          line(strf("  atom %llu %s %lld-%lld ns %lld-%lld", a->GetUID(), s(a->GetStringUID()).c_str(), a->GetStartTimecode(), a->GetStopTimecode(),
                    a->GetStartTime(c), a->GetStopTime(c)));
          for (int d = 0; d < a->GetDisplayCount(); ++d)
            line("   display " + s(a->GetDisplay(d)->GetString()) + " " + s(a->GetDisplay(d)->GetLanguage()) + " " + s(a->GetDisplay(d)->GetCountry()));
          if (a->GetDisplay(a->GetDisplayCount()) || a->GetDisplay(-1)) line("   display beyond the last");
        }
        if (e->GetAtom(e->GetAtomCount()) || e->GetAtom(-1)) line("  atom beyond the last");
      }
      if (c->GetEdition(c->GetEditionCount()) || c->GetEdition(-1)) line(" edition beyond the last");
    }
    if (const Tags* t = seg->GetTags()) {
      line("tags");
      for (int i = 0; i < t->GetTagCount(); ++i) {
        line(" tag");
        auto e = t->GetTag(i);
        for (int k = 0; k < e->GetSimpleTagCount(); ++k) line("  simple " + s(e->GetSimpleTag(k)->GetTagName()) + " " + s(e->GetSimpleTag(k)->GetTagString()));
        if (e->GetSimpleTag(e->GetSimpleTagCount()) || e->GetSimpleTag(-1)) line("  simple tag beyond the last");
      }
      if (t->GetTag(t->GetTagCount()) || t->GetTag(-1)) line(" tag beyond the last");
    }
  }
  void cues(Segment* seg) {
    const Cues* c = seg->GetCues();
    if (!c) return;
    line("cues");
    int guard = 0;
    while (!c->DoneParsing()) {
      if (!c->LoadCuePoint()) o.cue_stop = true;
      if (++guard > 100000) { o.breach = "cue loading does not end"; return; }
    }
    const Tracks* ts = seg->GetTracks();
    for (const CuePoint* p = c->GetFirst(); p; p = c->GetNext(p)) {
      line(strf(" cue %lld ns %lld", p->GetTimeCode(), p->GetTime(seg)));
      for (unsigned long i = 0; ts && i < ts->GetTracksCount(); ++i) {
        const Track* t = ts->GetTrackByIndex(i);
        const CuePoint::TrackPosition* q = t ? p->Find(t) : nullptr;
        if (q) line(strf("  track %lld pos %lld block %lld", q->m_track, q->m_pos, q->m_block));
      }
      if (++guard > 300000) { o.breach = "cue list does not end"; return; }
    }
  }
  bool block(Segment* seg, const Cluster* cl, const BlockEntry* e) {
    const Block* b = e->GetBlock();
    if (!b) { line("  null block"); return true; }
    if (e->EOS()) { line("  EOS entry in a cluster"); return true; }
    if (e->GetCluster() != cl) line("  entry of another cluster");
    std::string l = strf("  block #%ld kind %d track %lld tc %lld ns %lld key %d inv %d lacing %d pad %lld", e->GetIndex(), (int)e->GetKind(),
                         b->GetTrackNumber(), b->GetTimeCode(cl), b->GetTime(cl), b->IsKey(), b->IsInvisible(), (int)b->GetLacing(), b->GetDiscardPadding());
    if (e->GetKind() == BlockEntry::kBlockGroup) {
      const BlockGroup* g = static_cast<const BlockGroup*>(e);
      l += strf(" prev %lld next %lld dur %lld", g->GetPrevTimeCode() > 0 ? 0ll : g->GetPrevTimeCode(), g->GetNextTimeCode(), g->GetDurationTimeCode());
    }
    line(l);
    for (int i = 0; i < b->GetFrameCount(); ++i) {
      const Block::Frame& f = b->GetFrame(i);
      if (f.len < 0 || f.pos < 0 || f.pos > (ll)r.b.size() || f.len > (ll)r.b.size() - f.pos) {
        // past the end of a truncated stream: reading has to fail
        if (f.len < 0 || f.pos < 0) { o.breach = strf("frame at %lld of %ld bytes", f.pos, f.len); return false; }
        if (f.len < (1 << 24)) {
          std::unique_ptr<unsigned char[]> buf(new unsigned char[f.len ? f.len : 1]);
          if (f.Read(&r, buf.get()) == 0 && f.len) { o.breach = "read of a frame beyond the end succeeded"; return false; }
        }
        return err("Frame::Read", -1);
      }
      std::unique_ptr<unsigned char[]> buf(new unsigned char[f.len ? f.len : 1]);
      for (;;) {
        long st = f.Read(&r, buf.get());
        if (st == 0) break;
        if (st == E_BUFFER_NOT_FULL && more()) continue;
        return err("Frame::Read", st);
      }
      line(strf("   frame %lld ", f.pos) + bin(buf.get(), f.len));
    }
    return true;
  }
  bool cluster(Segment* seg, const Cluster* cl, long idx) {
    (void)idx;
    line(strf(" cluster at %lld", cl->GetPosition()));
    ll pos;
    long len;
    // entries one by one
    const BlockEntry* e = nullptr;
    long k = 0;
    bool first = true;
    for (;;) {
      long st = cl->GetEntry(k, e);
      if (st < 0 && st != E_BUFFER_NOT_FULL) return err("Cluster::GetEntry", st);
      if (st > 0) {
        if (first) { line(strf("  timecode %lld ns %lld", cl->GetTimeCode(), cl->GetTime())); first = false; }
        if (!e) { line("  null entry"); return true; }
        if (!block(seg, cl, e)) return false;
        ++k;
        continue;
      }
      if (st == 0) break;
      st = cl->Parse(pos, len);
      if (st == E_BUFFER_NOT_FULL) { if (more()) continue; return err("Cluster::Parse", st); }
      if (st < 0) return err("Cluster::Parse", st);
      if (st > 0) break;
    }
    if (first) line(strf("  timecode %lld ns %lld", cl->GetTimeCode(), cl->GetTime()));
    line(strf("  bytes %lld", cl->GetElementSize()));
    // a second way through the same cluster
    long n = 0;
    e = nullptr;
    long st = cl->GetFirst(e);
    while (st >= 0 && e && !e->EOS()) {
      if (e->GetIndex() != n) { line("  entry index out of step"); break; }
      ++n;
      const BlockEntry* nx = nullptr;
      st = cl->GetNext(e, nx);
      e = nx;
    }
    if (n != k) line(strf("  %ld entries by GetNext, %ld by index", n, k));
    return true;
  }
  void queries(Segment* seg) {
    // every lookup with a few arguments; results are judged elsewhere, here they must be safe
    const Tracks* ts = seg->GetTracks();
    std::vector<ll> times = {0, 1, 5000000, 19000000, 20000000, 1000000000, LLONG_MAX, -1};
    for (ll t : times) seg->FindCluster(t);
    for (unsigned long i = 0; ts && i < ts->GetTracksCount(); ++i) {
      const Track* t = ts->GetTrackByIndex(i);
      if (!t) continue;
      const BlockEntry* e = nullptr;
      long st = t->GetFirst(e);
      int n = 0;
      while (st >= 0 && e && !e->EOS() && ++n < 100000) {
        const BlockEntry* nx = nullptr;
        st = t->GetNext(e, nx);
        if (st < 0) break;
        e = nx;
      }
      for (ll q : times) {
        const BlockEntry* x = nullptr;
        t->Seek(q, x);
        if (const Cues* c = seg->GetCues()) {
          const CuePoint* cp = nullptr;
          const CuePoint::TrackPosition* tp = nullptr;
          if (c->Find(q, t, cp, tp) && cp && tp) c->GetBlock(cp, tp);
        }
      }
    }
    for (const Cluster* c = seg->GetFirst(); c && !c->EOS(); c = seg->GetNext(c)) {
      c->GetFirstTime();
      c->GetLastTime();
      const BlockEntry* e = nullptr;
      c->GetLast(e);
      for (unsigned long i = 0; ts && i < ts->GetTracksCount(); ++i)
        if (ts->GetTrackByIndex(i)) for (ll q : times) c->GetEntry(ts->GetTrackByIndex(i), q);
    }
    if (const Cues* c = seg->GetCues()) { c->GetLast(); c->GetCount(); }
    if (const SeekHead* h = seg->GetSeekHead())
      for (int i = 0; i < h->GetCount(); ++i) {
        auto e = h->GetEntry(i);
        if (e->id == eb::Cues) { ll p; long l; seg->ParseCues(e->pos, p, l); }
        if (e->id == eb::Cluster) {
          const Cluster* c = seg->FindOrPreloadCluster(e->pos);
          if (c && !c->EOS()) { const BlockEntry* x; c->GetFirst(x); seg->GetNext(c); const Cluster* nx; ll p; long l; seg->ParseNext(c, nx, p, l); }
        }
      }
    for (ll off : {(ll)0, (ll)1, (ll)9, (ll)(r.b.size() / 2), (ll)r.b.size(), (ll)-1, LLONG_MAX}) {
      const Cluster* c = seg->FindOrPreloadCluster(off);
      if (c && !c->EOS()) { const BlockEntry* x; c->GetFirst(x); }
    }
  }
  // Jumps to clusters before they are loaded, as when following cues.
  void preload(Segment* seg) {
    for (ll off : g.preload) {
      const Cluster* c = seg->FindOrPreloadCluster(off);
      for (int k = 0; c && !c->EOS() && k < 40; ++k) {
        if (g.preparse >= 1 && g.preparse != 4) {
          const BlockEntry* e = nullptr;
          long st = c->GetFirst(e);
          for (int n = 0; st >= 0 && e && !e->EOS() && n < 10000; ++n) {
            const BlockEntry* nx = nullptr;
            st = c->GetNext(e, nx);
            e = nx;
          }
        }
        if (g.preparse < 2) break;
        if (g.preparse != 4) { c->GetTime(); c->GetFirstTime(); }
        const Cluster* by_get = k % 2 ? seg->GetNext(c) : nullptr;
        const Cluster* nx = nullptr;
        ll p;
        long l;
        long pst = seg->ParseNext(c, nx, p, l);
        if (pst < 0 && g.preparse >= 3) line(strf("ParseNext fails with %ld after the cluster at %lld", pst, c->GetPosition()));
        if (pst != 0) break;
        if (k % 2 && nx != by_get && g.preparse >= 3) line(strf("GetNext and ParseNext differ after the cluster at %lld", c->GetPosition()));
        c = nx;
      }
    }
  }
  void run(Mode m, bool query) {
    EBMLHeader h;
    ll pos = 0;
    for (;;) {
      pos = 0;
      ll st = h.Parse(&r, pos);
      if (st == 0) break;
      if ((st > 0 || st == E_BUFFER_NOT_FULL) && more()) continue;
      err("EBMLHeader::Parse", st);
      return;
    }
    line(strf("ebml %lld %lld %lld %lld %s %lld %lld end %lld", h.m_version, h.m_readVersion, h.m_maxIdLength, h.m_maxSizeLength, s(h.m_docType).c_str(),
              h.m_docTypeVersion, h.m_docTypeReadVersion, pos));
    Segment* sp = nullptr;
    for (;;) {
      sp = nullptr;
      ll st = Segment::CreateInstance(&r, pos, sp);
      if (st == 0 && sp) break;
      if (sp) { delete sp; sp = nullptr; }
      if ((st > 0 || st == E_BUFFER_NOT_FULL) && more()) continue;
      err("Segment::CreateInstance", st);
      return;
    }
    std::unique_ptr<Segment> seg(sp);
    if (m == LOAD) {
      long st = seg->Load();
      headers(sp);
      if (st < 0) { err("Segment::Load", st); if (query && sp->GetInfo() && sp->GetTracks()) { cues(sp); queries(sp); } return; }
      for (const Cluster* c = seg->GetFirst(); c && !c->EOS(); c = seg->GetNext(c))
        if (!cluster(sp, c, c->GetIndex())) { if (query) { cues(sp); queries(sp); } return; }
      cues(sp);
      if (query) queries(sp);
      return;
    }
    for (;;) {
      ll st = seg->ParseHeaders();
      if (st == 0) break;
      if ((st > 0 || st == E_BUFFER_NOT_FULL) && more()) continue;
      headers(sp);
      err("Segment::ParseHeaders", st);
      return;
    }
    headers(sp);
    preload(sp);
    if (m == INC) {
      long n = 0;
      for (;;) {
        ll p = 0;
        long l = 0;
        long st = seg->LoadCluster(p, l);
        if (st == E_BUFFER_NOT_FULL) { if (more()) continue; err("Segment::LoadCluster", st); if (query) { cues(sp); queries(sp); } return; }
        if (st < 0) { err("Segment::LoadCluster", st); if (query) { cues(sp); queries(sp); } return; }
        // clusters loaded so far
        while (n < (long)seg->GetCount()) {
          const Cluster* c = seg->GetLast();
          if (!c || c->EOS()) { line(" no last cluster"); break; }
          if (!cluster(sp, c, n)) { if (query) { cues(sp); queries(sp); } return; }
          ++n;
        }
        if (st > 0) break;
      }
    } else {
      const Cluster* c = seg->GetFirst();
      bool have = c && !c->EOS();
      if (!have) {
        for (;;) {
          ll p; long l;
          long st = seg->LoadCluster(p, l);
          if (st == E_BUFFER_NOT_FULL) { if (more()) continue; err("Segment::LoadCluster", st); if (query) { cues(sp); queries(sp); } return; }
          if (st < 0) { err("Segment::LoadCluster", st); if (query) { cues(sp); queries(sp); } return; }
          break;
        }
        c = seg->GetFirst();
        have = c && !c->EOS();
      }
      while (have) {
        if (!cluster(sp, c, 0)) { if (query) { cues(sp); queries(sp); } return; }
        const Cluster* nx = nullptr;
        ll p = 0;
        long l = 0;
        long st = seg->ParseNext(c, nx, p, l);
        if (st == E_BUFFER_NOT_FULL) {
          bool ok = true;
          while (st == E_BUFFER_NOT_FULL && (ok = more())) st = seg->ParseNext(c, nx, p, l);
          if (!ok) { err("Segment::ParseNext", st); if (query) { cues(sp); queries(sp); } return; }
        }
        if (st < 0) { err("Segment::ParseNext", st); if (query) { cues(sp); queries(sp); } return; }
        if (st > 0 || !nx || nx->EOS()) break;
        c = nx;
      }
    }
    cues(sp);
    if (query) queries(sp);
  }
};
}  // namespace

Out walk(MemReader& r, Mode m, const Grow& g, bool query) {
  W w{r, g, Out()};
  w.run(m, query);
  if (w.o.breach.empty()) w.o.breach = r.breach;
  return w.o;
}

}  // namespace pl
