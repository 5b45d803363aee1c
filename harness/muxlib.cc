#include "muxlib.h"
#include <algorithm>
#include <cmath>
#include <set>

namespace mx {
using mc::strf;
typedef unsigned long long ull;

std::string Cfg::str() const {
  std::string s = strf("%s%s scale=%llu", live ? "live" : "file", seekable ? "" : ",nonseekable", (ull)scale);
  if (accurate) s += ",accurate";
  if (fixed) s += ",fixedtc";
  if (estimate) s += ",estimate";
  if (!cues) s += ",nocues";
  if (cues_track) s += strf(",cuestrack=%d", cues_track);
  if (max_dur != 30000000000ull) s += strf(",maxdur=%llu", (ull)max_dur);
  if (max_size) s += strf(",maxsize=%llu", (ull)max_size);
  if (set_duration > 0) s += strf(",dur=%g", set_duration);
  if (chapters) s += strf(",chapters=%d", chapters);
  if (tags) s += strf(",tags=%d", tags);
  if (codec_delay) s += ",codecdelay";
  if (!block_numbers) s += ",noblocknum";
  s += " tracks=";
  for (auto& t : tracks) s += strf("%c%d%s", "VAS"[t.kind], t.number, t.req ? "!" : "");
  return s;
}
std::string Op::str() const {
  static const char* kn[] = {"", "+add1", "+add4", "+discard", "+negdiscard", "+dur", "+shortdur", "+all", "+ref"};
  switch (t) {
    case FRAME: return strf("F(t%d@%llu%s len%d%s)", track, (ull)ts, key ? " key" : "", len, (kn[kind] + (alen ? strf("=%d", alen) : std::string())).c_str());
    case FORCE: return "ForceCluster";
    case CUE: return "AddCue";
    case BAD: return strf("Bad%d", bad);
  }
  return "";
}
std::string Case::str() const {
  std::string s = cfg.str() + ":";
  for (auto& o : ops) s += " " + o.str();
  return s;
}

FrameRec make_frame(const Case& c, const Op& o, int idx) {
  FrameRec f;
  f.track = c.cfg.tracks[o.track].number;
  f.ts = o.ts;
  f.key = o.key;
  f.op = idx;
  f.payload.resize(o.len);
  for (int i = 0; i < o.len; ++i) f.payload[i] = (char)(idx * 37 + i * 11 + 1);
  auto add = [&](uint64_t id, int n) {
    f.has_add = true;
    f.add_id = id;
    if (o.alen) n = o.alen;
    for (int i = 0; i < n; ++i) f.add += (char)(0xA0 + idx + i + (i >> 8) * 3);
  };
  switch (o.kind) {
    case PLAIN: break;
    case ADD1: add(1, 2); break;
    case ADD4: add(4, 130); break;
    case DISCARD: f.discard = 12345678; break;
    case NEGDISCARD: f.discard = -200; break;
    case DUR: f.dur = 7 * 1000000ull; break;
    case SHORTDUR: f.dur = c.cfg.scale > 1 ? c.cfg.scale / 2 : 1; break;
    case ALLOPT: add(2, 3); f.discard = 128; f.dur = 300 * c.cfg.scale; break;
    case REF: f.discard = 1; break;
    default: break;
  }
  return f;
}

static bool add_frame(mkvmuxer::Segment& seg, const FrameRec& f, const Op& o) {
  const uint8_t* p = reinterpret_cast<const uint8_t*>(f.payload.data());
  const uint8_t* a = reinterpret_cast<const uint8_t*>(f.add.data());
  switch (o.kind) {
    case PLAIN:
      return seg.AddFrame(p, f.payload.size(), f.track, f.ts, f.key);
    case ADD1: case ADD4:
      return seg.AddFrameWithAdditional(p, f.payload.size(), a, f.add.size(), f.add_id, f.track, f.ts, f.key);
    case DISCARD: case NEGDISCARD:
      return seg.AddFrameWithDiscardPadding(p, f.payload.size(), f.discard, f.track, f.ts, f.key);
    case DUR: case SHORTDUR:
      if (f.key) return seg.AddMetadata(p, f.payload.size(), f.track, f.ts, f.dur);
      // fall through
    default: {
      mkvmuxer::Frame fr;
      if (!fr.Init(p, f.payload.size())) return false;
      if (f.has_add && !fr.AddAdditionalData(a, f.add.size(), f.add_id)) return false;
      fr.set_track_number(f.track);
      fr.set_timestamp(f.ts);
      fr.set_is_key(f.key);
      if (f.discard) fr.set_discard_padding(f.discard);
      if (f.dur) fr.set_duration(f.dur);
      if (o.kind == REF && !f.key) fr.set_reference_block_timestamp(f.ts / 2);
      return seg.AddGenericFrame(&fr);
    }
  }
}

// Calls whose arguments are invalid in the current situation.  *applies is cleared if the call would be valid here.
static bool add_bad(mkvmuxer::Segment& seg, const Case& c, int bad, uint64_t last_ts, int frames, bool last_direct, bool tracks, bool* applies) {
  static const uint8_t d[4] = {1, 2, 3, 4};
  *applies = true;
  uint64_t t0 = c.cfg.tracks[0].number;
  switch (bad) {
    case 0: return seg.AddFrame(d, 4, 99, last_ts + 5000000, true);            // unknown track
    case 1: return seg.AddFrame(d, 4, 0, last_ts + 5000000, true);             // track 0
    case 2: return seg.AddFrame(NULL, 4, t0, last_ts + 5000000, true);         // no data
    case 3: return seg.AddFrame(d, 0, t0, last_ts + 5000000, true);            // empty payload
    case 4: { mkvmuxer::Frame f; f.set_track_number(t0); f.set_timestamp(last_ts + 5000000); f.set_is_key(true);
              return seg.AddGenericFrame(&f); }                                  // frame without data
    case 5: return seg.AddGenericFrame(NULL);
    case 6: return seg.AddFrameWithAdditional(d, 4, NULL, 2, 1, t0, last_ts + 5000000, true);
    case 7: return seg.AddFrameWithAdditional(d, 4, d, 0, 1, t0, last_ts + 5000000, true);  // empty addition
    case 8: if (!tracks) { *applies = false; return false; }
            return seg.AddVideoTrack(64, 64, (int)t0) != 0;                    // number in use
    case 9: return seg.AddAudioTrack(8000, 1, 127) != 0;                       // number out of range
    case 10: return seg.AddTrack(-1) != NULL;
    case 11: return seg.AddFrameWithDiscardPadding(d, 4, 5, 99, last_ts, true);  // unknown track, v4 feature
    case 12: if (!last_direct || last_ts == 0) { *applies = false; return false; }
             return seg.AddFrame(d, 4, t0, last_ts - 1, true);                 // time runs backwards
    case 13: if (frames) { *applies = false; return false; }
             return seg.AddCuePoint(5000000, t0);                              // nothing to point at
    case 14: return seg.CuesTrack(99);                                         // unknown track
    case 15: if (!frames) { *applies = false; return false; }
             return seg.AddAudioTrack(8000, 1, 0) != 0;                        // tracks already written
    case 16: return seg.SetChunking(true, NULL);
    case 17: return seg.AddVideoTrack(16, 16, 128) != 0;
    case 18: return seg.AddMetadata(NULL, 4, t0, last_ts + 5000000, 10);
    case 19: return seg.AddMetadata(d, 0, t0, last_ts + 5000000, 10);
    case 20: return seg.AddFrameWithDiscardPadding(d, 0, 5, t0, last_ts + 5000000, true);
    case 21: return seg.AddFrameWithAdditional(d, 0, d, 2, 1, t0, last_ts + 5000000, true);
    case 22: return seg.AddFrame(d, 4, 127, last_ts + 40000000000ull, true);   // unknown track, far ahead
    case 23: { mkvmuxer::Frame f; f.Init(d, 4); f.set_timestamp(last_ts); return seg.AddGenericFrame(&f); }
  }
  return false;
}

void run(const Case& c, MemWriter& w, Result* r, int go, Hooks* h) {
  w.seekable = c.cfg.seekable;
  mkvmuxer::Segment seg;
  auto note = [&](bool ok) {
    r->rc.push_back(ok);
    mc::tick();
    if (!ok) {
      r->all_ok = false;
      if (w.faulted) r->any_fail_after_fault = true;
    }
    return ok;
  };
  if (!note(seg.Init(&w))) return;
  r->init_ok = true;
  seg.set_mode(c.cfg.live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
  seg.OutputCues(c.cfg.cues);
  seg.AccurateClusterDuration(c.cfg.accurate);
  seg.UseFixedSizeClusterTimecode(c.cfg.fixed);
  if (c.cfg.max_dur != 30000000000ull) seg.set_max_cluster_duration(c.cfg.max_dur);
  if (c.cfg.max_size) seg.set_max_cluster_size(c.cfg.max_size);
  if (c.cfg.estimate) seg.set_estimate_file_duration(true);
  if (c.cfg.set_duration > 0) seg.set_duration(c.cfg.set_duration);
  seg.GetSegmentInfo()->set_timecode_scale(c.cfg.scale);
  seg.GetSegmentInfo()->set_muxing_app("m");
  seg.GetSegmentInfo()->set_writing_app("w");
  size_t op = 0;
  int nframes = 0;
  bool last_direct = false, has_video = false, tracks_added = false;
  for (auto& t : c.cfg.tracks) has_video |= t.kind == TV;
  auto bad = [&](const Op& o, uint64_t last) {
    if (o.bad < 0) return;   // placeholder: call left out
    bool applies = true;
    bool ok = add_bad(seg, c, o.bad, last, nframes, last_direct, tracks_added, &applies);
    if (!applies) return;
    ++r->bad_calls;
    mc::tick();
    if (ok) FAIL("invalid call %d was accepted", o.bad);
  };
  // leading BAD operations with ts==1 run before any track exists
  while (op < c.ops.size() && c.ops[op].t == Op::BAD && c.ops[op].ts == 1) { bad(c.ops[op], 0); ++op; }
  for (size_t i = 0; i < c.cfg.tracks.size(); ++i) {
    const TrackDef& t = c.cfg.tracks[i];
    uint64_t n = 0;
    if (t.kind == TV) n = seg.AddVideoTrack(320, 240, t.req);
    else if (t.kind == TA) n = seg.AddAudioTrack(48000, 2, t.req);
    else {
      mkvmuxer::Track* tr = seg.AddTrack(t.req);
      if (tr) { n = tr->number(); tr->set_type(0x11); tr->set_codec_id("D_WEBVTT/SUBTITLES"); }
    }
    note(n != 0);
    if (n != (uint64_t)t.number) FAIL("track %zu got number %llu, expected %d", i, (ull)n, t.number);
    mkvmuxer::Track* tr = seg.GetTrackByNumber(n);
    tr->set_uid(1000 + i);
    if (c.cfg.codec_delay && i == 0) tr->set_codec_delay(80);
  }
  tracks_added = true;
  for (int i = 0; i < c.cfg.chapters; ++i) {
    mkvmuxer::Chapter* ch = seg.AddChapter();
    note(ch != NULL);
    if (ch) { ch->set_id("c"); ch->set_uid(77 + i); ch->set_time(seg, 0, 1000000000ull); ch->add_string("t", "en", "us"); }
  }
  for (int i = 0; i < c.cfg.tags; ++i) {
    mkvmuxer::Tag* tag = seg.AddTag();
    note(tag != NULL);
    if (tag) tag->add_simple_tag("n", "v");
  }
  if (c.cfg.cues_track) {
    note(seg.CuesTrack(c.cfg.tracks[c.cfg.cues_track - 1].number));
  }
  if (!c.cfg.block_numbers) seg.GetCues()->set_output_block_number(false);
  if (h && h->before_header) h->before_header(seg);
  bool forced = false;
  uint64_t last_ts = 0, last_track = 0;
  bool failed = false;
  for (; op < c.ops.size(); ++op) {
    const Op& o = c.ops[op];
    if (o.t == Op::FORCE) { seg.ForceNewClusterOnNextFrame(); forced = true; mc::tick(); continue; }
    if (o.t == Op::BAD) { bad(o, last_ts); continue; }
    if (o.t == Op::CUE) {
      if (!last_track) continue;
      bool ok = note(seg.AddCuePoint(last_ts, last_track));
      if (ok) r->user_cues.push_back({last_ts, last_track});
      if (!ok && r->first_fail_op < 0) r->first_fail_op = (int)op;
    } else {
      FrameRec f = make_frame(c, o, (int)op);
      f.forced = forced;
      bool ok = note(add_frame(seg, f, o));
      if (!ok && go == 3) ok = note(add_frame(seg, f, o));   // retry once
      if (ok) { r->accepted.push_back(f); 
        last_direct = !(has_video && c.cfg.tracks[o.track].kind == TA) || forced;
        forced = false; last_ts = f.ts; last_track = f.track; ++nframes; }
      else if (r->first_fail_op < 0) r->first_fail_op = (int)op;
    }
    if (!r->rc.back()) {
      failed = true;
      if (go == 2) return;
      if (go == 1) break;
    }
  }
  (void)failed;
  r->fin_ok = note(seg.Finalize());
  if (!r->fin_ok && (go == 0 || go == 3)) note(seg.Finalize());
  if (h && h->after_finalize) h->after_finalize(seg, w);
}

std::string view(const Bytes& b, View* v) {
  std::string e = eb::read_doc(b, &v->root);
  if (!e.empty()) return e;
  auto segs = v->root.all(eb::Segment);
  auto ebml = v->root.all(eb::EBML);
  if (segs.size() != 1 || ebml.size() != 1 || v->root.kids.size() != 2 || v->root.kids[0].id != eb::EBML)
    return "document is not one EBML header followed by one segment";
  v->seg = segs[0];
  for (auto* cl : v->seg->all(eb::Cluster)) {
    OCluster oc;
    oc.tc = cl->find(eb::Timecode)->u();
    if (cl->kids[0].id != eb::Timecode) return "cluster does not start with its timecode";
    oc.pos = cl->pos;
    oc.body = cl->body();
    oc.end = cl->end();
    oc.unknown = cl->unknown;
    for (auto& k : cl->kids) {
      OBlock ob;
      const eb::Node* blk = nullptr;
      if (k.id == eb::SimpleBlock) { blk = &k; ob.group = false; }
      else if (k.id == eb::BlockGroup) { blk = k.find(eb::Block); ob.group = true; }
      else continue;
      eb::BlockData bd;
      e = eb::read_block(blk->data, &bd);
      if (!e.empty()) return e;
      if (bd.lacing) return "laced block";
      ob.track = bd.track;
      ob.rel = bd.rel;
      if (bd.rel < 0 && (uint64_t)-bd.rel > oc.tc) return "block before time zero";
      ob.tc = oc.tc + bd.rel;
      ob.payload = bd.frames[0];
      ob.pos = k.pos;
      ob.end = k.end();
      if (!ob.group) {
        ob.key = bd.flags & 0x80;
        if (bd.flags & 0x7f) return strf("simple block flags %02x", bd.flags);
      } else {
        if (bd.flags) return strf("block flags %02x", bd.flags);
        ob.key = k.find(eb::ReferenceBlock) == nullptr;
        if (auto* a = k.find(eb::BlockAdditions)) {
          auto more = a->all(eb::BlockMore);
          if (more.size() != 1) return "more than one block addition";
          ob.has_add = true;
          ob.add = more[0]->find(eb::BlockAdditional)->data;
          if (auto* id = more[0]->find(eb::BlockAddID)) ob.add_id = id->u();
        }
        if (auto* d = k.find(eb::DiscardPadding)) { ob.has_discard = true; ob.discard = d->i(); }
        if (auto* d = k.find(eb::BlockDuration)) { ob.has_dur = true; ob.dur = d->u(); }
      }
      ob.cluster = (int)v->clusters.size();
      ob.index = (int)oc.blocks.size();
      oc.blocks.push_back(ob);
    }
    v->clusters.push_back(oc);
  }
  return "";
}

void check_frames(const Case& c, const Result& r, const View& v) {
  std::map<uint64_t, std::vector<const OBlock*>> got;
  std::map<uint64_t, std::vector<const FrameRec*>> want;
  size_t n = 0;
  for (auto& cl : v.clusters) for (auto& b : cl.blocks) { got[b.track].push_back(&b); ++n; }
  for (auto& f : r.accepted) want[f.track].push_back(&f);
  if (n != r.accepted.size()) FAIL("%zu frames accepted, %zu blocks in the output", r.accepted.size(), n);
  for (auto& w : want) {
    auto& g = got[w.first];
    if (g.size() != w.second.size())
      FAIL("track %llu: %zu frames accepted, %zu in the output", (ull)w.first, w.second.size(), g.size());
    for (size_t i = 0; i < g.size(); ++i) {
      const FrameRec& f = *w.second[i];
      const OBlock& b = *g[i];
      ull t = w.first;
      if (b.payload != f.payload) FAIL("track %llu frame %zu: payload differs (op %d)", t, i, f.op);
      if (b.tc != f.ts / c.cfg.scale) FAIL("track %llu frame %zu: timecode %llu, expected %llu", t, i, (ull)b.tc, (ull)(f.ts / c.cfg.scale));
      if (b.key != f.key) FAIL("track %llu frame %zu: key %d, expected %d", t, i, b.key, f.key);
      if (b.has_add != f.has_add || (b.has_add && (b.add != f.add || b.add_id != f.add_id)))
        FAIL("track %llu frame %zu: block addition differs (id %llu, expected %llu)", t, i, (ull)b.add_id, (ull)f.add_id);
      if (b.discard != f.discard) FAIL("track %llu frame %zu: discard padding %lld, expected %lld", t, i, (long long)b.discard, (long long)f.discard);
      uint64_t wd = f.dur / c.cfg.scale;
      if (f.dur > 0) {
        if (b.dur != wd) FAIL("track %llu frame %zu: duration %llu, expected %llu", t, i, (ull)b.dur, (ull)wd);
      } else if (b.has_dur) {
        if (!c.cfg.accurate) FAIL("track %llu frame %zu: duration %llu, none was given", t, i, (ull)b.dur);
        // accurate mode: only the last frame of the track in a cluster that is not the last, and it
        // ends where the next cluster's triggering frame starts.
        bool last_in_cluster = i + 1 == g.size() || g[i + 1]->cluster != b.cluster;
        if (!last_in_cluster || b.cluster + 1 >= (int)v.clusters.size())
          FAIL("track %llu frame %zu: unexpected duration %llu", t, i, (ull)b.dur);
        if (b.dur > 1ull << 40) FAIL("track %llu frame %zu: absurd duration %llu", t, i, (ull)b.dur);
      }
    }
  }
}

void check_structure(const Case& c, const MemWriter& w, const View& v) {
  if (!w.defect.empty()) FAIL("%s", w.defect.c_str());
  const eb::Node& seg = *v.seg;
  bool patched = c.cfg.seekable && !c.cfg.live;
  if (patched) {
    if (seg.unknown) FAIL("segment size left unknown in a finalised seekable file");
    for (auto& cl : v.clusters) if (cl.unknown) FAIL("cluster size left unknown in a finalised seekable file");
  }
  if (!c.cfg.seekable) {
    if (!seg.unknown) FAIL("segment of a non-seekable output claims a size");
    for (auto& cl : v.clusters) if (!cl.unknown) FAIL("cluster of a non-seekable output claims a size");
  }
  const eb::Node* h = v.root.find(eb::EBML);
  auto u = [&](uint32_t id) { auto* n = h->find(id); return n ? n->u() : 1; };
  if (u(eb::EBMLVersion) != 1 || u(eb::EBMLReadVersion) != 1 || u(eb::EBMLMaxIDLength) != 4 || u(eb::EBMLMaxSizeLength) != 8)
    FAIL("EBML header values");
  if (h->find(eb::DocType)->data != "webm") FAIL("doc type %s", h->find(eb::DocType)->data.c_str());
  auto* tr = seg.find(eb::Tracks);
  if (!tr) FAIL("no tracks element");
  auto te = tr->all(eb::TrackEntry);
  if (te.size() != c.cfg.tracks.size()) FAIL("%zu track entries", te.size());
  for (size_t i = 0; i < te.size(); ++i) {
    if (te[i]->find(eb::TrackNumber)->u() != (uint64_t)c.cfg.tracks[i].number) FAIL("track number");
    if (te[i]->find(eb::TrackUID)->u() != 1000 + i) FAIL("track uid");
    uint64_t ty = c.cfg.tracks[i].kind == TV ? 1 : c.cfg.tracks[i].kind == TA ? 2 : 0x11;
    if (te[i]->find(eb::TrackType)->u() != ty) FAIL("track type");
    if (c.cfg.tracks[i].kind == TV && !te[i]->find(eb::Video)) FAIL("no video element");
    if (c.cfg.tracks[i].kind == TA && !te[i]->find(eb::Audio)) FAIL("no audio element");
  }
  // order: info and tracks precede the first cluster; nothing but clusters, cues after it
  bool seen_cluster = false;
  for (auto& k : seg.kids) {
    if (k.id == eb::Cluster) seen_cluster = true;
    else if (seen_cluster && k.id != eb::Cues) FAIL("%s after a cluster", eb::name_of(k.id));
  }
  if (c.cfg.live && (seg.find(eb::Cues) || seg.find(eb::SeekHead))) FAIL("index in a live stream");
  auto ch = seg.find(eb::Chapters);
  if ((c.cfg.chapters > 0) != (ch != nullptr)) FAIL("chapters element");
  if ((c.cfg.tags > 0) != (seg.find(eb::Tags) != nullptr)) FAIL("tags element");
  auto* info = seg.find(eb::Info);
  auto* ts = info->find(eb::TimecodeScale);
  if ((ts ? ts->u() : 1000000) != c.cfg.scale) FAIL("timecode scale");
  for (auto& cl : v.clusters) if (cl.blocks.empty()) FAIL("empty cluster");
}

void check_index(const Case& c, const Result& r, const View& v, bool cues_first) {
  const eb::Node& seg = *v.seg;
  bool file = !c.cfg.live;
  const eb::Node* cues = seg.find(eb::Cues);
  if (!file) return;
  if (!c.cfg.cues && cues) FAIL("cues written although disabled");
  if (c.cfg.seekable) {
    auto sh = seg.find(eb::SeekHead);
    if (!sh) FAIL("no seek head");
    std::map<uint32_t, uint64_t> ent;
    for (auto* s : sh->all(eb::Seek)) {
      const Bytes& idb = s->find(eb::SeekID)->data;
      uint32_t id = (uint32_t)eb::dec_uint(idb);
      if (eb::enc_id(id) != idb) FAIL("seek id encoding");
      uint64_t p = s->find(eb::SeekPosition)->u() + seg.body();
      if (ent.count(id)) FAIL("two seek entries for %s", eb::name_of(id));
      ent[id] = p;
      const eb::Node* t = nullptr;
      for (auto& k : seg.kids) if (k.pos == p) t = &k;
      if (!t || t->id != id) FAIL("seek entry for %s points at %llu, where there is %s", eb::name_of(id), (ull)p, t ? eb::name_of(t->id) : "no element");
    }
    for (uint32_t id : {eb::Info, eb::Tracks, eb::Chapters, eb::Tags, eb::Cluster, eb::Cues}) {
      const eb::Node* first = seg.find(id);
      if (first && !ent.count(id)) FAIL("%s not in the seek head", eb::name_of(id));
      if (first && ent[id] != first->pos) FAIL("seek entry for %s is not the first one", eb::name_of(id));
    }
  }
  if (!c.cfg.cues) return;
  // cue track
  uint64_t ct = 0;
  if (c.cfg.cues_track) ct = c.cfg.tracks[c.cfg.cues_track - 1].number;
  else {
    for (auto& t : c.cfg.tracks) if (t.kind == TV) { ct = t.number; break; }
    if (!ct) ct = c.cfg.tracks[0].number;
  }
  bool any_cue_frame = !r.user_cues.empty();
  for (auto& f : r.accepted) any_cue_frame |= f.track == ct;
  if (any_cue_frame && !cues) FAIL("no cues written");
  if (!cues) return;
  uint64_t prev = 0;
  std::set<std::pair<int, int>> hit;
  std::multiset<std::pair<uint64_t, uint64_t>> times;
  for (auto* cp : cues->all(eb::CuePoint)) {
    uint64_t t = cp->find(eb::CueTime)->u();
    if (t < prev) FAIL("cue times decrease (%llu after %llu)", (ull)t, (ull)prev);
    prev = t;
    auto tps = cp->all(eb::CueTrackPositions);
    if (tps.size() != 1) FAIL("cue point with %zu positions", tps.size());
    uint64_t track = tps[0]->find(eb::CueTrack)->u();
    uint64_t pos = tps[0]->find(eb::CueClusterPosition)->u() + seg.body();
    auto* bn = tps[0]->find(eb::CueBlockNumber);
    if (bn && !c.cfg.block_numbers) FAIL("cue block number written although disabled");
    if (bn && bn->u() == 0) FAIL("cue block number 0");
    const OCluster* cl = nullptr;
    for (auto& x : v.clusters) if (x.pos == pos) cl = &x;
    if (!cl) FAIL("cue at %llu points at %llu, where no cluster starts", (ull)t, (ull)pos);
    bool any = false;
    for (auto& b : cl->blocks) if (b.track == track && b.tc == t) { any = true; }
    if (!any) FAIL("cue (track %llu time %llu): no such block in its cluster", (ull)track, (ull)t);
    if (c.cfg.block_numbers) {
      uint64_t k = bn ? bn->u() : 1;
      bool good = k <= cl->blocks.size() && cl->blocks[k - 1].track == track && cl->blocks[k - 1].tc == t;
      if (!good) {
        // K1: frames held back when the cue was made are not counted, so the number is too low, never too high
        bool low = c.cfg.accurate && !bn;
        for (size_t j = k; c.cfg.accurate && j < cl->blocks.size(); ++j) low |= cl->blocks[j].track == track && cl->blocks[j].tc == t;
        if (low) mc::known("C03", "K1", "with accurate cluster duration the block number of a cue point does not account for frames held back by the cluster");
        else FAIL("cue (track %llu time %llu): block number %llu does not name it", (ull)track, (ull)t, (ull)k);
      } else hit.insert({(int)(cl - &v.clusters[0]), (int)k - 1});
    }
    times.insert({t, track});
  }
  for (auto& cl : v.clusters) {
    // A cue added by the application stands in for the automatic one of its cluster.
    bool own = false;
    for (auto& u : r.user_cues)
      for (auto& b : cl.blocks) own |= b.track == u.second && b.tc == u.first / c.cfg.scale;
    if (own) continue;
    for (auto& b : cl.blocks) if (b.track == ct) {
      if (!times.count({b.tc, ct})) FAIL("no cue for the first block of track %llu in the cluster at %llu", (ull)ct, (ull)cl.tc);
      if (c.cfg.block_numbers && !c.cfg.accurate && !hit.count({b.cluster, b.index}))
        FAIL("no cue names the first block of track %llu in the cluster at %llu", (ull)ct, (ull)cl.tc);
      break;
    }
  }
  for (auto& u : r.user_cues)
    if (!times.count({u.first / c.cfg.scale, u.second})) FAIL("requested cue at %llu missing", (ull)u.first);
  (void)cues_first;
}

void check_clusters(const Case& c, const Result& r, const View& v) {
  const std::vector<OCluster>& cls = v.clusters;
  for (size_t i = 0; i < cls.size(); ++i) {
    if (cls[i].blocks.empty()) FAIL("cluster %zu is empty", i);
    if (i && cls[i].tc < cls[i - 1].tc) FAIL("cluster times decrease");
    for (auto& b : cls[i].blocks) if (b.rel < 0) FAIL("block earlier than its cluster");
  }
  // locate each accepted frame
  std::map<uint64_t, size_t> idx;
  std::map<uint64_t, std::vector<const OBlock*>> by;
  for (auto& cl : cls) for (auto& b : cl.blocks) by[b.track].push_back(&b);
  std::vector<const OBlock*> loc;
  for (auto& f : r.accepted) {
    auto& g = by[f.track];
    size_t k = idx[f.track]++;
    if (k >= g.size() || g[k]->payload != f.payload) FAIL("frame of op %d not found", f.op);
    loc.push_back(g[k]);
    if (cls[g[k]->cluster].tc + g[k]->rel != f.ts / c.cfg.scale) FAIL("block offset of op %d is not relative to its cluster", f.op);
  }
  bool has_video = false;
  for (auto& t : c.cfg.tracks) has_video |= t.kind == TV;
  auto kind = [&](uint64_t n) { for (auto& t : c.cfg.tracks) if ((uint64_t)t.number == n) return t.kind; return TS; };
  // Frames that are written when they are added (not held back as audio).
  int prev_direct = -1;
  for (size_t i = 0; i < r.accepted.size(); ++i) {
    const FrameRec& f = r.accepted[i];
    const OBlock& b = *loc[i];
    bool audio_q = has_video && kind(f.track) == TA;
    bool video_key = kind(f.track) == TV && f.key;
    if (f.forced) {
      // boundary takes effect at this frame: everything added earlier is in an earlier cluster,
      // except held-back audio, which may open the new cluster
      for (size_t j = 0; j < i; ++j)
        if (loc[j]->cluster == b.cluster && !(has_video && kind(r.accepted[j].track) == TA))
          FAIL("requested cluster boundary before op %d had no effect", f.op);
    }
    if (audio_q && !f.forced) continue;
    if (prev_direct >= 0) {
      const OBlock& p = *loc[prev_direct];
      bool same = p.cluster == b.cluster;
      uint64_t tc = f.ts / c.cfg.scale;
      uint64_t ptc = cls[p.cluster].tc;
      bool far = tc - ptc > 32767;
      bool dur = c.cfg.max_dur && (tc - ptc) * c.cfg.scale >= c.cfg.max_dur;
      uint64_t payload = p.end - cls[p.cluster].body;
      bool size = c.cfg.max_size && payload >= c.cfg.max_size;
      if (video_key && same) FAIL("video keyframe of op %d continues a cluster", f.op);
      if (far && same) FAIL("op %d too far from its cluster", f.op);
      if (dur && same) FAIL("maximum cluster duration exceeded by op %d", f.op);
      if (size && same && !c.cfg.accurate) FAIL("maximum cluster size exceeded before op %d (%llu)", f.op, (ull)payload);
      bool held_far = false;   // an audio frame added in between may itself have needed a new cluster
      for (size_t j = prev_direct + 1; j < i; ++j)
        if (r.accepted[j].ts / c.cfg.scale - ptc > 32767) held_far = true;
      if (!same && !video_key && !far && !dur && !f.forced && !held_far && !(c.cfg.max_size && (size || c.cfg.accurate)))
        FAIL("needless cluster boundary before op %d", f.op);
      if (b.cluster < p.cluster) FAIL("op %d written to an earlier cluster", f.op);
    }
    prev_direct = (int)i;
  }
}

void check_info(const Case& c, const Result& r, const View& v) {
  const eb::Node* h = v.root.find(eb::EBML);
  uint64_t ver = h->find(eb::DocTypeVersion) ? h->find(eb::DocTypeVersion)->u() : 1;
  uint64_t rver = h->find(eb::DocTypeReadVersion) ? h->find(eb::DocTypeReadVersion)->u() : 1;
  bool patched = c.cfg.seekable && !c.cfg.live;
  // every feature the muxer can write is covered by version 4, and that is what it states
  if (ver != 4) FAIL("document version %llu, expected 4", (ull)ver);
  if (rver > ver) FAIL("read version %llu above version %llu", (ull)rver, (ull)ver);
  if (rver != 2) FAIL("read version %llu", (ull)rver);
  const eb::Node* d = v.seg->find(eb::Info)->find(eb::Duration);
  if (!patched) {
    if (d) FAIL("duration in an output that cannot be patched");
    return;
  }
  if (!d) FAIL("no duration");
  std::vector<double> ok;
  if (c.cfg.set_duration > 0) ok.push_back(c.cfg.set_duration);
  else {
    uint64_t last = 0;
    for (auto& f : r.accepted) last = std::max(last, f.ts);
    std::map<uint64_t, std::pair<int, uint64_t>> per;
    for (auto& f : r.accepted) { per[f.track].first++; per[f.track].second = std::max(per[f.track].second, f.ts); }
    for (auto& f : r.accepted) {
      if (f.ts != last) continue;
      double dur = ((double)last + f.dur) / c.cfg.scale;
      if (c.cfg.estimate && f.dur == 0) {
        for (auto& p : per) {
          if (p.second.first < 2) continue;
          double t = (double)p.second.second;
          double e = (t + t / (p.second.first - 1)) / c.cfg.scale;
          if (e > dur) dur = e;
        }
      }
      ok.push_back(dur);
    }
  }
  double got = d->f();
  // nothing but zero-time frames: the placeholder duration may remain
  for (double x : ok) {
    if (x == 0.0) return;
    float fx = (float)x;
    if (std::fabs(got - fx) <= 1e-6 * std::fabs(fx)) return;
  }
  FAIL("segment duration %.9g, expected %.9g", got, ok.empty() ? -1.0 : ok[0]);
}

Case gen(mc::Chooser& c, const Profile& p) {
  Case k;
  Cfg& g = k.cfg;
  c.set_budget(p.budget);
  // --- track layout (always explored) ---
  switch (c.pick(4)) {
    case 0: g.tracks = {{TV, 1, 0}, {TA, 2, 0}}; break;
    case 1: g.tracks = {{TV, 1, 0}}; break;
    case 2: g.tracks = {{TA, 1, 0}, {TV, 2, 0}}; break;
    case 3: g.tracks = {{TA, 1, 0}}; break;
  }
  switch (c.dev(4)) {
    case 1: g.tracks.push_back({TS, (int)g.tracks.size() + 1, 0}); break;
    case 2: for (auto& t : g.tracks) { t.number = t.number * 5 + 2; t.req = t.number; } break;
    case 3: {
      g.tracks.push_back({g.tracks[0].kind, 126, 126});
      break;
    }
  }
  // --- configuration deviations ---
  g.live = c.dev(2);
  g.seekable = !c.dev(2);
  g.accurate = c.dev(2);
  g.fixed = c.dev(2);
  g.estimate = c.dev(2);
  g.cues = !c.dev(2);
  static const uint64_t scales[] = {1000000, 1000, 333333, 1000000000, 1};
  g.scale = scales[c.dev(p.wide ? 5 : 4)];
  static const uint64_t durs[] = {30000000000ull, 10000000, 0, 25000000, 1};
  g.max_dur = durs[c.dev(p.wide ? 5 : 3)];
  static const uint64_t sizes[] = {0, 1, 40};
  g.max_size = sizes[c.dev(3)];
  int hdr = c.dev(6);
  if (hdr == 1) g.chapters = 1;
  if (hdr == 2) g.tags = 1;
  if (hdr == 3) { g.chapters = 2; g.tags = 3; }
  if (hdr == 4) g.codec_delay = true;
  if (hdr == 5) g.set_duration = 1234.5;
  int ctr = c.dev((int)g.tracks.size() + 2);
  if (ctr >= 1 && ctr <= (int)g.tracks.size()) g.cues_track = ctr;
  else if (ctr) g.block_numbers = false;

  // --- operations ---
  static const uint64_t starts[] = {0, 20000000, 70000000000ull, 1099511627776000000ull};
  uint64_t t = starts[c.dev(4)];
  std::vector<std::pair<int, bool>> sym;   // (track index, key)
  for (size_t i = 0; i < g.tracks.size(); ++i) {
    sym.push_back({(int)i, true});
    if (g.tracks[i].kind == TV) sym.push_back({(int)i, false});
  }
  int vi = -1, ai = -1;
  for (size_t i = 0; i < g.tracks.size(); ++i) {
    if (g.tracks[i].kind == TV && vi < 0) vi = (int)i;
    if (g.tracks[i].kind == TA && ai < 0) ai = (int)i;
  }
  if (p.bad_ops) {
    int b = c.dev(1 + NBAD);
    if (b) { Op q; q.t = Op::BAD; q.bad = b - 1; q.ts = 1; k.ops.push_back(q); }
  }
  if (p.period) {
    static const int counts[] = {6, 9, 17, 34, 65, 130, 300};
    int n = counts[c.pick(p.wide ? 7 : 6)], per = 1 + c.pick(p.period);
    if (!c.mine()) return k;
    std::vector<std::pair<std::pair<int, bool>, uint64_t>> pat;
    for (int i = 0; i < per; ++i) {
      auto sy = sym[c.pick((int)sym.size())];
      pat.push_back({sy, c.flag() ? 10000000ull : 0ull});
    }
    int sp = c.dev(4), kd = sp ? 1 + c.pick(NKINDS - 1) : 0, fc = c.dev(4), cu = c.dev(3);
    for (int i = 0; i < n; ++i) {
      Op o;
      auto& q = pat[i % per];
      o.track = q.first.first;
      o.key = q.first.second;
      if (i) t += q.second;
      o.ts = t;
      if (sp == 1 || (sp == 2 && i == n / 2) || (sp == 3 && i == n - 1)) o.kind = (Kind)kd;
      if (fc == 1 || (fc == 2 && i % 5 == 4) || (fc == 3 && i == n - 1)) { Op f; f.t = Op::FORCE; k.ops.push_back(f); }
      k.ops.push_back(o);
      if (cu && g.tracks[o.track].kind != TA && (cu == 1 || i == n - 1)) { Op f; f.t = Op::CUE; k.ops.push_back(f); }
    }
    return k;
  }
  if (p.sizes) {
    static const int bounds[] = {118, 126, 127, 16374, 16383, 2097143, 2097151, 65536};
    bool ad = p.sizes >= 3;
    int b = p.sizes == 1 ? c.pick(5) : p.sizes == 2 ? 5 + c.pick(2) : p.sizes == 3 ? c.pick(5) : 5 + c.pick(3);
    int off = c.pick(ad ? 20 : b == 1 || b == 2 ? 5 : 12) - (ad ? 12 : 0), where = c.pick(2), kd = ad ? (c.flag() ? ALLOPT : ADD1) : c.pick(NKINDS);
    if (!c.mine()) return k;
    for (int i = 0; i < 3; ++i) {
      Op o;
      o.track = vi >= 0 && (i != 1 || ai < 0) ? vi : ai;
      o.key = i == 0 || g.tracks[o.track].kind == TA;
      o.ts = t + i * 10000000ull;
      if (i == where) { (ad ? o.alen : o.len) = bounds[b] + off - 4; o.kind = (Kind)kd; }
      k.ops.push_back(o);
    }
    return k;
  }
  for (int i = 0; i < p.len; ++i) {
    Op o;
    uint64_t step = 10000000;
    if (p.free_ops) {
      auto s = sym[c.pick((int)sym.size())];
      o.track = s.first;
      o.key = s.second;
      if (c.flag()) step = 0;
    } else {
      // default stream: key, audio, delta, audio, delta, audio, key, ...
      int ph = i % 6;
      if (vi >= 0 && (ai < 0 || ph % 2 == 0)) { o.track = vi; o.key = ph == 0; }
      else { o.track = ai; o.key = true; }
      int d = c.dev((int)sym.size());
      if (d) { auto s = sym[d]; o.track = s.first; o.key = s.second; }
    }
    static const uint64_t steps[] = {0, 1, 333333, 33333333, 32767000000ull, 32768000000ull, 70000000000ull};
    int sd = c.dev(p.free_ops ? 5 : 8);
    if (sd) step = p.free_ops ? steps[(sd == 1 ? 2 : sd == 2 ? 3 : sd == 3 ? 4 : 6)] : steps[sd - 1];
    uint64_t base = t;
    if (i > 0) t += step;
    (void)base;
    o.ts = t;
    if (p.disorder && g.tracks[o.track].kind == TA) {
      int back = c.dev(3);
      if (back) { uint64_t delta = back == 1 ? 5000000 : 15000000; o.ts = t > delta ? t - delta : 0; }
    }
    if (g.tracks[o.track].kind != TV && c.dev(2)) o.key = false;
    o.kind = (Kind)c.dev(NKINDS);
    static const int lens[] = {3, 1, 122, 123, 16379};
    o.len = lens[c.dev(p.free_ops ? 3 : 5)];
    // extra calls before / after
    int x = c.dev(3);
    if (p.bad_ops) {
      int nb = 1 + NBAD;
      int b = c.dev(nb);
      if (b) { Op q; q.t = Op::BAD; q.bad = b - 1; k.ops.push_back(q); }
    }
    if (x == 1) { Op q; q.t = Op::FORCE; k.ops.push_back(q); }
    k.ops.push_back(o);
    if (x == 2 && g.tracks[o.track].kind != TA) { Op q; q.t = Op::CUE; k.ops.push_back(q); }
  }
  if (p.bad_ops) {
    int b = c.dev(1 + NBAD);
    if (b) { Op q; q.t = Op::BAD; q.bad = b - 1; k.ops.push_back(q); }
  }
  return k;
}
}  // namespace mx
