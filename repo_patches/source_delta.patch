From 40405f6cca9d0b6dd71dbc46144f293739e9b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:14 +0000
Subject: [PATCH 001/107] fix: let the seek head index chapters, tags and cues
 together

Six kinds of element are indexed but only five entries were available, so
finalising a file with chapters, tags and cues failed. The reserved space is
unchanged.
---
 mkvmuxer/mkvmuxer.cc |  4 ++--
 mkvmuxer/mkvmuxer.h  | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..d4371c0 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2810,7 +2810,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
       }
     }
 
-    const uint64_t total_entry_size = kSeekEntryCount * MaxEntrySize();
+    const uint64_t total_entry_size = kReservedEntryCount * MaxEntrySize();
     const uint64_t total_size =
         EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
         total_entry_size;
@@ -2828,7 +2828,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
 }
 
 bool SeekHead::Write(IMkvWriter* writer) {
-  const uint64_t entry_size = kSeekEntryCount * MaxEntrySize();
+  const uint64_t entry_size = kReservedEntryCount * MaxEntrySize();
   const uint64_t size =
       EbmlMasterElementSize(libwebm::kMkvSeekHead, entry_size);
 
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..bc33833 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1424,10 +1424,16 @@ class SeekHead {
   // a SeekHead element later. Returns true on success.
   bool Write(IMkvWriter* writer);
 
-  // We are going to put a cap on the number of Seek Entries.
-  constexpr static int32_t kSeekEntryCount = 5;
+  // We are going to put a cap on the number of Seek Entries: Info, Tracks,
+  // Chapters, Tags, Cluster and Cues.
+  constexpr static int32_t kSeekEntryCount = 6;
 
  private:
+  // The number of maximum-size seek entries that space is reserved for. Most
+  // positions are encoded in far fewer than 8 bytes, so |kSeekEntryCount|
+  // entries fit in it.
+  constexpr static int32_t kReservedEntryCount = 5;
+
   // Returns the maximum size in bytes of one seek entry.
   uint64_t MaxEntrySize() const;
 
-- 
2.43.0


From e8d426c747080f762de355fd92fe1c19d0be3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:14 +0000
Subject: [PATCH 002/107] fix: write queued audio when no video frame was ever
 added

---
 mkvmuxer/mkvmuxer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index d4371c0..12274b5 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3227,6 +3227,13 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
 }
 
 bool Segment::Finalize() {
+  // If no video frame was ever added the queued audio frames still need a
+  // cluster.
+  if (frames_size_ > 0 && cluster_list_size_ < 1 &&
+      !MakeNewCluster(frames_[0]->timestamp())) {
+    return false;
+  }
+
   if (WriteFramesAll() < 0)
     return false;
 
-- 
2.43.0


From ea8d5c2670d5b2e26836702582eb52f6f1f7ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:15 +0000
Subject: [PATCH 003/107] fix: do not write an empty Cues element

---
 mkvmuxer/mkvmuxer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 12274b5..1b64b43 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3284,7 +3284,10 @@ bool Segment::Finalize() {
     if (!segment_info_.Finalize(writer_header_))
       return false;
 
-    if (output_cues_)
+    // A Cues element must not be empty.
+    const bool write_cues = output_cues_ && cues_.cue_entries_size() > 0;
+
+    if (write_cues)
       if (!seek_head_.AddSeekEntry(libwebm::kMkvCues, MaxOffset()))
         return false;
 
@@ -3305,7 +3308,7 @@ bool Segment::Finalize() {
     cluster_end_offset_ = writer_cluster_->Position();
 
     // Write the seek headers and cues
-    if (output_cues_)
+    if (write_cues)
       if (!cues_.Write(writer_cues_))
         return false;
 
-- 
2.43.0


From bc0e07908403ae1fbbcb6e0199c762222654c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:15 +0000
Subject: [PATCH 004/107] fix: start a new cluster whenever a block offset
 would overflow

Queued audio pulled the cluster start back, after which a valid frame more
than 32767 ticks later was refused; a frame earlier than the cluster was
treated as far ahead of it.
---
 mkvmuxer/mkvmuxer.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 1b64b43..7663dda 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3528,15 +3528,18 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
-  if (cluster_list_size_ > 0) {
+  if (cluster_list_size_ > 0 || frames_size_ > 0) {
     const uint64_t timecode_scale = segment_info_.timecode_scale();
     const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
 
-    const Cluster* const last_cluster = cluster_list_[cluster_list_size_ - 1];
-    const uint64_t last_cluster_timecode = last_cluster->timecode();
+    // Without a cluster the earliest queued frame will start the first one.
+    const uint64_t last_cluster_timecode =
+        (cluster_list_size_ > 0)
+            ? cluster_list_[cluster_list_size_ - 1]->timecode()
+            : frames_[0]->timestamp() / timecode_scale;
 
-    const uint64_t rel_timecode = frame_timecode - last_cluster_timecode;
-    if (rel_timecode > kMaxBlockTimecode) {
+    if (frame_timecode > last_cluster_timecode &&
+        frame_timecode - last_cluster_timecode > kMaxBlockTimecode) {
       force_new_cluster_ = true;
     }
   }
@@ -3950,8 +3953,19 @@ bool Segment::DoNewClusterProcessing(uint64_t track_number,
 
     // Write the current frame to the current cluster (if TestFrame
     // returns 0) or to a newly created cluster (TestFrame returns 1).
-    if (result <= 1)
+    if (result <= 1) {
+      // Queued frames written above may have started the cluster too early for
+      // the current frame.
+      const uint64_t frame_timecode =
+          frame_timestamp_ns / segment_info_.timecode_scale();
+      const uint64_t cluster_timecode =
+          cluster_list_[cluster_list_size_ - 1]->timecode();
+      if (frame_timecode > cluster_timecode &&
+          frame_timecode - cluster_timecode > kMaxBlockTimecode) {
+        return MakeNewCluster(frame_timestamp_ns);
+      }
       return true;
+    }
 
     // TestFrame returned 2, which means there was a large time
     // difference between the cluster and the frame itself.  Do the
-- 
2.43.0


From 3079130209b8a01b4daf6eeac8c760847c8f8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 005/107] fix: report write failures while copying clusters
 behind the cues

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 7663dda..24c1a2f 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
-- 
2.43.0


From e1b67247d18a1fda39b1a9c257feced819bde2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 006/107] fix: do not lose queued audio frames that are out of
 order

The new cluster started at the first queued frame; an earlier one queued
after it could not be written and was dropped silently.
---
 mkvmuxer/mkvmuxer.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 24c1a2f..134eb64 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3909,10 +3909,9 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
 
   uint64_t cluster_timecode = frame_timecode;
 
-  if (frames_size_ > 0) {
-    const Frame* const f = frames_[0];  // earliest queued frame
-    const uint64_t ns = f->timestamp();
-    const uint64_t tc = ns / timecode_scale;
+  // The cluster must not start after any of the queued frames.
+  for (int32_t i = 0; i < frames_size_; ++i) {
+    const uint64_t tc = frames_[i]->timestamp() / timecode_scale;
 
     if (tc < cluster_timecode)
       cluster_timecode = tc;
-- 
2.43.0


From 382d9bfa93a18a53b8f0fa37bbb4aac7971776a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 007/107] fix: report failures to write queued frames

WriteFramesAll() and WriteFramesLessThan() dropped a frame that could not be
written and reported success; the latter also left a dangling pointer in the
queue.
---
 mkvmuxer/mkvmuxer.cc | 99 +++++++++++++++++---------------------------
 mkvmuxer/mkvmuxer.h  |  6 +++
 2 files changed, 45 insertions(+), 60 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 134eb64..b2066d9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4097,6 +4097,36 @@ bool Segment::QueueFrame(Frame* frame) {
   return true;
 }
 
+bool Segment::WriteQueuedFrame(Cluster* cluster, const Frame* frame) {
+  // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
+  // places where |doc_type_version_| needs to be updated.
+  if (frame->discard_padding() != 0)
+    doc_type_version_ = 4;
+  if (!cluster->AddFrame(frame))
+    return false;
+
+  if (new_cuepoint_ && cues_track_ == frame->track_number()) {
+    if (!AddCuePoint(frame->timestamp(), cues_track_))
+      return false;
+  }
+
+  if (frame->timestamp() > last_timestamp_) {
+    last_timestamp_ = frame->timestamp();
+    last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
+  }
+
+  return true;
+}
+
+void Segment::RemoveQueuedFrames(int32_t count) {
+  for (int32_t i = 0; i < count; ++i)
+    delete frames_[i];
+
+  frames_size_ -= count;
+  for (int32_t i = 0; i < frames_size_; ++i)
+    frames_[i] = frames_[i + count];
+}
+
 int Segment::WriteFramesAll() {
   if (frames_ == NULL)
     return 0;
@@ -4109,37 +4139,13 @@ int Segment::WriteFramesAll() {
   if (!cluster)
     return -1;
 
-  for (int32_t i = 0; i < frames_size_; ++i) {
-    Frame*& frame = frames_[i];
-    // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
-    // places where |doc_type_version_| needs to be updated.
-    if (frame->discard_padding() != 0)
-      doc_type_version_ = 4;
-    if (!cluster->AddFrame(frame)) {
-      delete frame;
-      continue;
-    }
-
-    if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-      if (!AddCuePoint(frame->timestamp(), cues_track_)) {
-        delete frame;
-        continue;
-      }
-    }
-
-    if (frame->timestamp() > last_timestamp_) {
-      last_timestamp_ = frame->timestamp();
-      last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
-    }
-
-    delete frame;
-    frame = NULL;
-  }
-
   const int result = frames_size_;
-  frames_size_ = 0;
+  int32_t count = 0;
+  while (count < frames_size_ && WriteQueuedFrame(cluster, frames_[count]))
+    ++count;
+  RemoveQueuedFrames(count);
 
-  return result;
+  return (frames_size_ > 0) ? -1 : result;
 }
 
 bool Segment::WriteFramesLessThan(uint64_t timestamp) {
@@ -4164,42 +4170,15 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       if (frame_curr->timestamp() > timestamp)
         break;
 
-      const Frame* const frame_prev = frames_[i - 1];
-      if (frame_prev->discard_padding() != 0)
-        doc_type_version_ = 4;
-      if (!cluster->AddFrame(frame_prev)) {
-        delete frame_prev;
-        continue;
-      }
-
-      if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
-        if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
-          delete frame_prev;
-          continue;
-        }
+      if (!WriteQueuedFrame(cluster, frames_[i - 1])) {
+        RemoveQueuedFrames(shift_left);
+        return false;
       }
 
       ++shift_left;
-      if (frame_prev->timestamp() > last_timestamp_) {
-        last_timestamp_ = frame_prev->timestamp();
-        last_track_timestamp_[frame_prev->track_number() - 1] =
-            frame_prev->timestamp();
-      }
-
-      delete frame_prev;
     }
 
-    if (shift_left > 0) {
-      if (shift_left >= frames_size_)
-        return false;
-
-      const int32_t new_frames_size = frames_size_ - shift_left;
-      for (int32_t i = 0; i < new_frames_size; ++i) {
-        frames_[i] = frames_[i + shift_left];
-      }
-
-      frames_size_ = new_frames_size;
-    }
+    RemoveQueuedFrames(shift_left);
   }
 
   return true;
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index bc33833..88b7520 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1731,6 +1731,12 @@ class Segment {
   // Adds the frame to our frame array.
   bool QueueFrame(Frame* frame);
 
+  // Writes one queued frame to |cluster|. Returns true on success.
+  bool WriteQueuedFrame(Cluster* cluster, const Frame* frame);
+
+  // Deletes the first |count| queued frames.
+  void RemoveQueuedFrames(int32_t count);
+
   // Output all frames that are queued. Returns -1 on error, otherwise
   // it returns the number of frames written.
   int WriteFramesAll();
-- 
2.43.0


From 9ac58e065f25b95834661ca776a7c039f41ece68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 008/107] fix: write queued non-key audio frames that need a
 block group

Without a reference timestamp they were invalid and got lost.
---
 mkvmuxer/mkvmuxer.cc | 7 ++++++-
 mkvmuxer/mkvmuxer.h  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index b2066d9..0d56d5e 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4097,11 +4097,16 @@ bool Segment::QueueFrame(Frame* frame) {
   return true;
 }
 
-bool Segment::WriteQueuedFrame(Cluster* cluster, const Frame* frame) {
+bool Segment::WriteQueuedFrame(Cluster* cluster, Frame* frame) {
   // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
   // places where |doc_type_version_| needs to be updated.
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
+  if (!frame->CanBeSimpleBlock() && !frame->is_key() &&
+      !frame->reference_block_timestamp_set()) {
+    frame->set_reference_block_timestamp(
+        last_track_timestamp_[frame->track_number() - 1]);
+  }
   if (!cluster->AddFrame(frame))
     return false;
 
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 88b7520..ff54075 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1732,7 +1732,7 @@ class Segment {
   bool QueueFrame(Frame* frame);
 
   // Writes one queued frame to |cluster|. Returns true on success.
-  bool WriteQueuedFrame(Cluster* cluster, const Frame* frame);
+  bool WriteQueuedFrame(Cluster* cluster, Frame* frame);
 
   // Deletes the first |count| queued frames.
   void RemoveQueuedFrames(int32_t count);
-- 
2.43.0


From 893006063a4d8e1ceee9b23cac752a216cca366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 009/107] fix: count the duration of a queued last frame in the
 segment duration

---
 mkvmuxer/mkvmuxer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 0d56d5e..df1d693 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4118,6 +4118,7 @@ bool Segment::WriteQueuedFrame(Cluster* cluster, Frame* frame) {
   if (frame->timestamp() > last_timestamp_) {
     last_timestamp_ = frame->timestamp();
     last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
+    last_block_duration_ = frame->duration();
   }
 
   return true;
-- 
2.43.0


From 88a719e5a68141279d593d73ed8ca8add962a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 010/107] fix: estimate the file duration from every track

The per-track counters are indexed by track number, not by track index.
---
 mkvmuxer/mkvmuxer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index df1d693..894dca8 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3267,7 +3267,12 @@ bool Segment::Finalize() {
     } else {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
         const int num_tracks = static_cast<int>(tracks_.track_entries_size());
-        for (int i = 0; i < num_tracks; ++i) {
+        for (int index = 0; index < num_tracks; ++index) {
+          const Track* const track = tracks_.GetTrackByIndex(index);
+          if (!track)
+            return false;
+
+          const uint64_t i = track->number() - 1;
           if (track_frames_written_[i] < 2)
             continue;
 
-- 
2.43.0


From 64bc802068ccdedcc80b7ec9fdda9c6e733eea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 011/107] fix: do not leak the frame copy when it cannot be
 written

---
 mkvmuxer/mkvmuxer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 894dca8..65b8868 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3598,12 +3598,12 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     frame_created = true;
   }
 
-  if (!cluster->AddFrame(frame))
+  if (!cluster->AddFrame(frame) ||
+      (new_cuepoint_ && cues_track_ == frame->track_number() &&
+       !AddCuePoint(frame->timestamp(), cues_track_))) {
+    if (frame_created)
+      delete frame;
     return false;
-
-  if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-    if (!AddCuePoint(frame->timestamp(), cues_track_))
-      return false;
   }
 
   last_timestamp_ = frame->timestamp();
-- 
2.43.0


From 7bb1205518cb1594cd1321112ae8ba054ca2ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 012/107] fix: do not keep pointers to deleted frames when a
 held back frame cannot be written

---
 mkvmuxer/mkvmuxer.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 65b8868..c83d492 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2685,17 +2685,19 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   if (!frame_to_store) {
     return false;
   }
-  frame_to_store->CopyFrom(*frame);
+  if (!frame_to_store->CopyFrom(*frame)) {
+    delete frame_to_store;
+    return false;
+  }
   stored_frames_[track_number].push_back(frame_to_store);
 
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
-  std::vector<std::list<Frame*>::iterator> frames_to_erase;
   for (std::list<Frame*>::iterator
            current_track_iterator = stored_frames_[track_number].begin(),
            end = --stored_frames_[track_number].end();
-       current_track_iterator != end; ++current_track_iterator) {
+       current_track_iterator != end;) {
     const Frame* const frame_to_write = *current_track_iterator;
     bool okay_to_write = true;
     for (FrameMapIterator track_iterator = stored_frames_.begin();
@@ -2712,18 +2714,14 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
     if (okay_to_write) {
       const bool wrote_frame = DoWriteFrame(frame_to_write);
       delete frame_to_write;
+      current_track_iterator =
+          stored_frames_[track_number].erase(current_track_iterator);
       if (!wrote_frame)
         return false;
-      frames_to_erase.push_back(current_track_iterator);
     } else {
       break;
     }
   }
-  for (std::vector<std::list<Frame*>::iterator>::iterator iterator =
-           frames_to_erase.begin();
-       iterator != frames_to_erase.end(); ++iterator) {
-    stored_frames_[track_number].erase(*iterator);
-  }
   return true;
 }
 
-- 
2.43.0


From 098213efcf30c298ec6f1f0d63d0072df294eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 013/107] fix: never write a wrapped-around duration for the
 last frame of a cluster

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index c83d492..c089b75 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2577,7 +2577,7 @@ bool Cluster::Finalize(bool set_last_frame_duration, uint64_t duration) {
       // Set the duration if it's the last frame for the track.
       if (set_last_frame_duration &&
           stored_frames_[frame->track_number()].size() == 1 &&
-          !frame->duration_set()) {
+          !frame->duration_set() && duration >= frame->timestamp()) {
         frame->set_duration(duration - frame->timestamp());
         if (!frame->is_key() && !frame->reference_block_timestamp_set()) {
           frame->set_reference_block_timestamp(
-- 
2.43.0


From 9e08923e5a6c75b573f7e6bda54f6c07fd4edef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 014/107] fix: report failures to write the segment date

---
 mkvmuxer/mkvmuxer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index c089b75..1f849b1 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2995,8 +2995,10 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN) {
+    if (!WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_))
+      return false;
+  }
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From e9cdf061e7b8ef8d0d57c194febc8e4e4ad33d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 015/107] fix: treat every non-zero writer status as a failure
 when serializing values

---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..8276577 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
-- 
2.43.0


From f1a8c211b7b3dc495cfbe79274350fbaa48b50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 016/107] fix: never assign a track number that cannot be
 written

---
 mkvmuxer/mkvmuxer.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 1f849b1..2647d19 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1773,16 +1773,6 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
 
   const uint32_t count = track_entries_size_ + 1;
 
-  Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
-  if (!track_entries)
-    return false;
-
-  for (uint32_t i = 0; i < track_entries_size_; ++i) {
-    track_entries[i] = track_entries_[i];
-  }
-
-  delete[] track_entries_;
-
   // Find the lowest availible track number > 0.
   if (track_num == 0) {
     track_num = count;
@@ -1792,14 +1782,28 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
     do {
       exit = true;
       for (uint32_t i = 0; i < track_entries_size_; ++i) {
-        if (track_entries[i]->number() == track_num) {
+        if (track_entries_[i]->number() == track_num) {
           track_num++;
           exit = false;
           break;
         }
       }
     } while (!exit);
+
+    if (track_num > 0x7E)
+      return false;
   }
+
+  Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
+  if (!track_entries)
+    return false;
+
+  for (uint32_t i = 0; i < track_entries_size_; ++i) {
+    track_entries[i] = track_entries_[i];
+  }
+
+  delete[] track_entries_;
+
   track->set_number(track_num);
 
   track_entries_ = track_entries;
-- 
2.43.0


From 650ed57ee35aaf2294c8d83587f462ddf454ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 017/107] fix: refuse to relocate cues that do not exist

A segment without clusters crashed; one without cues got a seek entry for
cues that were not written.
---
 mkvmuxer/mkvmuxer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 2647d19..9fd9888 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3201,6 +3201,9 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
   if (!writer->Seekable() || chunking_)
     return false;
+  // Without clusters and cues there is nothing to move.
+  if (cluster_list_size_ < 1 || cues_.cue_entries_size() < 1)
+    return false;
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
 
-- 
2.43.0


From 4789c7ebe9dc0b97c12874e3e03be986bf286c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:17 +0000
Subject: [PATCH 018/107] fix: release the colour space and replaced
 chromaticities

---
 mkvmuxer/mkvmuxer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 9fd9888..60dac45 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1080,9 +1080,13 @@ bool MasteringMetadata::SetChromaticity(
       return false;
   }
 
+  delete r_;
   r_ = r_ptr.release();
+  delete g_;
   g_ = g_ptr.release();
+  delete b_;
   b_ = b_ptr.release();
+  delete white_point_;
   white_point_ = wp_ptr.release();
   return true;
 }
@@ -1432,6 +1436,7 @@ VideoTrack::VideoTrack(unsigned int* seed)
       projection_(NULL) {}
 
 VideoTrack::~VideoTrack() {
+  delete[] colour_space_;
   delete colour_;
   delete projection_;
 }
-- 
2.43.0


From f9681301ea09b1a840395c4fa3af12ab91018f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:17 +0000
Subject: [PATCH 019/107] fix: check frames before they affect the output

A frame without data, or for an unknown track, was refused only after it had
started a cluster or caused the header to be written, which could make the
file unfinishable.
---
 mkvmuxer/mkvmuxer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 60dac45..3fd5f08 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3534,8 +3534,11 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!frame)
     return false;
 
-  if (!CheckHeaderInfo())
+  // Check for data.
+  if (!frame->frame() || frame->length() == 0 ||
+      (frame->additional() && frame->additional_length() == 0)) {
     return false;
+  }
 
   // Check for non-monotonically increasing timestamps.
   if (frame->timestamp() < last_timestamp_)
@@ -3545,6 +3548,9 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!tracks_.GetTrackByNumber(frame->track_number()))
     return false;
 
+  if (!CheckHeaderInfo())
+    return false;
+
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
-- 
2.43.0


From d304e0f2543d027ddfdc23f658e56bb5197355fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:16 +0000
Subject: [PATCH 020/107] fix: keep the last timestamp of a track current for
 queued frames

It was not updated for a queued frame at the time of the last written frame,
which made the estimated duration too short and the reference of a later
block wrong.
---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 3fd5f08..3105d16 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4138,9 +4138,9 @@ bool Segment::WriteQueuedFrame(Cluster* cluster, Frame* frame) {
       return false;
   }
 
+  last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
   if (frame->timestamp() > last_timestamp_) {
     last_timestamp_ = frame->timestamp();
-    last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
     last_block_duration_ = frame->duration();
   }
 
-- 
2.43.0


From 4b6e36e95c3435c8aab10c85d7398af465b8f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:07 +0000
Subject: [PATCH 021/107] fix: refuse to relocate cues that were not output

---
 mkvmuxer/mkvmuxer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 3105d16..c17a2be 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3207,8 +3207,10 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
   if (!writer->Seekable() || chunking_)
     return false;
   // Without clusters and cues there is nothing to move.
-  if (cluster_list_size_ < 1 || cues_.cue_entries_size() < 1)
+  if (cluster_list_size_ < 1 || !output_cues_ ||
+      cues_.cue_entries_size() < 1) {
     return false;
+  }
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
 
-- 
2.43.0


From b9cfda1c4bf0fb13581d4672610587adfd49442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:21 +0000
Subject: [PATCH 022/107] fix: report the true position of an element that
 follows an unknown-size element

---
 webm_parser/src/webm_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index cf8bc94..2655d00 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -167,11 +167,11 @@ class WebmParser::DocumentParser {
             state_ = State::kValidatingChildSize;
           } else {
             child_metadata_.header_size = 0;
+            child_metadata_.position = reader->Position();
             state_ = State::kReadingChildId;
           }
           PrepareForNextChild();
           callback = original_callback;
-          child_metadata_.position = reader->Position();
           continue;
         }
 
-- 
2.43.0


From 506d167c1da7adedb2c5a12e3327c80510f9b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:21 +0000
Subject: [PATCH 023/107] fix: include the element header in the position of
 fixed-size laced frames

---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..1df0a07 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -215,8 +215,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From ac791c3ce0bb685bd49e5dde363b925e9d87e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:17 +0000
Subject: [PATCH 024/107] fix: report an empty element that ends an
 unknown-size element and its parent

---
 webm_parser/src/master_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d8c3dba..b409c88 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -245,13 +245,15 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
         if (total_bytes_read_ > byte_cap) {
           return Status(Status::kElementOverflow);
-        } else if (total_bytes_read_ == byte_cap) {
-          state_ = State::kEndReached;
-          continue;
         }
 
         if (child_parser_->GetCachedMetadata(&child_metadata_)) {
+          // The header of the next child has already been read, so the end
+          // hasn't been reached yet (even if no bytes remain to be read).
           state_ = State::kValidatingChildSize;
+        } else if (total_bytes_read_ == byte_cap) {
+          state_ = State::kEndReached;
+          continue;
         } else {
           state_ = State::kFirstReadOfChildId;
         }
-- 
2.43.0


From 33a42536aab87a23a826dfdcc2409f2ff14e612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:02 +0000
Subject: [PATCH 025/107] fix: consume the whole of a BlockVirtual element

---
 webm_parser/src/virtual_block_parser.cc | 14 ++++++++++++++
 webm_parser/src/virtual_block_parser.h  |  9 +++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/webm_parser/src/virtual_block_parser.cc b/webm_parser/src/virtual_block_parser.cc
index 712c77f..8bac00b 100644
--- a/webm_parser/src/virtual_block_parser.cc
+++ b/webm_parser/src/virtual_block_parser.cc
@@ -58,6 +58,20 @@ Status VirtualBlockParser::Feed(Callback* callback, Reader* reader,
         if (my_size_ < total_bytes_read_) {
           return Status(Status::kInvalidElementValue);
         }
+        state_ = State::kSkippingTrailingData;
+        continue;
+      }
+
+      case State::kSkippingTrailingData: {
+        while (total_bytes_read_ < my_size_) {
+          status = reader->Skip(my_size_ - total_bytes_read_,
+                                &local_num_bytes_read);
+          *num_bytes_read += local_num_bytes_read;
+          total_bytes_read_ += local_num_bytes_read;
+          if (!status.ok()) {
+            return status;
+          }
+        }
         state_ = State::kDone;
         continue;
       }
diff --git a/webm_parser/src/virtual_block_parser.h b/webm_parser/src/virtual_block_parser.h
index d7b8cd7..660b8ed 100644
--- a/webm_parser/src/virtual_block_parser.h
+++ b/webm_parser/src/virtual_block_parser.h
@@ -56,10 +56,11 @@ class VirtualBlockParser : public ElementParser {
 
   enum class State {
     /* clang-format off */
-    // State             Transitions to state  When
-    kReadingHeader,   // kValidatingSize       header parsed
-    kValidatingSize,  // kDone                 no errors
-    kDone,            // No transitions from here (must call Init)
+    // State                   Transitions to state   When
+    kReadingHeader,         // kValidatingSize        header parsed
+    kValidatingSize,        // kSkippingTrailingData  no errors
+    kSkippingTrailingData,  // kDone                  trailing data skipped
+    kDone,                  // No transitions from here (must call Init)
     /* clang-format on */
   } state_ = State::kReadingHeader;
 };
-- 
2.43.0


From 7620a5651cf7373fde24faa28b2e9b9632f0e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:02 +0000
Subject: [PATCH 026/107] fix: reject blocks with negative EBML lace sizes

---
 webm_parser/src/block_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 1df0a07..5a24ef3 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -195,6 +195,10 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           constexpr std::uint64_t one = 1;  // Prettier than a static_cast.
           std::uint64_t offset =
               (one << (uint_parser_.encoded_length() * 7 - 1)) - 1;
+          // Sizes are coded as differences, which must not yield a negative size.
+          if (lace_sizes_.back() + uint_parser_.value() < offset) {
+            return Status(Status::kInvalidElementValue);
+          }
           lace_sizes_.push_back(lace_sizes_.back() + uint_parser_.value() -
                                 offset);
           uint_parser_ = {};
-- 
2.43.0


From f9c40f1fb1a82bc3e2c85546053600b9061473bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:02 +0000
Subject: [PATCH 027/107] fix: skip blocks that hold nothing after their header

---
 webm_parser/src/block_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 5a24ef3..1432e8d 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -243,6 +243,12 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kSkipping:
+        if (header_bytes_read_ > frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        }
+        if (header_bytes_read_ == frame_metadata_.parent_element.size) {
+          return Status(Status::kOkCompleted);
+        }
         do {
           // Skip the remaining part of the header and all of the frames.
           status = reader->Skip(
-- 
2.43.0


From 221f806a127be1ac41dea5f21a3b1fc924858a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:02 +0000
Subject: [PATCH 028/107] fix: report that an empty float element occupies no
 bytes

---
 webm_parser/src/float_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/webm_parser/src/float_parser.cc b/webm_parser/src/float_parser.cc
index fc46860..302643f 100644
--- a/webm_parser/src/float_parser.cc
+++ b/webm_parser/src/float_parser.cc
@@ -46,6 +46,8 @@ Status FloatParser::Feed(Callback* callback, Reader* reader,
   assert(reader != nullptr);
   assert(num_bytes_read != nullptr);
 
+  *num_bytes_read = 0;
+
   if (num_bytes_remaining_ == 0) {
     return Status(Status::kOkCompleted);
   }
-- 
2.43.0


From 233a5fb885aa4c8fee85fe404edd4c35f2e3bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:05 +0000
Subject: [PATCH 029/107] fix: reject lace sizes that exceed their block

---
 webm_parser/src/block_parser.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 1432e8d..4a84817 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -195,10 +195,6 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           constexpr std::uint64_t one = 1;  // Prettier than a static_cast.
           std::uint64_t offset =
               (one << (uint_parser_.encoded_length() * 7 - 1)) - 1;
-          // Sizes are coded as differences, which must not yield a negative size.
-          if (lace_sizes_.back() + uint_parser_.value() < offset) {
-            return Status(Status::kInvalidElementValue);
-          }
           lace_sizes_.push_back(lace_sizes_.back() + uint_parser_.value() -
                                 offset);
           uint_parser_ = {};
@@ -228,6 +224,12 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
+        // A size that was coded as a negative number is huge, too.
+        for (std::uint64_t lace_size : lace_sizes_) {
+          if (lace_size > frame_metadata_.parent_element.size) {
+            return Status(Status::kInvalidElementValue);
+          }
+        }
         std::uint64_t sum = std::accumulate(
             lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
         if (sum >= frame_metadata_.parent_element.size) {
-- 
2.43.0


From 1b4f3e31ddbf45857e7dafc3f8ac625d1757a029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 030/107] fix: do not skip past the end of a file or stream

---
 webm_parser/src/file_reader.cc    | 29 +++++++++++++++++++----------
 webm_parser/src/istream_reader.cc | 31 ++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index a2a397b..a853c4c 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -90,19 +90,28 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
   if (num_to_skip < static_cast<unsigned long>(seek_offset)) {  // NOLINT
     seek_offset = static_cast<long>(num_to_skip);  // NOLINT
   }
-  if (!FSEEK_(file_.get(), seek_offset, SEEK_CUR)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  if (!FSEEK_(file_.get(), seek_offset - 1, SEEK_CUR)) {
+    // Seeking succeeds even if it goes past the end of the file, so make sure
+    // the last byte to be skipped really exists.
+    if (std::getc(file_.get()) != EOF) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    std::clearerr(file_.get());
+    if (FSEEK_(file_.get(), -(seek_offset - 1), SEEK_CUR)) {
+      return Status(Status::kSeekFailed);
     }
   }
   std::clearerr(file_.get());
 
-  // Seeking doesn't work on things like pipes, so if seeking failed then fall
-  // back to reading the data into a junk buffer.
+  // Seeking doesn't work on things like pipes, so if seeking failed (or would
+  // go past the end of the file) then fall back to reading the data into a junk
+  // buffer.
   std::size_t actual = 0;
   do {
     std::uint8_t junk[1024];
@@ -111,7 +120,7 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
       num_to_read = static_cast<std::size_t>(num_to_skip);
     }
 
-    std::size_t actual =
+    actual =
         std::fread(static_cast<void*>(junk), 1, num_to_read, file_.get());
     *num_actually_skipped += static_cast<std::uint64_t>(actual);
     position_ += static_cast<std::uint64_t>(actual);
diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index 6993fc0..d038408 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -89,20 +89,29 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
   } else {
     seek_offset = static_cast<std::streamsize>(num_to_skip);
   }
-  if (istream_->seekg(seek_offset, std::ios_base::cur)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  if (istream_->seekg(seek_offset - 1, std::ios_base::cur)) {
+    // Seeking may succeed even if it goes past the end of the stream, so make
+    // sure the last byte to be skipped really exists.
+    if (istream_->get() != std::istream::traits_type::eof()) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    istream_->clear();
+    if (!istream_->seekg(-(seek_offset - 1), std::ios_base::cur)) {
+      return Status(Status::kSeekFailed);
     }
   }
   istream_->clear();
 
-  // Seeking doesn't work on things like pipes, so if seeking failed then fall
-  // back to reading the data into a junk buffer.
-  std::size_t actual = 0;
+  // Seeking doesn't work on things like pipes, so if seeking failed (or would
+  // go past the end of the stream) then fall back to reading the data into a
+  // junk buffer.
+  std::streamsize actual = 0;
   do {
     char junk[1024];
     std::streamsize num_to_read = static_cast<std::streamsize>(sizeof(junk));
@@ -111,7 +120,7 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
     }
 
     istream_->read(junk, num_to_read);
-    std::streamsize actual = istream_->gcount();
+    actual = istream_->gcount();
     *num_actually_skipped += static_cast<std::uint64_t>(actual);
     position_ += static_cast<std::uint64_t>(actual);
     num_to_skip -= static_cast<std::uint64_t>(actual);
-- 
2.43.0


From bfb43e5e0b4481f8dec9dfd69cef4a7df37c30f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:13 +0000
Subject: [PATCH 031/107] fix: ignore the action chosen by a callback that did
 not complete

---
 webm_parser/src/master_parser.cc      | 4 +++-
 webm_parser/src/master_value_parser.h | 9 ++++++---
 webm_parser/src/segment_parser.cc     | 4 +++-
 webm_parser/src/webm_parser.cc        | 4 +++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index b409c88..92ea8f4 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -197,10 +197,12 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kGettingAction: {
         assert(child_parser_ != nullptr);
-        status = callback->OnElementBegin(child_metadata_, &action_);
+        Action action = Action::kRead;
+        status = callback->OnElementBegin(child_metadata_, &action);
         if (!status.completed_ok()) {
           return status;
         }
+        action_ = action;
 
         if (action_ == Action::kSkip) {
           callback = &skip_callback;
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 2a02a3f..29c4cda 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -117,10 +117,12 @@ class MasterValueParser : public ElementParser {
     }
 
     if (!started_done_) {
-      Status status = OnParseStarted(callback, &action_);
+      Action action = Action::kRead;
+      Status status = OnParseStarted(callback, &action);
       if (!status.completed_ok()) {
         return status;
       }
+      action_ = action;
       started_done_ = true;
     }
 
@@ -463,11 +465,12 @@ class MasterValueParser : public ElementParser {
 
     Status Prepare(Callback* callback) {
       if (has_tag<TagUseAsStart>() && !parent_->started_done_) {
-        const Status status =
-            parent_->OnParseStarted(callback, &parent_->action_);
+        Action action = Action::kRead;
+        const Status status = parent_->OnParseStarted(callback, &action);
         if (!status.completed_ok()) {
           return status;
         }
+        parent_->action_ = action;
         parent_->started_done_ = true;
         if (parent_->action_ == Action::kSkip) {
           return Status(Status::kSwitchToSkip);
diff --git a/webm_parser/src/segment_parser.cc b/webm_parser/src/segment_parser.cc
index 9b2e7d5..1edf7ba 100644
--- a/webm_parser/src/segment_parser.cc
+++ b/webm_parser/src/segment_parser.cc
@@ -57,10 +57,12 @@ Status SegmentParser::Feed(Callback* callback, Reader* reader,
   if (!begin_done_) {
     const ElementMetadata metadata{Id::kSegment, header_size(), size(),
                                    position()};
-    const Status status = callback->OnSegmentBegin(metadata, &action_);
+    Action action = Action::kRead;
+    const Status status = callback->OnSegmentBegin(metadata, &action);
     if (!status.completed_ok()) {
       return status;
     }
+    action_ = action;
     begin_done_ = true;
   }
 
diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index 2655d00..f1198fd 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -132,10 +132,12 @@ class WebmParser::DocumentParser {
 
         case State::kGettingAction: {
           assert(child_parser_ != nullptr);
-          status = callback->OnElementBegin(child_metadata_, &action_);
+          Action action = Action::kRead;
+          status = callback->OnElementBegin(child_metadata_, &action);
           if (!status.completed_ok()) {
             return status;
           }
+          action_ = action;
 
           if (action_ == Action::kSkip) {
             callback = &skip_callback_;
-- 
2.43.0


From f5cf26ee247253348c9df10627f0ef7c2e9d2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:25 +0000
Subject: [PATCH 032/107] fix: know the ancestors of colour and projection
 elements after a seek

---
 webm_parser/src/ancestory.cc | 48 ++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/webm_parser/src/ancestory.cc b/webm_parser/src/ancestory.cc
index 9860a28..12fa015 100644
--- a/webm_parser/src/ancestory.cc
+++ b/webm_parser/src/ancestory.cc
@@ -75,6 +75,14 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
       Id::kTrackEntry,
       Id::kVideo,
   };
+  static constexpr Id kMasteringMetadataAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry,
+      Id::kVideo,   Id::kColour, Id::kMasteringMetadata,
+  };
+  static constexpr Id kProjectionAncestory[] = {
+      Id::kSegment, Id::kTracks,     Id::kTrackEntry,
+      Id::kVideo,   Id::kProjection,
+  };
   static constexpr Id kAudioAncestory[] = {
       Id::kSegment,
       Id::kTracks,
@@ -225,9 +233,49 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kDisplayUnit:
     case Id::kAspectRatioType:
     case Id::kFrameRate:
+    case Id::kColour:
+    case Id::kProjection:
       *ancestory = Ancestory(kVideoAncestory, 4);
       return true;
 
+    case Id::kMatrixCoefficients:
+    case Id::kBitsPerChannel:
+    case Id::kChromaSubsamplingHorz:
+    case Id::kChromaSubsamplingVert:
+    case Id::kCbSubsamplingHorz:
+    case Id::kCbSubsamplingVert:
+    case Id::kChromaSitingHorz:
+    case Id::kChromaSitingVert:
+    case Id::kRange:
+    case Id::kTransferCharacteristics:
+    case Id::kPrimaries:
+    case Id::kMaxCll:
+    case Id::kMaxFall:
+    case Id::kMasteringMetadata:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 5);
+      return true;
+
+    case Id::kPrimaryRChromaticityX:
+    case Id::kPrimaryRChromaticityY:
+    case Id::kPrimaryGChromaticityX:
+    case Id::kPrimaryGChromaticityY:
+    case Id::kPrimaryBChromaticityX:
+    case Id::kPrimaryBChromaticityY:
+    case Id::kWhitePointChromaticityX:
+    case Id::kWhitePointChromaticityY:
+    case Id::kLuminanceMax:
+    case Id::kLuminanceMin:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 6);
+      return true;
+
+    case Id::kProjectionType:
+    case Id::kProjectionPrivate:
+    case Id::kProjectionPoseYaw:
+    case Id::kProjectionPosePitch:
+    case Id::kProjectionPoseRoll:
+      *ancestory = Ancestory(kProjectionAncestory, 5);
+      return true;
+
     case Id::kSamplingFrequency:
     case Id::kOutputSamplingFrequency:
     case Id::kChannels:
-- 
2.43.0


From 4124c9c7aff2181a66303a1a7faf136bfbe707e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 033/107] fix: do not assert when a child header delivered
 piecemeal crosses the end of its parent

---
 webm_parser/src/master_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 92ea8f4..0ac38c5 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -122,8 +122,9 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kFinishingReadingChildId: {
+        // In malformed input the child's header may reach past the end of this
+        // element; that's detected once the header has been read.
         assert(child_parser_ == nullptr);
-        assert(my_size_ == kUnknownElementSize || total_bytes_read_ < my_size_);
         status = id_parser_.Feed(callback, reader, &local_num_bytes_read);
         *num_bytes_read += local_num_bytes_read;
         total_bytes_read_ += local_num_bytes_read;
-- 
2.43.0


From cfec4b151c483a20d7051dc23c9c15c8a70efaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 034/107] fix: do not allocate memory for string and binary
 data that is not there

---
 webm_parser/src/byte_parser.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/byte_parser.h b/webm_parser/src/byte_parser.h
index f2ed3cb..6878793 100644
--- a/webm_parser/src/byte_parser.h
+++ b/webm_parser/src/byte_parser.h
@@ -8,6 +8,7 @@
 #ifndef SRC_BYTE_PARSER_H_
 #define SRC_BYTE_PARSER_H_
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <string>
@@ -70,9 +71,13 @@ class ByteParser : public ElementParser {
 
     if (metadata.size == 0) {
       value_ = default_value_;
+      size_ = default_value_.size();
       total_read_ = default_value_.size();
     } else {
-      value_.resize(static_cast<std::size_t>(metadata.size));
+      // The memory is allocated as the data is read, since the size may be
+      // bogus.
+      value_.clear();
+      size_ = static_cast<std::size_t>(metadata.size);
       total_read_ = 0;
     }
 
@@ -87,12 +92,16 @@ class ByteParser : public ElementParser {
 
     *num_bytes_read = 0;
 
-    if (total_read_ == value_.size()) {
+    if (total_read_ == size_) {
       return Status(Status::kOkCompleted);
     }
 
     Status status;
     do {
+      if (total_read_ == value_.size()) {
+        const std::size_t max_step = kMaxAllocationStep;
+        value_.resize(total_read_ + std::min(size_ - total_read_, max_step));
+      }
       std::uint64_t local_num_bytes_read = 0;
       std::uint8_t* buffer =
           reinterpret_cast<std::uint8_t*>(&value_.front()) + total_read_;
@@ -103,7 +112,8 @@ class ByteParser : public ElementParser {
              (!status.ok() && local_num_bytes_read == 0));
       *num_bytes_read += local_num_bytes_read;
       total_read_ += static_cast<std::size_t>(local_num_bytes_read);
-    } while (status.code == Status::kOkPartial);
+    } while (status.code == Status::kOkPartial ||
+             (status.completed_ok() && total_read_ < size_));
 
     // UTF-8 and ASCII string elements can be padded with NUL characters at the
     // end, which should be ignored.
@@ -131,8 +141,12 @@ class ByteParser : public ElementParser {
   }
 
  private:
+  // The most memory that's allocated ahead of the data being read.
+  static constexpr std::size_t kMaxAllocationStep = 1 << 20;
+
   T value_;
   T default_value_;
+  std::size_t size_;
   std::size_t total_read_;
 };
 
-- 
2.43.0


From c01974804feb39b56270245f8a2723b49b308004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:06 +0000
Subject: [PATCH 035/107] fix: do not decode numbers from bytes that are not
 available

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..8b06c1e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -220,6 +220,9 @@ long long UnserializeUInt(IMkvReader* pReader, long long pos, long long size) {
     if (status < 0)
       return status;
 
+    if (status > 0)
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -243,6 +246,9 @@ long UnserializeFloat(IMkvReader* pReader, long long pos, long long size_,
   if (status < 0)  // error
     return status;
 
+  if (status > 0)
+    return E_BUFFER_NOT_FULL;
+
   if (size == 4) {
     union {
       float f;
@@ -300,6 +306,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
   if (status < 0)
     return status;
 
+  if (status > 0)
+    return E_BUFFER_NOT_FULL;
+
   unsigned long long result = static_cast<unsigned long long>(first_byte);
   ++pos;
 
@@ -311,6 +320,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
     if (status < 0)
       return status;
 
+    if (status > 0)
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
-- 
2.43.0


From 07c95378208afb65b66400051c3f8f80ab16f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:06 +0000
Subject: [PATCH 036/107] fix: report values that are too large for a coded
 integer

---
 mkvmuxer/mkvmuxerutil.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 8276577..1561327 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -401,12 +401,10 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
       if (value <= max)
         break;
 
-      ++size;
+      if (++size > 8)
+        return -1;
     }
 
-    if (size > 8)
-      return false;
-
     value |= bit;
   }
 
-- 
2.43.0


From eca8a6adf4898d75916510c7eb9a4c574a05ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:20 +0000
Subject: [PATCH 037/107] fix: keep leading zeros of the fraction in WebVTT
 times

---
 webvtt/webvttparser.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index c79d642..887a4de 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -476,20 +476,23 @@ int Parser::ParseTime(const std::string& line, std::string::size_type* idx_ptr,
   } else {
     ++idx;  // consume FULL STOP
 
+    const std::string::size_type first_digit = idx;
+
     val = ParseNumber(line, &idx);
 
     if (val < 0)
       return val;
 
-    if (val >= 1000)
+    // The digits are a fraction of a second, so leading zeros count.
+    std::string::size_type digits = idx - first_digit;
+
+    if (digits > 3)
       return -1;
 
-    if (val < 10)
-      t.milliseconds = val * 100;
-    else if (val < 100)
-      t.milliseconds = val * 10;
-    else
-      t.milliseconds = val;
+    for (; digits < 3; ++digits)
+      val *= 10;
+
+    t.milliseconds = val;
   }
 
   // We have parsed the time proper.  We must check for any
-- 
2.43.0


From 96f1110031c4f0ac0feae4b636aaef0630f8e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:45 +0000
Subject: [PATCH 038/107] fix: reject WebVTT timing lines that contain NUL
 characters

---
 webvtt/webvttparser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index 887a4de..a5859f0 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -311,6 +311,11 @@ int Parser::ParseTimingsLine(std::string* line_ptr,
   if (arrow_pos == std::string::npos || arrow_pos >= line.length())
     return -1;
 
+  // NUL characters mark the ends of the parts of the line below, so the
+  // line itself must not have any.
+  if (line.find(static_cast<char>(kNUL)) != std::string::npos)
+    return -1;
+
   // Place a NUL character at the start of the arrow token, in
   // order to demarcate the start time from remainder of line.
   line[arrow_pos] = kNUL;
-- 
2.43.0


From c3c61945a4c401fab50ecf7f1ec63a01d25b7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:45 +0000
Subject: [PATCH 039/107] fix: avoid overflow when setting large WebVTT times

---
 webvtt/webvttparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index a5859f0..755731c 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -678,7 +678,7 @@ Time& Time::presentation(presentation_t d) {
   }
 
   seconds = static_cast<int>(d / 1000);
-  milliseconds = static_cast<int>(d - 1000 * seconds);
+  milliseconds = static_cast<int>(d % 1000);
 
   minutes = seconds / 60;
   seconds -= 60 * minutes;
-- 
2.43.0


From 2f6086953ccce475bd0440e06f0664fabaa067d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 040/107] fix: convert times to 90 kHz ticks without losing
 ticks to rounding

---
 common/libwebm_util.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index d158250..80fa3ab 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -15,13 +15,12 @@
 namespace libwebm {
 
 std::int64_t NanosecondsTo90KhzTicks(std::int64_t nanoseconds) {
-  const double pts_seconds = nanoseconds / kNanosecondsPerSecond;
-  return static_cast<std::int64_t>(pts_seconds * 90000);
+  // Integer arithmetic: 100000 nanoseconds are exactly 9 ticks.
+  return nanoseconds / 100000 * 9 + nanoseconds % 100000 * 9 / 100000;
 }
 
 std::int64_t Khz90TicksToNanoseconds(std::int64_t ticks) {
-  const double seconds = ticks / 90000.0;
-  return static_cast<std::int64_t>(seconds * kNanosecondsPerSecond);
+  return ticks / 9 * 100000 + ticks % 9 * 100000 / 9;
 }
 
 bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
-- 
2.43.0


From efff7b4295680e86afa18c1274033966937a825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 041/107] fix: do not corrupt the low bits of PES presentation
 times

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..4fdb751 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From 3a523a3cf2f5a6dbf5f75621614ccabb1c7b1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 042/107] fix: convert the blocks of the video track whatever
 its number

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 4fdb751..215bc5b 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -400,7 +400,7 @@ bool Webm2Pes::InitWebmParser() {
         fprintf(stderr, "Webm2Pes: Codec must be VP8 or VP9.\n");
         return false;
       }
-      video_track_num_ = track_index + 1;
+      video_track_num_ = static_cast<int>(track->GetNumber());
       break;
     }
   }
-- 
2.43.0


From aa3cb358d2b6439288f896708cae623defe56194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 043/107] fix: decode all 33 bits of PES presentation times

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..de76162 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -176,7 +176,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
       return false;
     }
 
-    header->pts = (poh_buffer[offset] & 0xe) << 29 |
+    header->pts = static_cast<std::uint64_t>(poh_buffer[offset] & 0xe) << 29 |
                   ((ReadUint16(&poh_buffer[offset + 1]) & ~1) << 14) |
                   (ReadUint16(&poh_buffer[offset + 3]) >> 1);
     offset += 5;
-- 
2.43.0


From 1a69aaff80f33cb9ed9b6feab0c8dcb5b9cc7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 044/107] fix: remove every emulation prevention byte from PES
 payloads

---
 m2ts/vpxpes_parser.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index de76162..d80911c 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -263,10 +263,13 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
-  for (std::size_t i = 0; i < first_fragment_length; ++i) {
-    payload_.push_back(pes_file_data_[read_pos_ + i]);
+  std::size_t first_fragment_consumed = 0;
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          &pes_file_data_[read_pos_], first_fragment_length, &payload_,
+          &first_fragment_consumed)) {
+    return false;
   }
-  read_pos_ += first_fragment_length;
+  read_pos_ += first_fragment_consumed;
   parse_state_ = kFindStartCode;
 
   while (payload_.size() < payload_length) {
@@ -318,7 +321,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From dc4bc6ee18de513642a3593b9cebc152c0a6d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 045/107] fix: do not read outside malformed PES data

---
 m2ts/vpxpes_parser.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index d80911c..b043bae 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -60,7 +60,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 2 >= pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
@@ -128,7 +128,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
 
   std::size_t consumed = 0;
   PacketData poh_buffer;
-  if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
+  if (!RemoveStartCodeEmulationPreventionBytes(pes_file_data_.data() + read_pos_,
                                                kPesOptionalHeaderSize,
                                                &poh_buffer, &consumed)) {
     return false;
@@ -202,7 +202,7 @@ bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
 
   PacketData bcmv_buffer;
   std::size_t consumed = 0;
-  if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
+  if (!RemoveStartCodeEmulationPreventionBytes(pes_file_data_.data() + read_pos_,
                                                kBcmvHeaderSize, &bcmv_buffer,
                                                &consumed)) {
     return false;
@@ -224,7 +224,8 @@ bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
   if (bcmv_buffer[offset++] != 0 || bcmv_buffer[offset++] != 0)
     return false;
 
-  if (!header->Valid())
+  // The length includes the header itself.
+  if (!header->Valid() || header->length <= BcmvHeader::size())
     return false;
 
   parse_state_ = kFindStartCode;
@@ -261,11 +262,14 @@ bool VpxPesParser::IsPayloadFragmented(const PesHeader& header) const {
 
 bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
+  if (pes_packet_length <= kPesOptionalHeaderSize + kBcmvHeaderSize)
+    return false;
+
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
   std::size_t first_fragment_consumed = 0;
   if (!RemoveStartCodeEmulationPreventionBytes(
-          &pes_file_data_[read_pos_], first_fragment_length, &payload_,
+          pes_file_data_.data() + read_pos_, first_fragment_length, &payload_,
           &first_fragment_consumed)) {
     return false;
   }
@@ -288,17 +292,20 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     }
 
+    if (header.packet_length <= kPesOptionalHeaderSize)
+      return false;
+
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
-    if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
+    if (!RemoveStartCodeEmulationPreventionBytes(pes_file_data_.data() + read_pos_,
                                                  fragment_length, &payload_,
                                                  &consumed)) {
       return false;
     }
     read_pos_ += consumed;
   }
-  return true;
+  return payload_.size() == payload_length;
 }
 
 bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
@@ -310,10 +317,10 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
   std::size_t num_zeros = 0;
   std::size_t bytes_copied = 0;
   const std::uint8_t* const end_of_input =
-      &pes_file_data_[0] + pes_file_data_.size();
+      pes_file_data_.data() + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
@@ -347,6 +354,8 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
     return false;
   }
 
+  payload_.clear();
+
   std::size_t packet_start_pos = read_pos_;
   if (!FindStartCode(read_pos_, &packet_start_pos)) {
     return false;
@@ -387,7 +396,7 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   } else {
     std::size_t consumed = 0;
     if (!RemoveStartCodeEmulationPreventionBytes(
-            &pes_file_data_[read_pos_], payload_length, &payload_, &consumed)) {
+            pes_file_data_.data() + read_pos_, payload_length, &payload_, &consumed)) {
       return false;
     }
     read_pos_ += consumed;
-- 
2.43.0


From c36e25bb9806f05e6673475c9646fad87f6689fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 046/107] fix: read PES optional header fields with the right
 masks

---
 m2ts/vpxpes_parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index b043bae..4437748 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -135,10 +135,10 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
   }
 
   std::size_t offset = 0;
-  header->marker = (poh_buffer[offset] & 0x80) >> 6;
+  header->marker = (poh_buffer[offset] & 0xc0) >> 6;
   header->scrambling = (poh_buffer[offset] & 0x30) >> 4;
   header->priority = (poh_buffer[offset] & 0x8) >> 3;
-  header->data_alignment = (poh_buffer[offset] & 0xc) >> 2;
+  header->data_alignment = (poh_buffer[offset] & 0x4) >> 2;
   header->copyright = (poh_buffer[offset] & 0x2) >> 1;
   header->original = poh_buffer[offset] & 0x1;
   offset++;
@@ -168,7 +168,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
     //     bottom 15 bits
     //     marker ('1')
     // TODO(tomfinegan): read/store the timestamp.
-    header->pts_dts_flag = (poh_buffer[offset] & 0x20) >> 4;
+    header->pts_dts_flag = (poh_buffer[offset] & 0xf0) >> 4;
     // Check the marker bits.
     if ((poh_buffer[offset + 0] & 1) != 1 ||
         (poh_buffer[offset + 2] & 1) != 1 ||
-- 
2.43.0


From dce895ecc8b2d13ff4efe19a46d03b8ee6309858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:38 +0000
Subject: [PATCH 047/107] fix: do not write beyond the size of the transport
 packet buffer

---
 m2ts/vpxpes2ts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..e428bbd 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -150,7 +150,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
-  ts_buffer_.reserve(kTsPacketSize);
+  ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
     if (continuity_counter > 0xf)
-- 
2.43.0


From 248ec161ed555a7d15cbb6978517761944885271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:38 +0000
Subject: [PATCH 048/107] fix: continue the transport stream continuity counter
 from frame to frame

---
 m2ts/vpxpes2ts.cc | 8 ++------
 m2ts/vpxpes2ts.h  | 3 +++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index e428bbd..93ab64f 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -147,15 +147,11 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
-
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
     int payload_size = std::min(bytes_to_packetize, kTsPayloadSize);
@@ -163,7 +159,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -195,7 +191,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_ = (continuity_counter_ + 1) & 0xf;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..c505e41 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -38,6 +38,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Counts the transport packets of the stream, modulo 16.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From b22fa305f130a9d89e12d65ad036a385ec39c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:39 +0000
Subject: [PATCH 049/107] fix: start every PES packet in a transport packet of
 its own

---
 m2ts/vpxpes2ts.cc | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 93ab64f..0ab4e59 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -127,6 +127,26 @@ void TsHeader::Write(PacketDataBuffer* buffer) const {
   *byte |= continuity_counter.bits;  // last 4 bits.
 }
 
+namespace {
+
+// Returns the size of the PES packet at |start|: it extends to the header of
+// the next PES packet, or to the end of |data|. Payloads cannot imitate a
+// header, because start codes in them are escaped.
+std::size_t PesPacketSize(const PacketDataBuffer& data, std::size_t start) {
+  const std::size_t kPesHeaderSize = 9;
+  for (std::size_t i = start + kPesHeaderSize; i + kPesHeaderSize < data.size();
+       ++i) {
+    // Start code, stream ID, [packet length], marker, [flags], header size.
+    if (data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 1 &&
+        data[i + 3] == 0xE0 && data[i + 6] == 0x80 && data[i + 8] == 6) {
+      return i - start;
+    }
+  }
+  return data.size() - start;
+}
+
+}  // namespace
+
 bool VpxPes2Ts::ConvertToFile() {
   output_file_ = FilePtr(fopen(output_file_name_.c_str(), "wb"), FILEDeleter());
   if (output_file_ == nullptr) {
@@ -146,20 +166,28 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsHeaderSize = 4;
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
-  int bytes_to_packetize = static_cast<int>(packet_data.size());
+  int bytes_to_packetize = 0;
+  bool is_payload_start = true;
   std::size_t read_pos = 0;
 
   ts_buffer_.resize(kTsPacketSize);
 
-  while (bytes_to_packetize > 0) {
+  while (read_pos < packet_data.size()) {
+    if (bytes_to_packetize == 0) {
+      // |packet_data| can hold several PES packets: each one has to start a
+      // new transport packet.
+      bytes_to_packetize =
+          static_cast<int>(PesPacketSize(packet_data, read_pos));
+      is_payload_start = true;
+    }
+
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
     int payload_size = std::min(bytes_to_packetize, kTsPayloadSize);
 
     // Write the TS header.
-    const TsHeader header(
-        bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter_);
+    const TsHeader header(is_payload_start, payload_size != kTsPayloadSize,
+                          continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -191,6 +219,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
+    is_payload_start = false;
     continuity_counter_ = (continuity_counter_ + 1) & 0xf;
 
     if (write_pos != kTsPacketSize) {
-- 
2.43.0


From a24e2a829fa4a61fd8f1c521bf894829a47d5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:55 +0000
Subject: [PATCH 050/107] fix: accept superframes that are smaller than their
 index

---
 common/libwebm_util.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index 80fa3ab..accfa33 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -53,8 +53,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
     // Consume the super frame index. Note: it's at the end of the super frame.
     const std::size_t length = frame_length - index_length;
 
-    if (length >= index_length &&
-        frame[frame_length - index_length] == marker) {
+    if (frame[frame_length - index_length] == marker) {
       // Found a valid superframe index.
       const std::uint8_t* byte = frame + length + 1;
 
-- 
2.43.0


From 9828414f3ebe28487b60e5e0b2b89268522e84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:35 +0000
Subject: [PATCH 051/107] fix: initialize the VP9 display size

display_width() and display_height() were uninitialized until a frame with
a size of its own had been parsed.
---
 common/vp9_header_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 3e57514..b9458ab 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -47,6 +47,8 @@ class Vp9HeaderParser {
         refresh_frame_flags_(0),
         width_(0),
         height_(0),
+        display_width_(0),
+        display_height_(0),
         row_tiles_(0),
         column_tiles_(0),
         frame_parallel_mode_(0) {}
-- 
2.43.0


From cb30ba60946e2c8c1eb0d9408c1c18f29d6def5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:35 +0000
Subject: [PATCH 052/107] fix: reject truncated VP9 frame headers

The bits missing from a truncated header were taken to be 0, and the made up
values were reported as if the header had been parsed successfully.
---
 common/vp9_header_parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index c017d7f..b3c1461 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -111,16 +111,18 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
         ParseFrameResolution();
     }
   }
-  return true;
+
+  // A header that runs past the end of the frame is not valid.
+  return (bit_offset_ + 7) / 8 <= frame_size_;
 }
 
 int Vp9HeaderParser::ReadBit() {
   const size_t off = bit_offset_;
   const size_t byte_offset = off >> 3;
   const int bit_shift = 7 - static_cast<int>(off & 0x7);
+  bit_offset_++;
   if (byte_offset < frame_size_) {
     const int bit = (frame_[byte_offset] >> bit_shift) & 1;
-    bit_offset_++;
     return bit;
   } else {
     return 0;
-- 
2.43.0


From c1daf8ee579c87ddf86d714f3a538b534352de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:35 +0000
Subject: [PATCH 053/107] fix: report the tiles of VP9 key frames that use
 segmentation

The tile information of a key frame with segmentation was not read, so the
numbers of tiles of an earlier frame, or 0, were reported.
---
 common/vp9_header_parser.cc | 98 +++++++++++++++++++++++++------------
 common/vp9_header_parser.h  |  1 +
 2 files changed, 67 insertions(+), 32 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index b3c1461..3890d88 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -221,41 +221,75 @@ void Vp9HeaderParser::ParseTileInfo() {
   SkipDeltaQ();  // uv dc
 
   // segmentation
-  const bool segmentation_enabled = ReadBit();
-  if (!segmentation_enabled) {
-    const int aligned_width = AlignPowerOfTwo(width_, kMiSizeLog2);
-    const int mi_cols = aligned_width >> kMiSizeLog2;
-    const int aligned_mi_cols = AlignPowerOfTwo(mi_cols, kMiSizeLog2);
-    const int sb_cols = aligned_mi_cols >> 3;  // to_sbs(mi_cols);
-    int min_log2_n_tiles, max_log2_n_tiles;
-
-    for (max_log2_n_tiles = 0;
-         (sb_cols >> max_log2_n_tiles) >= kMinTileWidthB64;
-         max_log2_n_tiles++) {
-    }
-    max_log2_n_tiles--;
-    if (max_log2_n_tiles < 0)
-      max_log2_n_tiles = 0;
+  SkipSegmentation();
+
+  // tile info
+  const int aligned_width = AlignPowerOfTwo(width_, kMiSizeLog2);
+  const int mi_cols = aligned_width >> kMiSizeLog2;
+  const int aligned_mi_cols = AlignPowerOfTwo(mi_cols, kMiSizeLog2);
+  const int sb_cols = aligned_mi_cols >> 3;  // to_sbs(mi_cols);
+  int min_log2_n_tiles, max_log2_n_tiles;
+
+  for (max_log2_n_tiles = 0;
+       (sb_cols >> max_log2_n_tiles) >= kMinTileWidthB64;
+       max_log2_n_tiles++) {
+  }
+  max_log2_n_tiles--;
+  if (max_log2_n_tiles < 0)
+    max_log2_n_tiles = 0;
+
+  for (min_log2_n_tiles = 0; (kMaxTileWidthB64 << min_log2_n_tiles) < sb_cols;
+       min_log2_n_tiles++) {
+  }
+
+  // columns
+  const int max_log2_tile_cols = max_log2_n_tiles;
+  const int min_log2_tile_cols = min_log2_n_tiles;
+  int max_ones = max_log2_tile_cols - min_log2_tile_cols;
+  int log2_tile_cols = min_log2_tile_cols;
+  while (max_ones-- && ReadBit())
+    log2_tile_cols++;
+
+  // rows
+  int log2_tile_rows = ReadBit();
+  if (log2_tile_rows)
+    log2_tile_rows += ReadBit();
+
+  row_tiles_ = 1 << log2_tile_rows;
+  column_tiles_ = 1 << log2_tile_cols;
+}
+
+void Vp9HeaderParser::SkipSegmentation() {
+  if (!ReadBit())  // segmentation_enabled
+    return;
 
-    for (min_log2_n_tiles = 0; (kMaxTileWidthB64 << min_log2_n_tiles) < sb_cols;
-         min_log2_n_tiles++) {
+  if (ReadBit()) {  // segmentation_update_map
+    const int kSegmentationTreeProbs = 7;
+    for (int i = 0; i < kSegmentationTreeProbs; ++i) {
+      if (ReadBit())
+        VpxReadLiteral(8);  // Consume tree prob
     }
+    if (ReadBit()) {  // segmentation_temporal_update
+      const int kSegmentationPredProbs = 3;
+      for (int i = 0; i < kSegmentationPredProbs; ++i) {
+        if (ReadBit())
+          VpxReadLiteral(8);  // Consume pred prob
+      }
+    }
+  }
 
-    // columns
-    const int max_log2_tile_cols = max_log2_n_tiles;
-    const int min_log2_tile_cols = min_log2_n_tiles;
-    int max_ones = max_log2_tile_cols - min_log2_tile_cols;
-    int log2_tile_cols = min_log2_tile_cols;
-    while (max_ones-- && ReadBit())
-      log2_tile_cols++;
-
-    // rows
-    int log2_tile_rows = ReadBit();
-    if (log2_tile_rows)
-      log2_tile_rows += ReadBit();
-
-    row_tiles_ = 1 << log2_tile_rows;
-    column_tiles_ = 1 << log2_tile_cols;
+  if (ReadBit()) {  // segmentation_update_data
+    ReadBit();  // Consume abs delta update
+    const int kMaxSegments = 8;
+    const int kSegmentationFeatures = 4;
+    // Bits of each feature's value, including the sign.
+    const int kFeatureBits[kSegmentationFeatures] = {8 + 1, 6 + 1, 2, 0};
+    for (int i = 0; i < kMaxSegments; ++i) {
+      for (int j = 0; j < kSegmentationFeatures; ++j) {
+        if (ReadBit())
+          VpxReadLiteral(kFeatureBits[j]);  // Consume feature value + sign
+      }
+    }
   }
 }
 
diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index b9458ab..d9c35a5 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -98,6 +98,7 @@ class Vp9HeaderParser {
 
   // Parses row and column tiles. This function skips over some features.
   void ParseTileInfo();
+  void SkipSegmentation();
   void SkipDeltaQ();
   int AlignPowerOfTwo(int value, int n);
 
-- 
2.43.0


From 9705dea3de21149f3a4fcdedf64c3fb392e1300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:35 +0000
Subject: [PATCH 054/107] fix: reject an invalid VP9 level that follows a valid
 one

ParseVpxCodecPrivate() accepted any further level once a valid one was set.
---
 common/hdr_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..c82e4c1 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -179,6 +179,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
       const int levels[kNumLevels] = {10, 11, 20, 21, 30, 31, 40,
                                       41, 50, 51, 52, 60, 61, 62};
 
+      bool valid_level = false;
       for (int i = 0; i < kNumLevels; ++i) {
         if (priv_level == levels[i]) {
           if (features->level != Vp9CodecFeatures::kValueNotPresent &&
@@ -186,10 +187,11 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
             return false;
           }
           features->level = priv_level;
+          valid_level = true;
           break;
         }
       }
-      if (features->level == Vp9CodecFeatures::kValueNotPresent)
+      if (!valid_level)
         return false;
     } else if (id_byte == kVp9BitDepthId) {
       const int priv_profile = static_cast<int>(private_data[offset++]);
-- 
2.43.0


From 40b8b392a8e9f6170041777d972022732fb31de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:35 +0000
Subject: [PATCH 055/107] fix: compute the VP9 luma picture size without
 overflow

---
 common/vp9_level_stats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 96a4bcc..b06bbe6 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -41,7 +41,7 @@ void Vp9LevelStats::AddFrame(const Vp9HeaderParser& parser, int64_t time_ns) {
 
   const int width = parser.width();
   const int height = parser.height();
-  const int64_t luma_picture_size = width * height;
+  const int64_t luma_picture_size = static_cast<int64_t>(width) * height;
   const int64_t luma_picture_breadth = (width > height) ? width : height;
   if (luma_picture_size > max_luma_picture_size_)
     max_luma_picture_size_ = luma_picture_size;
-- 
2.43.0


From a5d40cbe080022a06392d4906ef63780721736a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:11 +0000
Subject: [PATCH 056/107] fix: report the VP9 level of streams without altref
 distance

The altref distance -1 of a stream with fewer than two altref frames was
taken for a distance that is too small, and no level was reported.
---
 common/vp9_level_stats.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index b06bbe6..f1c5db3 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -210,7 +210,9 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   // If not, set to unknown level as we can't move up a level as the minimum
   // altref distance get farther apart and we can't move down a level as we are
   // already at the minimum level for all the other requirements.
-  if (min_altref_distance < Vp9LevelTable[level_index].min_altref_distance)
+  // There is no distance to check unless there are two altref frames.
+  if (min_altref_distance != -1 &&
+      min_altref_distance < Vp9LevelTable[level_index].min_altref_distance)
     max_level = LEVEL_UNKNOWN;
 
   // The minimum compression ratio has the same behavior as minimum altref
-- 
2.43.0


From 03b625e78376d9ba32b1a6f631edde8485a48dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:11 +0000
Subject: [PATCH 057/107] fix: do not report a VP9 level whose limits are
 exceeded

A value beyond the limit of every level was ignored, as was a number of
reference frames above the limit of the level chosen.
---
 common/vp9_level_stats.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index f1c5db3..e4b3fb5 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -177,7 +177,7 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   }
   for (int i = 0; i < kNumVp9Levels; ++i) {
     // Only check CPB size for levels that are defined.
-    if (Vp9LevelTable[i].max_cpb_size > 0 &&
+    if (Vp9LevelTable[i].max_cpb_size == 0 ||
         max_cpb_size <= Vp9LevelTable[i].max_cpb_size) {
       if (max_level < Vp9LevelTable[i].level) {
         max_level = Vp9LevelTable[i].level;
@@ -196,16 +196,22 @@ Vp9Level Vp9LevelStats::GetLevel() const {
     }
   }
 
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_ref_frames <= Vp9LevelTable[i].max_ref_frames) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
+  // Check if there is a level for each of the requirements. If not, the limits
+  // of the highest level are exceeded.
+  const Vp9LevelRow& highest = Vp9LevelTable[kNumVp9Levels - 1];
+  if (max_luma_sample_rate > highest.max_luma_sample_rate * grace_multiplier ||
+      max_luma_picture_size > highest.max_luma_picture_size ||
+      max_luma_picture_breadth > highest.max_luma_picture_breadth ||
+      average_bitrate > highest.average_bitrate ||
+      max_column_tiles > highest.max_tiles) {
+    max_level = LEVEL_UNKNOWN;
   }
 
+  // The maximum number of reference frames gets smaller as the level goes up,
+  // so it has the same behavior as the minimum altref distance.
+  if (max_ref_frames > Vp9LevelTable[level_index].max_ref_frames)
+    max_level = LEVEL_UNKNOWN;
+
   // Check if the current level meets the minimum altref distance requirement.
   // If not, set to unknown level as we can't move up a level as the minimum
   // altref distance get farther apart and we can't move down a level as we are
-- 
2.43.0


From 793dec0b614804c26e6c372d4182c0d8e14ea54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:41 +0000
Subject: [PATCH 058/107] fix: accept empty padding elements in the EBML header

---
 mkvparser/mkvparser.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8b06c1e..5fb9ce8 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -609,9 +609,6 @@ long long EBMLHeader::Parse(IMkvReader* pReader, long long& pos) {
     if (status < 0)  // error
       return status;
 
-    if (size == 0)
-      return E_FILE_FORMAT_INVALID;
-
     if (id == libwebm::kMkvEBMLVersion) {
       m_version = UnserializeUInt(pReader, pos, size);
 
@@ -633,7 +630,7 @@ long long EBMLHeader::Parse(IMkvReader* pReader, long long& pos) {
       if (m_maxSizeLength <= 0)
         return E_FILE_FORMAT_INVALID;
     } else if (id == libwebm::kMkvDocType) {
-      if (m_docType)
+      if (m_docType || size == 0)
         return E_FILE_FORMAT_INVALID;
 
       status = UnserializeString(pReader, pos, size, m_docType);
-- 
2.43.0


From 52ee4aa21f6374fdfb97848d23524febc008326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:41 +0000
Subject: [PATCH 059/107] fix: do not drop seek entries with padding or with
 the position first

---
 mkvparser/mkvparser.cc | 87 +++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 60 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 5fb9ce8..3cb0a15 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1760,79 +1760,46 @@ bool SeekHead::ParseEntry(IMkvReader* pReader, long long start, long long size_,
   long long pos = start;
   const long long stop = start + size_;
 
-  long len;
-
-  // parse the container for the level-1 element ID
-
-  const long long seekIdId = ReadID(pReader, pos, len);
-  if (seekIdId < 0)
-    return false;
-
-  if (seekIdId != libwebm::kMkvSeekID)
-    return false;
-
-  if ((pos + len) > stop)
-    return false;
-
-  pos += len;  // consume SeekID id
-
-  const long long seekIdSize = ReadUInt(pReader, pos, len);
-
-  if (seekIdSize <= 0)
-    return false;
-
-  if ((pos + len) > stop)
-    return false;
-
-  pos += len;  // consume size of field
-
-  if ((pos + seekIdSize) > stop)
-    return false;
-
-  pEntry->id = ReadID(pReader, pos, len);  // payload
-
-  if (pEntry->id <= 0)
-    return false;
-
-  if (len != seekIdSize)
-    return false;
-
-  pos += seekIdSize;  // consume SeekID payload
-
-  const long long seekPosId = ReadID(pReader, pos, len);
+  bool have_id = false;
+  bool have_pos = false;
 
-  if (seekPosId != libwebm::kMkvSeekPosition)
-    return false;
+  while (pos < stop) {
+    long long id, size;
 
-  if ((pos + len) > stop)
-    return false;
+    const long status = ParseElementHeader(pReader, pos, stop, id, size);
 
-  pos += len;  // consume id
+    if (status < 0)  // error
+      return false;
 
-  const long long seekPosSize = ReadUInt(pReader, pos, len);
+    if (id == libwebm::kMkvSeekID) {
+      // the payload is the level-1 element ID
+      long len;
 
-  if (seekPosSize <= 0)
-    return false;
+      if (have_id || size <= 0)
+        return false;
 
-  if ((pos + len) > stop)
-    return false;
+      pEntry->id = ReadID(pReader, pos, len);
 
-  pos += len;  // consume size
+      if (pEntry->id <= 0 || len != size)
+        return false;
 
-  if ((pos + seekPosSize) > stop)
-    return false;
+      have_id = true;
+    } else if (id == libwebm::kMkvSeekPosition) {
+      if (have_pos)
+        return false;
 
-  pEntry->pos = UnserializeUInt(pReader, pos, seekPosSize);
+      pEntry->pos = UnserializeUInt(pReader, pos, size);
 
-  if (pEntry->pos < 0)
-    return false;
+      if (pEntry->pos < 0)
+        return false;
 
-  pos += seekPosSize;  // consume payload
+      have_pos = true;
+    }
 
-  if (pos != stop)
-    return false;
+    pos += size;  // consume payload
+  }
 
-  return true;
+  return have_id && have_pos && pos == stop;
 }
 
 Cues::Cues(Segment* pSegment, long long start_, long long size_,
-- 
2.43.0


From 1210f9ee8f39bb3f3cc76ee05e94508cbd382e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:41 +0000
Subject: [PATCH 060/107] fix: skip padding and unknown elements in colour and
 projection

---
 mkvparser/mkvparser.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 3cb0a15..b801c74 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5063,7 +5063,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
     } else {
       bool is_x = false;
-      PrimaryChromaticity** chromaticity;
+      PrimaryChromaticity** chromaticity = NULL;
       switch (child_id) {
         case libwebm::kMkvPrimaryRChromaticityX:
         case libwebm::kMkvPrimaryRChromaticityY:
@@ -5085,12 +5085,12 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
           is_x = child_id == libwebm::kMkvWhitePointChromaticityX;
           chromaticity = &mm_ptr->white_point;
           break;
-        default:
-          return false;
+        default:  // padding, or an element this parser does not know
+          break;
       }
-      const bool value_parse_status = PrimaryChromaticity::Parse(
-          reader, read_pos, child_size, is_x, chromaticity);
-      if (!value_parse_status)
+      if (chromaticity &&
+          !PrimaryChromaticity::Parse(reader, read_pos, child_size, is_x,
+                                      chromaticity))
         return false;
     }
 
@@ -5189,8 +5189,6 @@ bool Colour::Parse(IMkvReader* reader, long long colour_start,
       if (!MasteringMetadata::Parse(reader, read_pos, child_size,
                                     &colour_ptr->mastering_metadata))
         return false;
-    } else {
-      return false;
     }
 
     read_pos += child_size;
@@ -5247,7 +5245,9 @@ bool Projection::Parse(IMkvReader* reader, long long start, long long size,
 
       projection_ptr->private_data = data;
       projection_ptr->private_data_length = static_cast<size_t>(child_size);
-    } else {
+    } else if (child_id == libwebm::kMkvProjectionPoseYaw ||
+               child_id == libwebm::kMkvProjectionPosePitch ||
+               child_id == libwebm::kMkvProjectionPoseRoll) {
       double value = 0;
       const long long value_parse_status =
           UnserializeFloat(reader, read_pos, child_size, value);
-- 
2.43.0


From 0b891c112775ff8014b57f5149a696c425861eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:41 +0000
Subject: [PATCH 061/107] fix: parse EBML laced blocks of a single frame

---
 mkvparser/mkvparser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index b801c74..0867360 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7853,6 +7853,14 @@ long Block::Parse(const Cluster* pCluster) {
     if (pos != stop)
       return E_FILE_FORMAT_INVALID;
 
+  } else if (m_frame_count == 1) {  // EBML lacing, no sizes are coded
+    const long long frame_size = stop - pos;
+
+    if (frame_size > LONG_MAX || frame_size <= 0)
+      return E_FILE_FORMAT_INVALID;
+
+    m_frames->pos = pos;
+    m_frames->len = static_cast<long>(frame_size);
   } else {
     assert(lacing == 3);  // EBML lacing
 
-- 
2.43.0


From 9045d402d57f0cb40b92452ec3193f60e79fc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:53 +0000
Subject: [PATCH 062/107] fix: end an empty cluster of unknown size with the
 stream

---
 mkvparser/mkvparser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 0867360..a779864 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6971,6 +6971,12 @@ long Cluster::HasBlockEntries(
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       return 0;  // no entries detected
 
+    if ((total >= 0) && (pos >= total))
+      return 0;  // cluster of unknown size ends with the stream
+
+    if ((segment_stop >= 0) && (pos >= segment_stop))
+      return 0;  // cluster of unknown size ends with the segment
+
     if ((pos + 1) > avail) {
       len = 1;
       return E_BUFFER_NOT_FULL;
-- 
2.43.0


From d4d77529d2d1e66798b811f88baece2b3ac149ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 063/107] fix: read chapter UIDs as unsigned integers

---
 mkvparser/mkvparser.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index a779864..d6e779c 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3504,13 +3504,21 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
       if (status < 0)  // error
         return status;
     } else if (id == libwebm::kMkvChapterUID) {
-      long long val;
-      status = UnserializeInt(pReader, pos, size, val);
+      if (size > 8)
+        return E_FILE_FORMAT_INVALID;
 
-      if (status < 0)  // error
-        return status;
+      m_uid = 0;
+
+      for (long long i = 0; i < size; ++i) {
+        unsigned char b;
 
-      m_uid = static_cast<unsigned long long>(val);
+        status = pReader->Read(pos + i, 1, &b);
+
+        if (status)
+          return status;
+
+        m_uid = (m_uid << 8) | b;
+      }
     } else if (id == libwebm::kMkvChapterTimeStart) {
       const long long val = UnserializeUInt(pReader, pos, size);
 
-- 
2.43.0


From b77bae926e34b79dc57d19ef242ff21dab9b5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 064/107] fix: accept content compression with the default
 algorithm

---
 mkvparser/mkvparser.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index d6e779c..ae4e657 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4301,8 +4301,6 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
   long long pos = start;
   const long long stop = start + size;
 
-  bool valid = false;
-
   while (pos < stop) {
     long long id, size;
     const long status = ParseElementHeader(pReader, pos, stop, id, size);
@@ -4314,7 +4312,6 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
       if (algo < 0)
         return E_FILE_FORMAT_INVALID;
       compression->algo = algo;
-      valid = true;
     } else if (id == libwebm::kMkvContentCompSettings) {
       if (size <= 0)
         return E_FILE_FORMAT_INVALID;
@@ -4346,10 +4343,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
       return E_FILE_FORMAT_INVALID;
   }
 
-  // ContentCompAlgo is mandatory
-  if (!valid)
-    return E_FILE_FORMAT_INVALID;
-
+  // ContentCompAlgo has a default value, it need not be present.
   return 0;
 }
 
-- 
2.43.0


From 512a2caa73152676d877c1c7eb373284635ad0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 065/107] fix: report failed reads of content encoding data

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index ae4e657..f2942d7 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4325,7 +4325,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       // There should be only one settings element per content compression.
@@ -4383,7 +4383,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->key_id = buf;
@@ -4405,7 +4405,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->signature = buf;
@@ -4427,7 +4427,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->sig_key_id = buf;
-- 
2.43.0


From eee4f617093851e3e7a698c9fb230d7ae043d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 066/107] fix: end a cluster of unknown size with its segment

---
 mkvparser/mkvparser.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index f2942d7..65e401d 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6123,10 +6123,20 @@ long Cluster::Load(long long& pos, long& len) const {
 
   long long cluster_stop = (cluster_size < 0) ? -1 : pos + cluster_size;
 
+  const long long segment_stop =
+      (m_pSegment->m_size < 0) ? -1 : m_pSegment->m_start + m_pSegment->m_size;
+
   for (;;) {
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       break;
 
+    // A cluster of unknown size ends with the segment or the stream.
+    if ((segment_stop >= 0) && (pos >= segment_stop))
+      break;
+
+    if ((total >= 0) && (pos >= total))
+      break;
+
     // Parse ID
 
     if ((pos + 1) > avail) {
@@ -6287,11 +6297,15 @@ long Cluster::Parse(long long& pos, long& len) const {
 
   pos = m_pos;
 
+  const long long segment_stop =
+      (m_pSegment->m_size < 0) ? -1 : m_pSegment->m_start + m_pSegment->m_size;
+
   for (;;) {
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       break;
 
-    if ((total >= 0) && (pos >= total)) {
+    if (((total >= 0) && (pos >= total)) ||
+        ((segment_stop >= 0) && (pos >= segment_stop))) {
       if (m_element_size < 0)
         m_element_size = pos - m_element_start;
 
-- 
2.43.0


From d6a6d11c6b55338b7537454af3592b639b8c4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:26 +0000
Subject: [PATCH 067/107] fix: wait for the EBML header when only part of its
 ID is available

---
 mkvparser/mkvparser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 65e401d..6f100dd 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -552,6 +552,10 @@ long long EBMLHeader::Parse(IMkvReader* pReader, long long& pos) {
     ++pos;
   }
 
+  // Wait for the whole ID, as long as there is more data to come.
+  if ((available - pos) < 4 && (total < 0 || available < total))
+    return E_BUFFER_NOT_FULL;
+
   long len = 0;
   const long long ebml_id = ReadID(pReader, pos, len);
 
-- 
2.43.0


From 5d35e4b070606e842049a0b71d924a14c96cd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:26 +0000
Subject: [PATCH 068/107] fix: wait until the cues are available before using
 them

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 6f100dd..9dbdcaf 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1151,6 +1151,12 @@ long Segment::DoLoadCluster(long long& pos, long& len) {
         return E_FILE_FORMAT_INVALID;
       }
 
+      // The cue points are read without checking that they are available.
+      if (size > avail - pos && (total < 0 || size <= total - pos)) {
+        len = static_cast<long>(size);
+        return E_BUFFER_NOT_FULL;
+      }
+
       if (m_pCues == NULL) {
         const long long element_size = (pos - idpos) + size;
 
@@ -2925,6 +2931,12 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
       if ((segment_stop >= 0) && (element_stop > segment_stop))
         return E_FILE_FORMAT_INVALID;
 
+      // The cue points are read without checking that they are available.
+      if (size > avail - pos && (total < 0 || size <= total - pos)) {
+        len = static_cast<long>(size);
+        return E_BUFFER_NOT_FULL;
+      }
+
       const long long element_start = idpos;
       const long long element_size = element_stop - element_start;
 
-- 
2.43.0


From 73154285ad4504acb3561d95e45a22006a9cb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:16 +0000
Subject: [PATCH 069/107] fix: do not assert that the data after a preloaded
 cluster is valid

---
 mkvparser/mkvparser.cc | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9dbdcaf..65363cd 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2537,16 +2537,14 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
   long long pos = pCurr->m_element_start;
 
-  assert(m_size >= 0);  // TODO
-  const long long stop = m_start + m_size;  // end of segment
+  // end of segment, or the largest position when that is not known
+  const long long stop = (m_size >= 0) ? m_start + m_size : LLONG_MAX;
 
   {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || len > stop - pos)
       return NULL;
 
     const long long id = ReadID(m_pReader, pos, len);
@@ -2557,15 +2555,17 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || len > stop - pos)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size > 0);  // TODO
+    if (size <= 0)
+      return NULL;
     // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if (size > stop - pos)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2578,9 +2578,7 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || len > stop - pos)
       return NULL;
 
     const long long idpos = pos;  // pos of next (potential) cluster
@@ -2593,14 +2591,16 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || len > stop - pos)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size >= 0);  // TODO
+    if (size < 0)
+      return NULL;
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if (size > stop - pos)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2615,7 +2615,8 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
       const long status = Cluster::HasBlockEntries(this, off_next_, pos_, len_);
 
-      assert(status >= 0);
+      if (status < 0)
+        return NULL;
 
       if (status > 0) {
         off_next = off_next_;
-- 
2.43.0


From 73389dcfeda2b5bf8a66f3b99017a9891060bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:16 +0000
Subject: [PATCH 070/107] fix: do not assert that the blocks of a cluster are
 valid

---
 mkvparser/mkvparser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 65363cd..e1c5824 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7469,12 +7469,11 @@ const BlockEntry* Cluster::GetEntry(const Track* pTrack,
       long len;
 
       const long status = Parse(pos, len);
-      assert(status >= 0);
 
       if (status > 0)  // completely parsed, and no more entries
         return pResult;
 
-      if (status < 0)  // should never happen
+      if (status < 0)  // error
         return 0;
 
       assert(m_entries);
-- 
2.43.0


From 740e1f86d22d45266e7e58c09933df970c2c00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:16 +0000
Subject: [PATCH 071/107] fix: do not assert that a block group is valid

---
 mkvparser/mkvparser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index e1c5824..7406418 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7251,8 +7251,8 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);  // TODO
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     pos += len;  // consume size
 
@@ -7277,7 +7277,6 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
       long long time;
 
       long status = UnserializeInt(pReader, pos, size_, time);
-      assert(status == 0);
       if (status != 0)
         return -1;
 
-- 
2.43.0


From 5a1a4257a6bfa5c2a9da928940cacda243481c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 072/107] fix: seek to times between a cluster and an earlier
 block of it

---
 mkvparser/mkvparser.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 7406418..d8a4898 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4853,7 +4853,6 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -4885,13 +4884,14 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  if (lo <= i)  // time precedes the cluster (but not its first block)
+    return 0;
+
   while (lo > i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this);
 
@@ -5481,7 +5481,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -5513,12 +5512,13 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  if (lo <= i)  // time precedes the cluster (but not its first block)
+    ++lo;
+
   pCluster = *--lo;
   assert(pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   pResult = pCluster->GetEntry(this, time_ns);
 
@@ -5528,7 +5528,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   while (lo != i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this, time_ns);
 
-- 
2.43.0


From f546da83e179fd81f69cede81846382dd14cf3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 073/107] fix: do not assert that cue points can be read

---
 mkvparser/mkvparser.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index d8a4898..6900d6f 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2280,7 +2280,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2320,7 +2321,7 @@ bool CuePoint::Load(IMkvReader* pReader) {
     else if (id == libwebm::kMkvCueTrackPositions) {
       ++track_positions_count;
       if (track_positions_count > UINT_MAX)
-        return E_PARSE_FAILED;
+        return false;
     }
 
     pos += size;  // consume payload
@@ -2355,11 +2356,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
-- 
2.43.0


From fd821c58277569bc397b34972e9f38112290b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 074/107] fix: stop loading cue points when one cannot be read

---
 mkvparser/mkvparser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 6900d6f..a498a3d 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1950,18 +1950,24 @@ bool Cues::LoadCuePoint() const {
     long len;
 
     const long long id = ReadID(pReader, m_pos, len);
-    if (id < 0 || (m_pos + len) > stop)
+    if (id < 0 || (m_pos + len) > stop) {
+      m_pos = stop;
       return false;
+    }
 
     m_pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, m_pos, len);
-    if (size < 0 || (m_pos + len) > stop)
+    if (size < 0 || (m_pos + len) > stop) {
+      m_pos = stop;
       return false;
+    }
 
     m_pos += len;  // consume Size field
-    if ((m_pos + size) > stop)
+    if ((m_pos + size) > stop) {
+      m_pos = stop;
       return false;
+    }
 
     if (id != libwebm::kMkvCuePoint) {
       m_pos += size;  // consume payload
-- 
2.43.0


From 804c9e0dab5514c7ed6f2e13d1216d66aa86d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 075/107] fix: do not allocate memory for data that exceeds its
 parent element

---
 mkvparser/mkvparser.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index a498a3d..b8fcc87 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4338,7 +4338,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
         return E_FILE_FORMAT_INVALID;
       compression->algo = algo;
     } else if (id == libwebm::kMkvContentCompSettings) {
-      if (size <= 0)
+      if (size <= 0 || size > stop - pos)
         return E_FILE_FORMAT_INVALID;
 
       const size_t buflen = static_cast<size_t>(size);
@@ -4396,7 +4396,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->key_id = NULL;
       encryption->key_id_len = 0;
 
-      if (size <= 0)
+      if (size <= 0 || size > stop - pos)
         return E_FILE_FORMAT_INVALID;
 
       const size_t buflen = static_cast<size_t>(size);
@@ -4418,7 +4418,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->signature = NULL;
       encryption->signature_len = 0;
 
-      if (size <= 0)
+      if (size <= 0 || size > stop - pos)
         return E_FILE_FORMAT_INVALID;
 
       const size_t buflen = static_cast<size_t>(size);
@@ -4440,7 +4440,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->sig_key_id = NULL;
       encryption->sig_key_id_len = 0;
 
-      if (size <= 0)
+      if (size <= 0 || size > stop - pos)
         return E_FILE_FORMAT_INVALID;
 
       const size_t buflen = static_cast<size_t>(size);
@@ -5255,7 +5255,7 @@ bool Projection::Parse(IMkvReader* reader, long long start, long long size,
 
       projection_ptr->type = static_cast<ProjectionType>(projection_type);
     } else if (child_id == libwebm::kMkvProjectionPrivate) {
-      if (projection_ptr->private_data != NULL)
+      if (projection_ptr->private_data != NULL || child_size > end - read_pos)
         return false;
       unsigned char* data = SafeArrayAlloc<unsigned char>(1, child_size);
 
@@ -5893,6 +5893,9 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
       info.codecPrivate = NULL;
       info.codecPrivateSize = 0;
 
+      if (size > track_stop - pos)
+        return E_FILE_FORMAT_INVALID;
+
       const size_t buflen = static_cast<size_t>(size);
 
       if (buflen) {
-- 
2.43.0


From 6c5a3639ec92bcff942f0730810827b27573bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 076/107] fix: find the cluster after a preloaded cluster that
 is not parsed

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index b8fcc87..361cd04 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2764,7 +2764,7 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     if ((pos + len) > avail)
       return E_BUFFER_NOT_FULL;
 
-    const long long id = ReadUInt(m_pReader, pos, len);
+    const long long id = ReadID(m_pReader, pos, len);
 
     if (id != libwebm::kMkvCluster)
       return -1;
-- 
2.43.0


From fddffc57f67ffa47465bf974f6dd4b5c11edc8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 077/107] fix: keep the position while looking for a preloaded
 cluster

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 361cd04..3b41ea8 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3010,12 +3010,12 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
     assert(pNext);
     assert(pNext->m_index < 0);
 
-    pos = pNext->GetPosition();
-    assert(pos >= 0);
+    const long long pos_next = pNext->GetPosition();
+    assert(pos_next >= 0);
 
-    if (pos < off_next)
+    if (pos_next < off_next)
       i = k + 1;
-    else if (pos > off_next)
+    else if (pos_next > off_next)
       j = k;
     else {
       pResult = pNext;
-- 
2.43.0


From a532a4f3f91ac124bbdd0455a37b659b9920f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:10 +0000
Subject: [PATCH 078/107] fix: continue after preloaded clusters of unknown
 size

---
 mkvparser/mkvparser.cc | 63 +++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 3b41ea8..373baf4 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1259,10 +1259,12 @@ long Segment::DoLoadCluster(long long& pos, long& len) {
       else {
         const long long element_size = pCluster->GetElementSize();
 
-        if (element_size <= 0)
-          return E_FILE_FORMAT_INVALID;  // TODO: handle this case
-
-        pos = pCluster->m_element_start + element_size;
+        if (element_size <= 0) {
+          m_pUnknownSize = pCluster;  // find its end when it is parsed
+          pos = -pos;
+        } else {
+          pos = pCluster->m_element_start + element_size;
+        }
       }
 
       pCluster->m_index = idx;  // move from preloaded to loaded
@@ -2572,12 +2574,29 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
 
     pos += len;  // consume length of size of element
-    if (size > stop - pos)
-      return NULL;
 
     // Pos now points to start of payload
 
-    pos += size;  // consume payload
+    if (size == (1LL << (7 * len)) - 1) {  // unknown size
+      long status;
+
+      do {
+        long long pos_;
+        long len_;
+
+        status = pCurr->Parse(pos_, len_);
+      } while (status == 0);
+
+      if (status < 0 || pCurr->m_element_size < 0)
+        return NULL;
+
+      pos = pCurr->m_element_start + pCurr->m_element_size;
+    } else {
+      if (size > stop - pos)
+        return NULL;
+
+      pos += size;  // consume payload
+    }
   }
 
   long long off_next = 0;
@@ -2606,8 +2625,10 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     if (size < 0)
       return NULL;
 
+    const bool unknown_size = (size == (1LL << (7 * len)) - 1);
+
     pos += len;  // consume length of size of element
-    if (size > stop - pos)
+    if (unknown_size ? id != libwebm::kMkvCluster : size > stop - pos)
       return NULL;
 
     // Pos now points to start of payload
@@ -2630,6 +2651,9 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
         off_next = off_next_;
         break;
       }
+
+      if (unknown_size)  // its children come next
+        continue;
     }
 
     pos += size;  // consume payload
@@ -2801,17 +2825,30 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
 
     const long long unknown_size = (1LL << (7 * len)) - 1;
 
-    if (size == unknown_size)  // TODO: should never happen
-      return E_FILE_FORMAT_INVALID;  // TODO: resolve this
-
     // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
 
-    if ((segment_stop >= 0) && ((pos + size) > segment_stop))
+    if ((segment_stop >= 0) && (size != unknown_size) &&
+        ((pos + size) > segment_stop))
       return E_FILE_FORMAT_INVALID;
 
     // Pos now points to start of payload
 
-    pos += size;  // consume payload (that is, the current cluster)
+    if (size == unknown_size) {  // parse the cluster to find its end
+      do {
+        status = pCurr->Parse(pos, len);
+
+        if (status < 0)  // error or underflow
+          return status;
+      } while (status == 0);
+
+      if (pCurr->m_element_size < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      pos = pCurr->m_element_start + pCurr->m_element_size;
+    } else {
+      pos += size;  // consume payload (that is, the current cluster)
+    }
+
     if (segment_stop >= 0 && pos > segment_stop)
       return E_FILE_FORMAT_INVALID;
 
-- 
2.43.0


From 367fea3aeacc37328fb20bc1b5dfb07b256faf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 079/107] fix: do not assert that the cluster being loaded has
 a known size

---
 mkvparser/mkvparser.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 373baf4..8d792c4 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2749,8 +2749,6 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     return 0;  // success
   }
 
-  assert(m_pos > 0);
-
   long long total, avail;
 
   long status = m_pReader->Length(&total, &avail);
-- 
2.43.0


From 3c41a701741ac5f648a4598ed701cfc7656b08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:26 +0000
Subject: [PATCH 080/107] fix: accept a maximum luminance without a minimum
 luminance

An unset minimum compares as larger than every maximum, so mastering metadata
with just a maximum luminance was refused.
---
 mkvmuxer/mkvmuxer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index c17a2be..f146197 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1002,7 +1002,8 @@ bool MasteringMetadata::Valid() const {
   }
   if (luminance_max_ != kValueNotPresent) {
     if (luminance_max_ < kMinLuminance || luminance_max_ > kMaxLuminanceMax ||
-        luminance_max_ < luminance_min_) {
+        (luminance_min_ != kValueNotPresent &&
+         luminance_max_ < luminance_min_)) {
       return false;
     }
   }
-- 
2.43.0


From 5a6a9242709d13b907ffebfd8b967eb79d10fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:26 +0000
Subject: [PATCH 081/107] fix: read the largest luminance the muxer writes

9999.99f is above 9999.99, so a file with the maximum luminance could not be
parsed.
---
 mkvparser/mkvparser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8d792c4..0a7b3d8 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5107,7 +5107,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_max = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_max < 0.0 ||
-          mm_ptr->luminance_max > 9999.99) {
+          mm_ptr->luminance_max > 9999.99f) {
         return false;
       }
     } else if (child_id == libwebm::kMkvLuminanceMin) {
@@ -5120,7 +5120,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_min = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_min < 0.0 ||
-          mm_ptr->luminance_min > 999.9999) {
+          mm_ptr->luminance_min > 999.9999f) {
         return false;
       }
     } else {
-- 
2.43.0


From 8502d2b51945e06c253e55973acc68697e9826f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:26 +0000
Subject: [PATCH 082/107] fix: report the content encodings of subtitle tracks

---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 0a7b3d8..43d92fa 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6049,6 +6049,9 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
 
     pResult = pTrack;
     assert(pResult);
+
+    if (e.start >= 0)
+      pResult->ParseContentEncodingsEntry(e.start, e.size);
   }
 
   return 0;  // success
-- 
2.43.0


From 41c56bf14c79f61ed87f5bdeb739db7a3d0c037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:05 +0000
Subject: [PATCH 083/107] fix: write chapters that have no identifier

The identifier is optional, but without it no chapters could be written.
---
 mkvmuxer/mkvmuxer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f146197..7f8e284 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1996,7 +1996,7 @@ bool Chapter::ExpandDisplaysArray() {
 
 uint64_t Chapter::WriteAtom(IMkvWriter* writer) const {
   uint64_t payload_size =
-      EbmlElementSize(libwebm::kMkvChapterStringUID, id_) +
+      (id_ ? EbmlElementSize(libwebm::kMkvChapterStringUID, id_) : 0) +
       EbmlElementSize(libwebm::kMkvChapterUID, static_cast<uint64>(uid_)) +
       EbmlElementSize(libwebm::kMkvChapterTimeStart,
                       static_cast<uint64>(start_timecode_)) +
@@ -2020,7 +2020,7 @@ uint64_t Chapter::WriteAtom(IMkvWriter* writer) const {
   if (!WriteEbmlMasterElement(writer, libwebm::kMkvChapterAtom, payload_size))
     return 0;
 
-  if (!WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
+  if (id_ && !WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
     return 0;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvChapterUID,
-- 
2.43.0


From 1a681e56edbc3c2111a83887261cffab0c97adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:32 +0000
Subject: [PATCH 084/107] fix: demux cues whose stop time equals their start
 time

The muxer stores them in simple blocks, on which vttdemux gave up.
---
 vttdemux.cc | 47 ++++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/vttdemux.cc b/vttdemux.cc
index 186783b..7cc05e9 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -48,12 +48,12 @@ enum { kChaptersKey = 0 };
 class FrameParser : public libwebvtt::LineReader {
  public:
   //  Bind the FrameParser instance to a WebM block.
-  explicit FrameParser(const mkvparser::BlockGroup* block_group);
+  explicit FrameParser(const mkvparser::BlockEntry* block_entry);
   virtual ~FrameParser();
 
-  // The Webm block (group) to which this instance is bound.  We
-  // treat the payload of the block as a stream of characters.
-  const mkvparser::BlockGroup* const block_group_;
+  // The Webm block to which this instance is bound.  We treat the
+  // payload of the block as a stream of characters.
+  const mkvparser::BlockEntry* const block_entry_;
 
  protected:
   // Read the next character from the character stream (the payload
@@ -189,10 +189,10 @@ bool ProcessCluster(const metadata_map_t& metadata_map,
 bool ProcessBlockEntry(const metadata_map_t& metadata_map,
                        const mkvparser::BlockEntry* block_entry);
 
-// Parse the lines of text from the |block_group| to reconstruct the
+// Parse the lines of text from the |block_entry| to reconstruct the
 // original WebVTT cue, and write it to the associated output |file|.
 // Returns false if there was an error writing to the output file.
-bool WriteCue(FILE* file, const mkvparser::BlockGroup* block_group);
+bool WriteCue(FILE* file, const mkvparser::BlockEntry* block_entry);
 
 // Consume a line of text from the character stream, and if the line
 // is not empty write the cue identifier to the associated output
@@ -219,9 +219,9 @@ bool WriteCuePayload(FILE* f, FrameParser* parser);
 
 namespace vttdemux {
 
-FrameParser::FrameParser(const mkvparser::BlockGroup* block_group)
-    : block_group_(block_group) {
-  const mkvparser::Block* const block = block_group->GetBlock();
+FrameParser::FrameParser(const mkvparser::BlockEntry* block_entry)
+    : block_entry_(block_entry) {
+  const mkvparser::Block* const block = block_entry->GetBlock();
   const mkvparser::Block::Frame& f = block->GetFrame(0);
 
   // The beginning and end of the character stream corresponds to the
@@ -237,7 +237,7 @@ int FrameParser::GetChar(char* c) {
   if (pos_ >= pos_end_)  // end-of-stream
     return 1;  // per the semantics of libwebvtt::Reader::GetChar
 
-  const mkvparser::Cluster* const cluster = block_group_->GetCluster();
+  const mkvparser::Cluster* const cluster = block_entry_->GetCluster();
   const mkvparser::Segment* const segment = cluster->m_pSegment;
   mkvparser::IMkvReader* const reader = segment->m_pReader;
 
@@ -781,22 +781,16 @@ bool vttdemux::ProcessBlockEntry(const metadata_map_t& m,
   if (i == m.end())  // not a metadata track
     return true;  // nothing else to do
 
-  if (block_entry->GetKind() != mkvparser::BlockEntry::kBlockGroup)
-    return false;  // weird
-
-  typedef mkvparser::BlockGroup BG;
-  const BG* const block_group = static_cast<const BG*>(block_entry);
-
   const MetadataInfo& info = i->second;
   FILE* const f = info.file;
 
-  return WriteCue(f, block_group);
+  return WriteCue(f, block_entry);
 }
 
-bool vttdemux::WriteCue(FILE* f, const mkvparser::BlockGroup* block_group) {
+bool vttdemux::WriteCue(FILE* f, const mkvparser::BlockEntry* block_entry) {
   // Bind a FrameParser object to the block, which allows us to
   // extract each line of text from the payload of the block.
-  FrameParser parser(block_group);
+  FrameParser parser(block_entry);
 
   // We start a new cue by writing a cue separator (an empty line)
   // into the stream.
@@ -844,9 +838,9 @@ bool vttdemux::WriteCueIdentifier(FILE* f, FrameParser* parser) {
 }
 
 bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
-  const mkvparser::BlockGroup* const block_group = parser->block_group_;
-  const mkvparser::Cluster* const cluster = block_group->GetCluster();
-  const mkvparser::Block* const block = block_group->GetBlock();
+  const mkvparser::BlockEntry* const block_entry = parser->block_entry_;
+  const mkvparser::Cluster* const cluster = block_entry->GetCluster();
+  const mkvparser::Block* const block = block_entry->GetBlock();
 
   // A WebVTT Cue "timings" line comprises two parts: the start and
   // stop time for this cue, followed by the (optional) cue settings,
@@ -863,7 +857,14 @@ bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
   if (fputs(" --> ", f) < 0)
     return false;
 
-  const mkvtime_t duration_timecode = block_group->GetDurationTimeCode();
+  // A cue whose stop time equals its start time is stored in a simple block.
+  mkvtime_t duration_timecode = 0;
+
+  if (block_entry->GetKind() == mkvparser::BlockEntry::kBlockGroup) {
+    typedef mkvparser::BlockGroup BG;
+    const BG* const block_group = static_cast<const BG*>(block_entry);
+    duration_timecode = block_group->GetDurationTimeCode();
+  }
 
   if (duration_timecode < 0)
     return false;
-- 
2.43.0


From e07854c71bb84f9a026f084b9292ca76f5ef3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:42 +0000
Subject: [PATCH 085/107] fix: close files that a writer of a borrowed file
 opens later

---
 mkvmuxer/mkvwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvmuxer/mkvwriter.cc b/mkvmuxer/mkvwriter.cc
index 9b714a5..f45fea3 100644
--- a/mkvmuxer/mkvwriter.cc
+++ b/mkvmuxer/mkvwriter.cc
@@ -51,6 +51,7 @@ bool MkvWriter::Open(const char* filename) {
 #endif
   if (file_ == NULL)
     return false;
+  writer_owns_file_ = true;
   return true;
 }
 
-- 
2.43.0


From bf053ee7b4fe0322e244a1bc6af76a52b04627ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:12 +0000
Subject: [PATCH 086/107] fix: close files that a reader of a borrowed file
 opens later

---
 mkvparser/mkvreader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 4672604..789ff54 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -43,6 +43,7 @@ int MkvReader::Open(const char* fileName) {
   if (m_file == NULL)
     return -1;
 #endif
+  reader_owns_file_ = true;
   return !GetFileSize();
 }
 
-- 
2.43.0


From 568d4a154d5ebe0153f0a1da398ed6fc0bbce2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:33 +0000
Subject: [PATCH 087/107] fix: do not assert that a file being read is seekable

---
 mkvparser/mkvreader.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 789ff54..46b0254 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -9,8 +9,6 @@
 
 #include <sys/types.h>
 
-#include <cassert>
-
 namespace mkvparser {
 
 MkvReader::MkvReader() : m_file(NULL), reader_owns_file_(true) {}
@@ -44,7 +42,13 @@ int MkvReader::Open(const char* fileName) {
     return -1;
 #endif
   reader_owns_file_ = true;
-  return !GetFileSize();
+
+  if (!GetFileSize()) {
+    Close();
+    return -1;
+  }
+
+  return 0;
 }
 
 bool MkvReader::GetFileSize() {
@@ -61,10 +65,11 @@ bool MkvReader::GetFileSize() {
   fseek(m_file, 0L, SEEK_END);
   m_length = ftell(m_file);
 #endif
-  assert(m_length >= 0);
 
-  if (m_length < 0)
+  if (m_length < 0) {
+    m_length = 0;
     return false;
+  }
 
 #ifdef _MSC_VER
   status = _fseeki64(m_file, 0L, SEEK_SET);
-- 
2.43.0


From 16b9c46f9cb1ac5cd06efea32e2d952ddf6a93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:45 +0000
Subject: [PATCH 088/107] fix: refuse to move the cues of a segment that is not
 finalized to a file

---
 mkvmuxer/mkvmuxer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 7f8e284..8bad020 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3065,6 +3065,7 @@ Segment::Segment()
       chunk_writer_header_(NULL),
       chunking_(false),
       chunking_base_name_(NULL),
+      cluster_end_offset_(0),
       cluster_list_(NULL),
       cluster_list_capacity_(0),
       cluster_list_size_(0),
@@ -3207,9 +3208,10 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
   if (!writer->Seekable() || chunking_)
     return false;
-  // Without clusters and cues there is nothing to move.
+  // Without clusters and cues there is nothing to move, and they are complete
+  // only in a finalized file.
   if (cluster_list_size_ < 1 || !output_cues_ ||
-      cues_.cue_entries_size() < 1) {
+      cues_.cue_entries_size() < 1 || cluster_end_offset_ == 0) {
     return false;
   }
   const int64_t cluster_offset =
-- 
2.43.0


From e414040195e3968f826060dcf2c06954e5f41fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:18 +0000
Subject: [PATCH 089/107] fix: count the duration of queued frames at the last
 frame time

A queued frame whose time equals the last frame time (in particular frames at
time zero) lost its duration, so the segment duration did not include it.
---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 8bad020..557c510 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4144,7 +4144,7 @@ bool Segment::WriteQueuedFrame(Cluster* cluster, Frame* frame) {
   }
 
   last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
-  if (frame->timestamp() > last_timestamp_) {
+  if (frame->timestamp() >= last_timestamp_) {
     last_timestamp_ = frame->timestamp();
     last_block_duration_ = frame->duration();
   }
-- 
2.43.0


From 00026851a503c63e7a0eb1f3e7f97acf6874d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:20 +0000
Subject: [PATCH 090/107] fix: write the header of a segment that is finalized
 without frames

On an output that is not seekable Finalize reported success and left an empty
file.
---
 mkvmuxer/mkvmuxer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 557c510..2ccceac 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3257,6 +3257,10 @@ bool Segment::Finalize() {
   if (WriteFramesAll() < 0)
     return false;
 
+  // A segment without frames still needs its header.
+  if (!header_written_ && !WriteSegmentHeader())
+    return false;
+
   // In kLive mode, call Cluster::Finalize only if |accurate_cluster_duration_|
   // is set. In all other modes, always call Cluster::Finalize.
   if ((mode_ == kLive ? accurate_cluster_duration_ : true) &&
-- 
2.43.0


From bc7525cf6975f656adb66630a82d7b7eea76cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 091/107] fix: end a cluster of unknown size at any other
 element of the segment

---
 mkvparser/mkvparser.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 43d92fa..cadce09 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -23,6 +23,19 @@
 #include "common/webmids.h"
 
 namespace mkvparser {
+
+namespace {
+
+// Returns true if an element with this ID is a sibling of the clusters of a
+// segment, hence the end of a preceding cluster of unknown size.
+bool IsClusterSibling(long long id) {
+  return id == libwebm::kMkvCluster || id == libwebm::kMkvCues ||
+         id == libwebm::kMkvSeekHead || id == libwebm::kMkvInfo ||
+         id == libwebm::kMkvTracks || id == libwebm::kMkvChapters ||
+         id == libwebm::kMkvTags;
+}
+
+}  // namespace
 const long long kStringElementSizeLimit = 20 * 1000 * 1000;
 const float MasteringMetadata::kValueNotPresent = FLT_MAX;
 const long long Colour::kValueNotPresent = LLONG_MAX;
@@ -3136,7 +3149,7 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
       // that we have exhausted the sub-element's inside the cluster
       // whose ID we parsed earlier.
 
-      if (id == libwebm::kMkvCluster || id == libwebm::kMkvCues)
+      if (IsClusterSibling(id))
         break;
 
       pos += len;  // consume ID (of sub-element)
@@ -6241,6 +6254,9 @@ long Cluster::Load(long long& pos, long& len) const {
     if (id == libwebm::kMkvCues)
       break;
 
+    if (cluster_stop < 0 && IsClusterSibling(id))
+      break;
+
     pos += len;  // consume ID field
 
     // Parse Size
@@ -6407,7 +6423,8 @@ long Cluster::Parse(long long& pos, long& len) const {
     // that we have exhausted the sub-element's inside the cluster
     // whose ID we parsed earlier.
 
-    if ((id == libwebm::kMkvCluster) || (id == libwebm::kMkvCues)) {
+    if ((id == libwebm::kMkvCluster) || (id == libwebm::kMkvCues) ||
+        (cluster_stop < 0 && IsClusterSibling(id))) {
       if (m_element_size < 0)
         m_element_size = pos - m_element_start;
 
@@ -7092,6 +7109,9 @@ long Cluster::HasBlockEntries(
     if (id == libwebm::kMkvCues)
       return 0;  // no entries found
 
+    if (cluster_stop < 0 && IsClusterSibling(id))
+      return 0;  // no entries found
+
     pos += len;  // consume id field
 
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
-- 
2.43.0


From 62b215f9c03c1e128c6082b28176cd92709cbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 092/107] fix: let webm_info -all print the SeekHead too

---
 webm_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/webm_info.cc b/webm_info.cc
index e0ac153..4a83be6 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -93,6 +93,7 @@ void Options::SetAll(bool value) {
   output_ebml_header = value;
   output_seconds = value;
   output_segment = value;
+  output_seekhead = value;
   output_segment_info = value;
   output_tracks = value;
   output_clusters = value;
-- 
2.43.0


From 84ad8717a6df7c0044fa7c6aefcd430b9d88e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 093/107] fix: do not print a made-up size of a segment of
 unknown size in webm_info

---
 webm_info.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 4a83be6..42c82d5 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -205,9 +205,13 @@ void OutputSegment(const mkvparser::Segment& segment, const Options& options,
   fprintf(o, "Segment:");
   if (options.output_offset)
     fprintf(o, "  @: %lld", segment.m_element_start);
-  if (options.output_size)
-    fprintf(o, "  size: %lld",
-            segment.m_size + segment.m_start - segment.m_element_start);
+  if (options.output_size) {
+    if (segment.m_size < 0)
+      fprintf(o, "  size: unknown");
+    else
+      fprintf(o, "  size: %lld",
+              segment.m_size + segment.m_start - segment.m_element_start);
+  }
   fprintf(o, "\n");
 }
 
-- 
2.43.0


From 3ba2fb25189335a32a2c419111b289c29fcd773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 094/107] fix: do not print bytes of other frames as
 initialization vector in webm_info

---
 webm_info.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 42c82d5..3a7a754 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -976,8 +976,9 @@ bool OutputCluster(const mkvparser::Cluster& cluster,
             fprintf(o, " enc: %d", encrypted_frame ? 1 : 0);
             fprintf(o, " sub: %d", sub_sample_encrypt ? 1 : 0);
 
-            if (encrypted_frame) {
-              uint64_t iv;
+            uint64_t iv;
+            if (encrypted_frame &&
+                frame.len >= kSignalByteSize + static_cast<int>(sizeof(iv))) {
               memcpy(&iv, data + kSignalByteSize, sizeof(iv));
               fprintf(o, " iv: %" PRIx64, iv);
             }
-- 
2.43.0


From cd24c0328f799b7e106c809a60ff431583f5ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 095/107] fix: print names and titles with characters outside
 ASCII in webm_info

---
 webm_info.cc | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 3a7a754..107c5fa 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -32,7 +32,6 @@ using libwebm::kNanosecondsPerSecond;
 using libwebm::kNanosecondsPerSecondi;
 using mkvparser::ContentEncoding;
 using std::string;
-using std::wstring;
 
 const char VERSION_STRING[] = "1.0.4.5";
 
@@ -164,19 +163,6 @@ void Usage() {
   printf("\nOutput options may be negated by prefixing 'no'.\n");
 }
 
-// TODO(fgalligan): Add support for non-ascii.
-wstring UTF8ToWideString(const char* str) {
-  wstring wstr;
-
-  if (str == NULL)
-    return wstr;
-
-  string temp_str(str, strlen(str));
-  wstr.assign(temp_str.begin(), temp_str.end());
-
-  return wstr;
-}
-
 string ToString(const char* str) { return string((str == NULL) ? "" : str); }
 
 void OutputEBMLHeader(const mkvparser::EBMLHeader& ebml, FILE* o,
@@ -285,11 +271,11 @@ bool OutputSegmentInfo(const mkvparser::Segment& segment,
 
   const int64_t timecode_scale = segment_info->GetTimeCodeScale();
   const int64_t duration_ns = segment_info->GetDuration();
-  const wstring title = UTF8ToWideString(segment_info->GetTitleAsUTF8());
-  const wstring muxing_app =
-      UTF8ToWideString(segment_info->GetMuxingAppAsUTF8());
-  const wstring writing_app =
-      UTF8ToWideString(segment_info->GetWritingAppAsUTF8());
+  const string title = ToString(segment_info->GetTitleAsUTF8());
+  const string muxing_app =
+      ToString(segment_info->GetMuxingAppAsUTF8());
+  const string writing_app =
+      ToString(segment_info->GetWritingAppAsUTF8());
 
   fprintf(o, "%sSegmentInfo:", indent->indent_str().c_str());
   if (options.output_offset)
@@ -309,13 +295,13 @@ bool OutputSegmentInfo(const mkvparser::Segment& segment,
             duration_ns);
 
   if (!title.empty())
-    fprintf(o, "%sTitle         : %ls\n", indent->indent_str().c_str(),
+    fprintf(o, "%sTitle         : %s\n", indent->indent_str().c_str(),
             title.c_str());
   if (!muxing_app.empty())
-    fprintf(o, "%sMuxingApp     : %ls\n", indent->indent_str().c_str(),
+    fprintf(o, "%sMuxingApp     : %s\n", indent->indent_str().c_str(),
             muxing_app.c_str());
   if (!writing_app.empty())
-    fprintf(o, "%sWritingApp    : %ls\n", indent->indent_str().c_str(),
+    fprintf(o, "%sWritingApp    : %s\n", indent->indent_str().c_str(),
             writing_app.c_str());
   indent->Adjust(libwebm::kDecreaseIndent);
   return true;
@@ -353,7 +339,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
 
     const int64_t track_type = track->GetType();
     const int64_t track_number = track->GetNumber();
-    const wstring track_name = UTF8ToWideString(track->GetNameAsUTF8());
+    const string track_name = ToString(track->GetNameAsUTF8());
 
     indent->Adjust(libwebm::kIncreaseIndent);
     fprintf(o, "%sTrackType   : %" PRId64 "\n", indent->indent_str().c_str(),
@@ -361,7 +347,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
     fprintf(o, "%sTrackNumber : %" PRId64 "\n", indent->indent_str().c_str(),
             track_number);
     if (!track_name.empty())
-      fprintf(o, "%sName        : %ls\n", indent->indent_str().c_str(),
+      fprintf(o, "%sName        : %s\n", indent->indent_str().c_str(),
               track_name.c_str());
 
     const char* const codec_id = track->GetCodecId();
@@ -369,9 +355,9 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
       fprintf(o, "%sCodecID     : %s\n", indent->indent_str().c_str(),
               codec_id);
 
-    const wstring codec_name = UTF8ToWideString(track->GetCodecNameAsUTF8());
+    const string codec_name = ToString(track->GetCodecNameAsUTF8());
     if (!codec_name.empty())
-      fprintf(o, "%sCodecName   : %ls\n", indent->indent_str().c_str(),
+      fprintf(o, "%sCodecName   : %s\n", indent->indent_str().c_str(),
               codec_name.c_str());
 
     size_t private_size;
-- 
2.43.0


From 6cc1a9ee214e46fc576f60955ff574214b03747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 096/107] fix: print both digits of every byte of a signature
 in webm_info

---
 webm_info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 107c5fa..10795a5 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -439,7 +439,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
           fprintf(o, "%sContentSignature     : 0x",
                   indent->indent_str().c_str());
           for (int k = 0; k < encryption->signature_len; ++k) {
-            fprintf(o, "%x", encryption->signature[k]);
+            fprintf(o, "%02x", encryption->signature[k]);
           }
           fprintf(o, "\n");
         }
@@ -448,7 +448,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
           fprintf(o, "%sContentSigKeyID      : 0x",
                   indent->indent_str().c_str());
           for (int k = 0; k < encryption->sig_key_id_len; ++k) {
-            fprintf(o, "%x", encryption->sig_key_id[k]);
+            fprintf(o, "%02x", encryption->sig_key_id[k]);
           }
           fprintf(o, "\n");
         }
-- 
2.43.0


From 0d1e92e554fa8f5b266ed226faca0b14deee03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:35 +0000
Subject: [PATCH 097/107] fix: convert the byte order of 32 bit values
 correctly

---
 common/webm_endian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/webm_endian.cc b/common/webm_endian.cc
index b1ef7ca..6cf6afd 100644
--- a/common/webm_endian.cc
+++ b/common/webm_endian.cc
@@ -31,8 +31,8 @@ uint32_t swap32_check_little_endian(uint32_t value) {
   if (check.c[0] != 0x67)
     return 0;
 
-  return value << 24 | ((value << 8) & 0x0000FF00U) |
-         ((value >> 8) & 0x00FF0000U) | value >> 24;
+  return value << 24 | ((value << 8) & 0x00FF0000U) |
+         ((value >> 8) & 0x0000FF00U) | value >> 24;
 }
 
 // Swaps unsigned 64 bit values to big endian if needed. Returns |value|
-- 
2.43.0


From 7c077b1d68fe045dfdde5e5e57a630445ba2d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 098/107] fix: print the roll of a projection under its name in
 mkvparser_sample

---
 mkvparser_sample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index f285c3e..70a531b 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -315,7 +315,7 @@ int main(int argc, char* argv[]) {
         if (projection->pose_pitch != mkvparser::Projection::kValueNotPresent)
           printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_pitch);
         if (projection->pose_roll != mkvparser::Projection::kValueNotPresent)
-          printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_roll);
+          printf("\t\t\tProjectionPoseRoll: %f\n", projection->pose_roll);
       }
     }
 
-- 
2.43.0


From 4bf4e640256ae85e13ee0fc5f313547f483e7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 099/107] fix: report codec delays and seek pre-rolls that
 cannot be read

---
 mkvparser/mkvparser.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index cadce09..3e5f35c 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5969,9 +5969,19 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
       if (status)
         return status;
     } else if (id == libwebm::kMkvCodecDelay) {
-      info.codecDelay = UnserializeUInt(pReader, pos, size);
+      const long long delay = UnserializeUInt(pReader, pos, size);
+
+      if (delay < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.codecDelay = static_cast<unsigned long long>(delay);
     } else if (id == libwebm::kMkvSeekPreRoll) {
-      info.seekPreRoll = UnserializeUInt(pReader, pos, size);
+      const long long preroll = UnserializeUInt(pReader, pos, size);
+
+      if (preroll < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.seekPreRoll = static_cast<unsigned long long>(preroll);
     }
 
     pos += size;  // consume payload
-- 
2.43.0


From a6a42ba80acd4b49b1bcd4febafbd70d01f2bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 100/107] fix: keep the size of a cluster's block table when it
 cannot be allocated

---
 mkvparser/mkvparser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 3e5f35c..4058b4b 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7256,11 +7256,12 @@ long Cluster::CreateBlock(long long id,
     assert(m_entries == NULL);
     assert(m_entries_size == 0);
 
-    m_entries_size = 1024;
-    m_entries = new (std::nothrow) BlockEntry*[m_entries_size];
+    const long entries_size = 1024;
+    m_entries = new (std::nothrow) BlockEntry*[entries_size];
     if (m_entries == NULL)
       return -1;
 
+    m_entries_size = entries_size;
     m_entries_count = 0;
   } else {
     assert(m_entries);
-- 
2.43.0


From d0c79de86182deb004e56e2ae5d91b588807dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 101/107] fix: leave no half-made chapter title behind when
 add_string fails

---
 mkvmuxer/mkvmuxer.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 2ccceac..70037a5 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1909,18 +1909,16 @@ bool Chapter::add_string(const char* title, const char* language,
   if (!ExpandDisplaysArray())
     return false;
 
-  Display& d = displays_[displays_count_++];
+  Display& d = displays_[displays_count_];
   d.Init();
 
-  if (!d.set_title(title))
-    return false;
-
-  if (!d.set_language(language))
-    return false;
-
-  if (!d.set_country(country))
+  if (!d.set_title(title) || !d.set_language(language) ||
+      !d.set_country(country)) {
+    d.Clear();
     return false;
+  }
 
+  ++displays_count_;
   return true;
 }
 
-- 
2.43.0


From a2d6d5843bc1b8635a62bf9c156c4fe539db1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 102/107] fix: leave no half-made tag value behind when
 add_simple_tag fails

---
 mkvmuxer/mkvmuxer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 70037a5..0cc369d 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2231,15 +2231,15 @@ bool Tag::add_simple_tag(const char* tag_name, const char* tag_string) {
   if (!ExpandSimpleTagsArray())
     return false;
 
-  SimpleTag& st = simple_tags_[simple_tags_count_++];
+  SimpleTag& st = simple_tags_[simple_tags_count_];
   st.Init();
 
-  if (!st.set_tag_name(tag_name))
-    return false;
-
-  if (!st.set_tag_string(tag_string))
+  if (!st.set_tag_name(tag_name) || !st.set_tag_string(tag_string)) {
+    st.Clear();
     return false;
+  }
 
+  ++simple_tags_count_;
   return true;
 }
 
-- 
2.43.0


From d6d13b29d05f6ab314332cf6e5dc17edebbc1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:51 +0000
Subject: [PATCH 103/107] fix: report chromaticity values that cannot be stored

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 0cc369d..338bfdc 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -77,7 +77,7 @@ bool CopyChromaticity(const PrimaryChromaticity* src,
     return false;
 
   dst->reset(new (std::nothrow) PrimaryChromaticity(src->x(), src->y()));
-  if (!dst)
+  if (!*dst)
     return false;
 
   return true;
-- 
2.43.0


From 0a555436e3baa4d0e8125cbefa38e75a6b09abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:22 +0000
Subject: [PATCH 104/107] fix: keep a valid timecode scale when the one in the
 file is not

---
 mkvparser/mkvparser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 4058b4b..216af90 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4063,10 +4063,12 @@ long SegmentInfo::Parse() {
       return status;
 
     if (id == libwebm::kMkvTimecodeScale) {
-      m_timecodeScale = UnserializeUInt(pReader, pos, size);
+      const long long scale = UnserializeUInt(pReader, pos, size);
 
-      if (m_timecodeScale <= 0)
+      if (scale <= 0)
         return E_FILE_FORMAT_INVALID;
+
+      m_timecodeScale = scale;
     } else if (id == libwebm::kMkvDuration) {
       const long status = UnserializeFloat(pReader, pos, size, m_duration);
 
-- 
2.43.0


From cfe20858214c5df450c4d5b0dbfb9f739b30fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 105/107] fix: do not end a track after 100 clusters without a
 block of it

---
 mkvparser/mkvparser.cc | 31 ++-----------------------------
 1 file changed, 2 insertions(+), 29 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 216af90..4bb1073 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4717,7 +4717,7 @@ unsigned long long Track::GetSeekPreRoll() const { return m_info.seekPreRoll; }
 long Track::GetFirst(const BlockEntry*& pBlockEntry) const {
   const Cluster* pCluster = m_pSegment->GetFirst();
 
-  for (int i = 0;;) {
+  for (;;) {
     if (pCluster == NULL) {
       pBlockEntry = GetEOS();
       return 1;
@@ -4765,20 +4765,8 @@ long Track::GetFirst(const BlockEntry*& pBlockEntry) const {
       pBlockEntry = pNextEntry;
     }
 
-    ++i;
-
-    if (i >= 100)
-      break;
-
     pCluster = m_pSegment->GetNext(pCluster);
   }
-
-  // NOTE: if we get here, it means that we didn't find a block with
-  // a matching track number.  We interpret that as an error (which
-  // might be too conservative).
-
-  pBlockEntry = GetEOS();  // so we can return a non-NULL value
-  return 1;
 }
 
 long Track::GetNext(const BlockEntry* pCurrEntry,
@@ -4800,7 +4788,7 @@ long Track::GetNext(const BlockEntry* pCurrEntry,
   if (status < 0)  // error
     return status;
 
-  for (int i = 0;;) {
+  for (;;) {
     while (pNextEntry) {
       const Block* const pNextBlock = pNextEntry->GetBlock();
       assert(pNextBlock);
@@ -4849,22 +4837,7 @@ long Track::GetNext(const BlockEntry* pCurrEntry,
 
     if (status < 0)  // error
       return status;
-
-    if (pNextEntry == NULL)  // empty cluster
-      continue;
-
-    ++i;
-
-    if (i >= 100)
-      break;
   }
-
-  // NOTE: if we get here, it means that we didn't find a block with
-  // a matching track number after lots of searching, so we give
-  // up trying.
-
-  pNextEntry = GetEOS();  // so we can return a non-NULL value
-  return 1;
 }
 
 bool Track::VetEntry(const BlockEntry* pBlockEntry) const {
-- 
2.43.0


From 0f6db7da0315fbbe5ecb457416d955ec8a7fdbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 106/107] fix: keep the header read past a nested element of
 unknown size

---
 webm_parser/src/recursive_parser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..9886e4f 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,13 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(metadata != nullptr);
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From e672918d35b2974a6da47fdf9a1dfdba851150a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:20 +0000
Subject: [PATCH 107/107] fix: convert cue times of more than 2^31 seconds

---
 webvtt/webvttparser.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index 755731c..faa4519 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -677,14 +677,14 @@ Time& Time::presentation(presentation_t d) {
     return *this;
   }
 
-  seconds = static_cast<int>(d / 1000);
   milliseconds = static_cast<int>(d % 1000);
+  d /= 1000;
 
-  minutes = seconds / 60;
-  seconds -= 60 * minutes;
+  seconds = static_cast<int>(d % 60);
+  d /= 60;
 
-  hours = minutes / 60;
-  minutes -= 60 * hours;
+  minutes = static_cast<int>(d % 60);
+  hours = static_cast<int>(d / 60);
 
   return *this;
 }
-- 
2.43.0

