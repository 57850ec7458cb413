From 3a2acc17cfe87da4b53a2a6f7d5accc5279ea3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:15 +0000
Subject: [PATCH 1/5] fix: CursorList::seek_val moves only the cursors at the
 current key

Cursors positioned at later keys were advanced too, and their values
before the sought one were absent once the list reached those keys.
---
 differential-dataflow/src/trace/cursor/cursor_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/trace/cursor/cursor_list.rs b/differential-dataflow/src/trace/cursor/cursor_list.rs
index 4f39fcf..d20d799 100644
--- a/differential-dataflow/src/trace/cursor/cursor_list.rs
+++ b/differential-dataflow/src/trace/cursor/cursor_list.rs
@@ -183,8 +183,8 @@ impl<C: Cursor> Cursor for CursorList<C> {
     }
     #[inline]
     fn seek_val(&mut self, storage: &Vec<C::Storage>, val: Self::Val<'_>) {
-        for (cursor, storage) in self.cursors.iter_mut().zip(storage) {
-            cursor.seek_val(storage, val);
+        for &index in self.min_key.iter() {
+            self.cursors[index].seek_val(&storage[index], val);
         }
         self.minimize_vals(storage);
     }
-- 
2.43.0


From 3a82bc26a74c5af02702169dffb66e0e5518fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:15 +0000
Subject: [PATCH 2/5] fix: SliceContainer::clone_onto accepts an owned value of
 another length

clone_from_slice panics unless both have the same length.
---
 differential-dataflow/src/trace/implementations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differential-dataflow/src/trace/implementations/mod.rs b/differential-dataflow/src/trace/implementations/mod.rs
index 9b69cb1..6e7e7d4 100644
--- a/differential-dataflow/src/trace/implementations/mod.rs
+++ b/differential-dataflow/src/trace/implementations/mod.rs
@@ -543,7 +543,7 @@ pub mod containers {
         type ReadItem<'a> = &'a [B];
 
         #[inline(always)] fn into_owned<'a>(item: Self::ReadItem<'a>) -> Self::Owned { item.to_vec() }
-        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { other.clone_from_slice(item); }
+        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { item.clone_into(other); }
 
         fn reborrow<'b, 'a: 'b>(item: Self::ReadItem<'a>) -> Self::ReadItem<'b> { item }
 
-- 
2.43.0


From c6a20d81d1f54adad450bee8752c42b7fc5f4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:15 +0000
Subject: [PATCH 3/5] fix: PointStamp equality with a slice considers all
 coordinates of both

Coordinates beyond those of the left-hand side were ignored, so that
[1] and [1, 2] were equal.
---
 differential-dataflow/src/dynamic/pointstamp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/differential-dataflow/src/dynamic/pointstamp.rs b/differential-dataflow/src/dynamic/pointstamp.rs
index b256ac9..f3fac2a 100644
--- a/differential-dataflow/src/dynamic/pointstamp.rs
+++ b/differential-dataflow/src/dynamic/pointstamp.rs
@@ -28,17 +28,18 @@ pub struct PointStamp<T> {
 
 impl<T: Timestamp> PartialEq<[T]> for PointStamp<T> {
     fn eq(&self, other: &[T]) -> bool {
-        self.vector.iter()
-            .zip(other.iter().chain(std::iter::repeat(&T::minimum())))
+        let minimum = T::minimum();
+        let length = std::cmp::max(self.vector.len(), other.len());
+        self.vector.iter().chain(std::iter::repeat(&minimum))
+            .zip(other.iter().chain(std::iter::repeat(&minimum)))
+            .take(length)
             .all(|(t1, t2)| t1.eq(t2))
     }
 }
 
 impl<T: Timestamp> PartialEq<PointStamp<T>> for [T] {
     fn eq(&self, other: &PointStamp<T>) -> bool {
-        self.iter()
-            .zip(other.vector.iter().chain(std::iter::repeat(&T::minimum())))
-            .all(|(t1, t2)| t1.eq(t2))
+        other.eq(self)
     }
 }
 
-- 
2.43.0


From 6a2de61a43666d7b7d1cc7c963130902602f1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 4/5] fix: the progress sink retries a progress statement it
 could not send

The queue was drained only when the frontier advanced, so a statement
refused by the sink waited for a later one and the last was never sent.
---
 differential-dataflow/src/capture.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index ba1522a..4d7d4f0 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -698,16 +698,17 @@ pub mod sink {
 
                             // Advance our frontier to track our progress utterance.
                             frontier = frontiers[0].frontier().to_owned();
+                        }
 
-                            while let Some(message) = send_queue.front() {
-                                if let Some(duration) = sink.poll(message) {
-                                    // Reschedule after `duration` and then bail.
-                                    reactivator.activate_after(duration);
-                                    // Signal that work remains to be done.
-                                    return true;
-                                } else {
-                                    send_queue.pop_front();
-                                }
+                        // Send what is queued, including what the sink refused in earlier invocations.
+                        while let Some(message) = send_queue.front() {
+                            if let Some(duration) = sink.poll(message) {
+                                // Reschedule after `duration` and then bail.
+                                reactivator.activate_after(duration);
+                                // Signal that work remains to be done.
+                                return true;
+                            } else {
+                                send_queue.pop_front();
                             }
                         }
                         // Signal incompleteness if messages remain to be sent.
-- 
2.43.0


From 49c62dc9cc927197ed95cc7594fc720d6611d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 5/5] fix: capture iterator counts an update repeated within
 one message once

A message repeating an update was counted against the announced number of
distinct updates once per repetition, and another update of that time lost.
---
 differential-dataflow/src/capture.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index 4d7d4f0..1370a8d 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -129,14 +129,13 @@ pub mod iterator {
                 match message {
                     Message::Updates(mut updates) => {
                         // Discard updates at reported times, or duplicates at unreported times.
+                        // Record the others in our de-duplication collection.
                         updates.retain(|dtr| {
-                            self.reported_frontier.less_equal(&dtr.1) && !self.updates.contains(dtr)
+                            self.reported_frontier.less_equal(&dtr.1) && self.updates.insert(dtr.clone())
                         });
                         // Decrement our counts of accounted-for messages.
                         self.messages_frontier
                             .update_iter(updates.iter().map(|(_, t, _)| (t.clone(), -1)));
-                        // Record the messages in our de-duplication collection.
-                        self.updates.extend(updates.into_iter());
                     }
                     Message::Progress(progress) => {
                         // A progress statement may not be immediately actionable.
-- 
2.43.0

