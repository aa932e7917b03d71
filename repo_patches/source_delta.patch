From e613cd63c8f1933818b680a21656789c1c5d35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 01/14] fix: cancelling a future while it is being polled is no
 longer lost

---
 src/future.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..b86b512 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -58,24 +58,29 @@ impl<A, B> Future for CancelableFuture<A, B>
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
         let CancelableFutureProj { state, mut future, when_cancelled } = self.project();
 
-        // TODO is this correct ?
-        if state.is_cancelled.load(Ordering::SeqCst) {
-            // This is necessary in order to prevent the future from calling `waker.wake()` later
-            future.set(None);
-            let callback = when_cancelled.take().unwrap();
-            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
-            Poll::Ready(callback())
-
-        } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+        if !state.is_cancelled.load(Ordering::SeqCst) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let waker = cx.waker().clone();
+
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled while the future was being polled, in that case
+                    // nobody would wake up the waker
+                    if !state.is_cancelled.load(Ordering::SeqCst) {
+                        *lock = Some(waker);
+                        return Poll::Pending;
+                    }
                 },
-                a => a,
+                a => return a,
             }
         }
+
+        // This is necessary in order to prevent the future from calling `waker.wake()` later
+        future.set(None);
+        let callback = when_cancelled.take().unwrap();
+        // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
+        Poll::Ready(callback())
     }
 }
 
-- 
2.43.0


From e575e2d8812bfba283293b7fab36b0b5fd175fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 02/14] fix: channel Receiver no longer misses values and
 wakeups which happen during a poll

---
 src/signal/channel.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..660c81c 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -121,10 +121,23 @@ impl<A> Signal for Receiver<A> {
 
     #[inline]
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        let value = self.inner.value.take();
+
+        if value.is_some() {
+            return Poll::Ready(value);
+        }
+
+        // The waker must be registered before checking the state again, because
+        // otherwise a change which happens in between wouldn't wake up anybody
+        self.inner.waker.store(Some(cx.waker().clone()));
+
+        // This must be checked before the value, because the last
+        // value must be returned before the Signal ends
+        let has_senders = self.inner.has_senders();
+
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
+                if has_senders {
                     Poll::Pending
 
                 } else {
-- 
2.43.0


From 9945b7bc62769dda9f06cdb675e994c092bb1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 03/14] fix: cloning or dropping a Sender while the channel is
 closed no longer corrupts the number of senders

---
 src/signal/channel.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 660c81c..056bee8 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -22,15 +22,32 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
+    /// Does nothing if the channel was closed
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        self.update_senders(|senders| senders + 1);
     }
 
-    /// Returns `true` if it no longer has any senders
+    /// Returns `true` if it no longer has any senders, does nothing if the channel was closed
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        self.update_senders(|senders| senders - 1) == 1
+    }
+
+    /// Atomically changes the number of senders, unless the channel was closed.
+    ///
+    /// Returns the old number of senders.
+    fn update_senders<F>(&self, f: F) -> usize where F: Fn(usize) -> usize {
+        let mut senders = self.senders.load(Ordering::Acquire);
+
+        while senders != 0 {
+            match self.senders.compare_exchange_weak(senders, f(senders), Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => break,
+                Err(current) => senders = current,
+            }
+        }
+
+        senders
     }
 
     #[inline]
@@ -82,9 +99,7 @@ impl<A> Clone for Sender<A> {
     fn clone(&self) -> Self {
         if let Some(inner) = self.inner.upgrade() {
             // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                inner.add_sender();
-            }
+            inner.add_sender();
         }
 
         Self {
@@ -96,12 +111,9 @@ impl<A> Clone for Sender<A> {
 impl<A> Drop for Sender<A> {
     fn drop(&mut self) {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                // If there aren't any more senders...
-                if inner.remove_sender() {
-                    inner.notify();
-                }
+            // If there aren't any more senders...
+            if inner.remove_sender() {
+                inner.notify();
             }
         }
     }
-- 
2.43.0


From 731b1e3a19660f3c66abfd11d5de5e0da96629ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 04/14] fix: Mutable signals no longer miss changes and wakeups
 which happen during a poll

---
 src/signal/mutable.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..7ba1cf8 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -100,20 +100,25 @@ impl<A> MutableSignalState<A> {
     }
 
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
+        if !self.waker.is_changed() {
+            // The waker must be registered before checking the state again, because
+            // otherwise a change which happens in between wouldn't wake up anybody
+            self.waker.set_waker(cx);
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+            // This must be checked before `is_changed`, because the last
+            // value must be returned before the Signal ends
+            let ended = self.state.senders.load(Ordering::SeqCst) == 0;
 
-        } else {
-            self.waker.set_waker(cx);
-            Poll::Pending
+            if !self.waker.is_changed() {
+                return if ended { Poll::Ready(None) } else { Poll::Pending };
+            }
         }
+
+        let value = {
+            let lock = self.state.lock.read().unwrap();
+            f(&lock.value)
+        };
+        Poll::Ready(Some(value))
     }
 }
 
-- 
2.43.0


From 5ffabba5f61ad21e4040389fa863dbf5731376f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 05/14] fix: Mutable::swap no longer dead locks

---
 src/signal/mutable.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 7ba1cf8..a26273d 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -282,9 +282,23 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        let (first, second) = (self.state(), other.state());
+
+        // Swapping it with itself would dead lock
+        if Arc::ptr_eq(first, second) {
+            return;
+        }
+
+        // The locks must always be acquired in the same order, because otherwise
+        // it would dead lock if another thread does `other.swap(self)`
+        let (first, second) = if Arc::as_ptr(first) < Arc::as_ptr(second) {
+            (first, second)
+        } else {
+            (second, first)
+        };
+
+        let mut state1 = first.lock.write().unwrap();
+        let mut state2 = second.lock.write().unwrap();
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From f006880941fdf54421d4e1caff8322cb6f69109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 06/14] fix: Broadcaster signals no longer miss values and
 wakeups which happen during a poll

---
 src/signal/broadcaster.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..6f5e6a0 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -43,6 +43,10 @@ impl BroadcasterNotifier {
     }
 
     fn is_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
+
+    fn take_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
 }
@@ -129,7 +133,11 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
         if self.notifier.is_changed() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            // This must only be cleared while holding the lock, because otherwise another
+            // child could see the old value even though it has been cleared
+            if self.notifier.take_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -180,6 +188,10 @@ impl<A> BroadcasterState<A> where A: Signal {
     fn poll_change<B, F>(&mut self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A::Item) -> B {
         let BroadcasterState { epoch, waker, shared_state } = self;
 
+        // The waker must be registered before checking the state, because
+        // otherwise a change which happens in between wouldn't wake up anybody
+        waker.set_waker(cx);
+
         shared_state.poll(|state| {
             // Value hasn't changed
             if state.epoch == *epoch {
@@ -187,7 +199,6 @@ impl<A> BroadcasterState<A> where A: Signal {
                     Poll::Ready(None)
 
                 } else {
-                    waker.set_waker(cx);
                     Poll::Pending
                 }
 
-- 
2.43.0


From a2b18075346e6425df37fd081f27e7daee2c016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 07/14] fix: filter, filter_map and filter_signal_cloned
 computed the old index of a Move after re-inserting the value

---
 src/signal_vec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..ce66096 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -964,6 +964,10 @@ impl<A, B> SignalVec for Chain<A, B>
             if this.left.is_none() && this.right.is_none() {
                 return Poll::Ready(None);
 
+            } else if changed {
+                // The change didn't have any output, so the input must be polled again
+                continue;
+
             } else {
                 return Poll::Pending;
             }
@@ -1768,11 +1772,14 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // This must be computed before the state is inserted at its new index
+                            let old_position = Self::find_index(signals, old_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
+                                    old_index: old_position,
                                     new_index: Self::find_index(signals, new_index),
                                 }
 
-- 
2.43.0


From 624ed9d61450081656bdfc8720f93af585a8c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 08/14] fix: chain polls an input again after a change which
 has no output

---
 src/signal_vec.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index ce66096..5c103bb 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -790,9 +790,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    fn process_left(&mut self, cx: &mut Context, changed: &mut bool) -> Option<VecDiff<A::Item>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
+                *changed = true;
+
                 match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
@@ -927,8 +929,13 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    fn process_right(&mut self, cx: &mut Context, changed: &mut bool) -> Option<VecDiff<A::Item>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
+
+        if let Some(Poll::Ready(Some(_))) = change {
+            *changed = true;
+        }
+
         self.process_right_change(change)
     }
 }
@@ -947,14 +954,17 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
+            // Whether either of the inputs returned a change during this iteration
+            let mut changed = false;
+
+            if let Some(change) = this.process_left(cx, &mut changed) {
                 return Poll::Ready(Some(change));
 
             } else if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_right(cx) {
+            if let Some(change) = this.process_right(cx, &mut changed) {
                 return Poll::Ready(Some(change));
 
             } else if let Some(change) = this.pending.pop_front() {
@@ -2074,10 +2084,13 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // This must be computed before the value is inserted at its new index
+                        let old_position = find_index(indexes, old_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
+                            old_index: old_position,
                             new_index: find_index(indexes, new_index),
                         }))
 
-- 
2.43.0


From f910f2610d534d3c1ed5a7ca7c8fe650457dad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 09/14] fix: is_empty ends when its SignalVec ended together
 with a change which kept the emptiness

---
 src/signal_vec.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 5c103bb..3efc98c 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1904,16 +1904,20 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
     type Item = bool;
 
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let IsEmptyProj { len, old } = self.project();
+        let IsEmptyProj { mut len, old } = self.project();
 
-        match len.poll_change(cx) {
-            Poll::Ready(Some(len)) => {
-                let new = Some(len == 0);
+        match len.as_mut().poll_change(cx) {
+            Poll::Ready(Some(new_len)) => {
+                let new = Some(new_len == 0);
 
                 if *old != new {
                     *old = new;
                     Poll::Ready(new)
 
+                } else if len.signal.is_none() {
+                    // The SignalVec has ended, so nothing will wake up this task again
+                    Poll::Ready(None)
+
                 } else {
                     Poll::Pending
                 }
-- 
2.43.0


From 1e101cd767e1aa7799f252814c4eedde3733695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 10/14] fix: switch_signal_vec removes the old values when the
 last SignalVec ends without any change

---
 src/signal/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..e79a80c 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,7 +1728,8 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
+                    // If there are still values from the old SignalVec then they must be removed
+                    if signal_done && *len == 0 {
                         Poll::Ready(None)
 
                     } else {
-- 
2.43.0


From 7ded40a2156cadb2fc082f11aa05bb70bf20e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 11/14] fix: SignalVec flatten removes and moves the values of
 the SignalVecs which are removed, replaced or moved

---
 src/signal_vec.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 3efc98c..5bcedf6 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1045,6 +1045,35 @@ impl<A> FlattenState<A> where A: SignalVec {
         output
     }
 
+    /// The number of values which come before the SignalVec at `index`.
+    fn offset(inner: &[Self], index: usize) -> usize {
+        inner[..index].iter().map(|state| state.len).sum()
+    }
+
+    /// Removes the values of the SignalVec at `index`.
+    fn remove_values(inner: &[Self], index: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        let offset = Self::offset(inner, index);
+
+        for index in (0..inner[index].len).rev() {
+            pending.push(VecDiff::RemoveAt { index: offset + index });
+        }
+    }
+
+    /// Moves the `len` values of a SignalVec (`inner` doesn't contain that SignalVec).
+    fn move_values(inner: &[Self], len: usize, old_index: usize, new_index: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        let old_offset = Self::offset(inner, old_index);
+        let new_offset = Self::offset(inner, new_index);
+
+        for index in 0..len {
+            if old_offset < new_offset {
+                pending.push(VecDiff::Move { old_index: old_offset, new_index: new_offset + len - 1 });
+
+            } else if new_offset < old_offset {
+                pending.push(VecDiff::Move { old_index: old_offset + index, new_index: new_offset + index });
+            }
+        }
+    }
+
     fn poll_pending(&mut self, cx: &mut Context, prev_len: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) -> bool {
         loop {
             return match self.poll(cx) {
@@ -1159,19 +1188,24 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            FlattenState::remove_values(&this.inner, index, &mut pending);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
+                            FlattenState::remove_values(&this.inner, index, &mut pending);
                             this.inner.remove(index);
                         },
                         VecDiff::Move { old_index, new_index } => {
                             let value = this.inner.remove(old_index);
+                            FlattenState::move_values(&this.inner, value.len, old_index, new_index, &mut pending);
                             this.inner.insert(new_index, value);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
+                            let index = this.inner.len() - 1;
+                            FlattenState::remove_values(&this.inner, index, &mut pending);
                             this.inner.pop().unwrap();
                         },
                         VecDiff::Clear {} => {
-- 
2.43.0


From 7e2ac7eb81e51ddaa871ab4e09aaeb191b57a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 12/14] fix: key_cloned polled its SignalMap again after it had
 ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..def8068 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,11 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal| signal.poll_map_change(cx)) {
+                None => {
+                    true
+                },
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,10 +443,11 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
             }
-- 
2.43.0


From 951e05a0f1f8f777d062a5244155a3cbbe28c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:36 +0000
Subject: [PATCH 13/14] fix: map_ref and map_mut signals were Unpin even when
 their input signals are not, so a pinned input could be moved

---
 src/internal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internal.rs b/src/internal.rs
index f5f9184..b470708 100644
--- a/src/internal.rs
+++ b/src/internal.rs
@@ -114,6 +114,8 @@ impl<S> MapRef1<S> where S: Signal {
 #[derive(Debug)]
 #[must_use = "Signals do nothing unless polled"]
 pub struct MapRefSignal<F> {
+    // The callback contains the (pinned) Signals
+    #[pin]
     callback: F,
 }
 
@@ -129,8 +131,9 @@ impl<A, F> Signal for MapRefSignal<F> where F: FnMut(&mut Context) -> Poll<Optio
 
     #[inline]
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        (this.callback)(cx)
+        // This is safe because calling the callback does not move it
+        let callback = unsafe { self.project().callback.get_unchecked_mut() };
+        callback(cx)
     }
 }
 
-- 
2.43.0


From 358a1f5c677f0f36dd3f656f21fa934c617c57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:36 +0000
Subject: [PATCH 14/14] fix: channel Sender and Receiver were Send and Sync
 even when the value is not Send

---
 src/atomic.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atomic.rs b/src/atomic.rs
index 0791417..c2f4111 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -1,3 +1,5 @@
+use std::marker::PhantomData;
+use std::sync::Mutex;
 use std::sync::atomic::{AtomicPtr, Ordering};
 
 
@@ -54,6 +56,10 @@ impl<A> Drop for Atomic<A> {
 #[derive(Debug)]
 pub(crate) struct AtomicOption<A> {
     ptr: AtomicPtr<A>,
+
+    // An `AtomicPtr` is always `Send` and `Sync`, but we own the value, and a `&AtomicOption`
+    // is able to move the value into another thread, so (like `Mutex`) it requires `A: Send`
+    _marker: PhantomData<Mutex<A>>,
 }
 
 impl<A> AtomicOption<A> {
@@ -79,6 +85,7 @@ impl<A> AtomicOption<A> {
     pub(crate) fn new(value: Option<A>) -> Self {
         Self {
             ptr: AtomicPtr::new(Self::to_ptr(value)),
+            _marker: PhantomData,
         }
     }
 
-- 
2.43.0

