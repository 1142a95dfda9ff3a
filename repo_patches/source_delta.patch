From 4c4ac3d90fd1beb654c559c6680bf6632fa3f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 01/22] fix: treat unclosed ANSI sequences as running to the
 end of the string

next_ansi returned an out-of-range end for any unclosed sequence not at the
very start, so Msg::strip_ansi panicked or ate whatever followed the part, and
fit_to_width dropped the sequence.
---
 fyi_msg/src/ansi.rs   | 3 ++-
 fyi_msg/src/fitted.rs | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..4638c9e 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -352,7 +352,8 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	// Unclosed sequences run to the end of the string.
+	Some(start..end.map_or(len, |end| start + end))
 }
 
 
diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..866951a 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -119,10 +119,12 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 						return Cow::Borrowed("");
 					};
 
-					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					// Keep the fitable, "lost" ANSI, and trailing breaks. (The
+					// break isn't part of any sequence, even an unclosed one.)
+					let eol = terminator($line);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(eol).unwrap_or(kill)));
+					$out.push_str(eol);
 				);
 			}
 
-- 
2.43.0


From faa7aad05033920b4c85afc4f5e7c9d72b692c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 02/22] fix: make strip_ansi catch sequences formed by its own
 removals

Removing a sequence could join a stray escape to the bracket that followed it,
leaving a brand new sequence behind in the supposedly stripped message.
---
 fyi_msg/src/msg/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 60e51d2..328ba23 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -751,6 +751,12 @@ impl Msg {
 				start = ansi_rng.start; // Pick up from here next time around.
 				stop -= ansi_len;       // But stop earlier, since we removed shit.
 				self.inner.replace_range(ansi_rng, "");
+
+				// If this joined a stray escape to a stray bracket, we'll need
+				// to back up to catch the new sequence.
+				if old_rng.start < start && self.inner.as_bytes()[start - 1] == b'\x1b' {
+					start -= 1;
+				}
 			}
 
 			// Update the table of contents, if necessary.
-- 
2.43.0


From 47cd85764e3e37bea9dd4f308b94619b1e82f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 03/22] fix: keep the bar's proportions from overflowing with
 large totals

---
 fyi_msg/src/progress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..9b02c3a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -970,7 +970,7 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				w_done = u8::saturating_from((u64::from(done) * u64::from(space)).wrapping_div(u64::from(total)));
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From c0677042c28b6fdad251aa0826ffe11982a3b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 04/22] fix: replace title whitespace with spaces, as
 documented

---
 fyi_msg/src/progress/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9b02c3a..95fd50f 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1030,15 +1030,15 @@ impl ProglessBuffer {
 		// We need at least two lines of screen space to fit a title.
 		if 2 <= height.get() {
 			if let Some(title) = title {
-				let title = title.fitted(usize::from(width.get()));
+				// Keep it to one line of predictable width by normalizing the
+				// whitespace.
+				let title: String = title.as_str().chars()
+					.map(|c| if c.is_whitespace() { ' ' } else { c })
+					.collect();
+				let title = crate::fit_to_width(&title, usize::from(width.get()));
 				if ! title.is_empty() {
-					// Truncate to first line.
-					let slice = title.as_bytes();
-					let end = slice.iter().copied().position(|b| b == b'\n').unwrap_or(slice.len());
-					if end != 0 {
-						self.title.extend_from_slice(&slice[..end]);
-						self.title.push(b'\n');
-					}
+					self.title.extend_from_slice(title.as_bytes());
+					self.title.push(b'\n');
 				}
 			}
 		}
-- 
2.43.0


From 318a634abcc7fce4a35d272f85cafdc7ce498fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 05/22] fix: show tasks again when removing the title makes
 room for them

---
 fyi_msg/src/progress/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 95fd50f..232d86f 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -649,16 +649,16 @@ impl ProglessInner {
 		// Titles don't change very often, but they're given display priority
 		// over the tasks so need to be checked first.
 		if TICK_TITLE == ticked & TICK_TITLE {
-			// Did we have a title and tasks last time?
-			let before = buf.doing.is_empty() || ! buf.title.is_empty();
+			// Did we have a title last time?
+			let before = ! buf.title.is_empty();
 
 			// Update it.
 			buf.set_title(mutex!(self.title).as_ref(), width, height);
 
-			// If we now have a title and didn't before, and there were tasks
-			// potentially competing for space, force a task redraw to make
-			// sure the extra (title) line isn't one line too many.
-			if ! before && ! buf.title.is_empty() {
+			// If the title came or went, force a task redraw to make sure the
+			// extra line isn't one line too many, or to make use of the line
+			// it left behind.
+			if before == buf.title.is_empty() {
 				ticked |= TICK_DOING;
 			}
 		}
-- 
2.43.0


From 5e605f8af0d34c2a86dc224b848a76abd94f8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 06/22] fix: only draw the full progress line if it fits the
 screen

---
 fyi_msg/src/progress/mod.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 232d86f..85078ce 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -851,7 +851,7 @@ impl ProglessBuffer {
 		let mut parts: &mut [IoSlice] =
 			// If the screen is too small for everything, print the percentage
 			// by itself to give them some indication of progress.
-			if width.get() < 40 {
+			if width.get() < 40 || usize::from(width.get()) < self.bare_width() {
 				&mut [
 					IoSlice::new(concat!(
 						"\x1b[J ",
@@ -941,13 +941,10 @@ impl ProglessBuffer {
 }
 
 impl ProglessBuffer {
-	/// # Set Bars.
-	fn set_bars(&mut self, width: NonZeroU8, done: u32, total: u32) {
-		// Default sizes.
-		let mut w_done = 0_u8;
-		let mut w_undone = 0_u8;
-
-		// How much room do we have for the bar(s)?
+	/// # Bare Width.
+	///
+	/// Return the width of the progress line without any actual bar.
+	fn bare_width(&self) -> usize {
 		// The magic "19" is made up of the following hard-coded pieces:
 		// 10: elapsed time and braces;
 		// 2: spaces after elapsed time;
@@ -955,12 +952,17 @@ impl ProglessBuffer {
 		// 2: the spaces after total;
 		// 2: the braces around the bar itself;
 		// 2: the spaces after the bar itself;
-		let space: u8 = width.get().saturating_sub(u8::saturating_from(
-			19 +
-			self.done.len() +
-			self.total.len() +
-			self.percent.len()
-		));
+		19 + self.done.len() + self.total.len() + self.percent.len()
+	}
+
+	/// # Set Bars.
+	fn set_bars(&mut self, width: NonZeroU8, done: u32, total: u32) {
+		// Default sizes.
+		let mut w_done = 0_u8;
+		let mut w_undone = 0_u8;
+
+		// How much room do we have for the bar(s)?
+		let space: u8 = width.get().saturating_sub(u8::saturating_from(self.bare_width()));
 
 		// If we have any space, divide it up proportionately.
 		if total != 0 && MIN_BARS_WIDTH <= space {
-- 
2.43.0


From ab7cadcd97786ccd4101e44519dc5b575fc866df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 07/22] fix: keep the clock current when a run is reset

---
 fyi_msg/src/progress/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 85078ce..9f5c0df 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -347,10 +347,7 @@ impl ProglessInner {
 			}
 
 			// Freeze the time.
-			self.elapsed.store(
-				u32::saturating_from(self.started.elapsed().as_secs()),
-				SeqCst
-			);
+			self.tick_set_secs();
 
 			// Clear the tasks.
 			mutex!(self.doing).clear();
-- 
2.43.0


From 0cfe753de744d91248fd54be1e848c94b1686b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 08/22] fix: make count changes, stops, and resets atomic

---
 fyi_msg/src/progress/mod.rs | 118 ++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 46 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9f5c0df..978616c 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -332,29 +332,32 @@ impl ProglessInner {
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
 	fn stop(&self) {
-		// Shut 'er down!
-		let flags = self.flags.swap(0, SeqCst);
-		if TICKING == flags & TICKING {
-			// Acquire the lock a little early just in case there is a
-			// final in-progress tick.
-			let mut handle = std::io::stderr().lock();
+		// Runs only ever begin and end while STDERR is locked, so they can't
+		// interfere with one another, nor an in-progress tick.
+		let mut handle = std::io::stderr().lock();
+		if self.running() { self.stop_locked(&mut handle); }
+	}
 
-			// Make sure "done" equals "total".
-			let done_total = self.done_total.load(SeqCst);
-			let total = total!(done_total);
-			if total != done!(done_total) {
-				self.done_total.store(done_total!(total, total), SeqCst);
-			}
+	/// # Stop (Locked).
+	///
+	/// This does the actual stopping for `stop`; the caller needs to make sure
+	/// progress is (still) running _after_ obtaining the lock.
+	fn stop_locked(&self, handle: &mut StderrLock<'static>) {
+		// Make sure "done" equals "total".
+		let total = total!(self.done_total.load(SeqCst));
+		self.done_total.store(done_total!(total, total), SeqCst);
 
-			// Freeze the time.
-			self.tick_set_secs();
+		// Shut 'er down!
+		self.flags.store(0, SeqCst);
 
-			// Clear the tasks.
-			mutex!(self.doing).clear();
+		// Freeze the time.
+		self.tick_set_secs();
 
-			// Clear the screen for good measure.
-			let _res = handle.write_all(CLS).and_then(|()| handle.flush());
-		}
+		// Clear the tasks.
+		mutex!(self.doing).clear();
+
+		// Clear the screen for good measure.
+		let _res = handle.write_all(CLS).and_then(|()| handle.flush());
 	}
 }
 
@@ -368,7 +371,13 @@ impl ProglessInner {
 	///
 	/// For the most part, this struct's setter methods only work while
 	/// progress is happening; after that they're frozen.
-	fn running(&self) -> bool { TICKING == self.flags.load(SeqCst) & TICKING }
+	fn running(&self) -> bool {
+		if TICKING == self.flags.load(SeqCst) & TICKING {
+			let done_total = self.done_total.load(SeqCst);
+			done!(done_total) < total!(done_total)
+		}
+		else { false }
+	}
 }
 
 /// # Setters.
@@ -397,20 +406,9 @@ impl ProglessInner {
 	/// Increase the completed count by `n`. This is safer to use than `set_done()`
 	/// and more efficient than calling `increment()` a million times in a row.
 	fn increment_n(&self, n: u32) {
-		if n != 0 && self.running() {
-			// Don't bother recasting the parts to u32; leaving them as-is
-			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
-
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
-				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-			}
-			// Time to call it quits!
-			else { self.stop(); }
-		}
+		// Don't bother recasting the parts to u32; leaving them as-is moots
+		// addition overflow and simplifies the subsequent joining.
+		if n != 0 { self.update_done(|done| done + u64::from(n)); }
 	}
 
 	/// # Push Message.
@@ -488,9 +486,13 @@ impl ProglessInner {
 	/// you need start a brand new instance instead of resetting an existing
 	/// one.
 	fn reset(&self, total: NonZeroU32) {
-		self.stop();
-		self.done_total.store(u64::from(total.get()), SeqCst);
+		let mut handle = std::io::stderr().lock();
+		if self.running() { self.stop_locked(&mut handle); }
+
+		// The counts go last, since they're what brings it (back) to life.
+		self.done_total.fetch_and(! 0x0000_0000_FFFF_FFFF_u64, SeqCst);
 		self.flags.store(TICK_RESET, SeqCst);
+		self.done_total.store(u64::from(total.get()), SeqCst);
 	}
 
 	/// # Set Done.
@@ -499,18 +501,42 @@ impl ProglessInner {
 	/// things are happening in parallel; in such cases `increment` is probably
 	/// better.
 	fn set_done(&self, done: u32) {
+		let done = u64::from(done);
+		if done != done!(self.done_total.load(SeqCst)) {
+			self.update_done(|_| done);
+		}
+	}
+
+	/// # Update Done.
+	///
+	/// Set the done count to whatever the callback makes of the current one,
+	/// stopping if that turns out to be everything.
+	fn update_done<F>(&self, cb: F)
+	where F: Fn(u64) -> u64 {
+		if ! self.running() { return; }
+
+		// Most of the time there will still be work left afterwards.
+		let res = self.done_total.fetch_update(SeqCst, SeqCst, |v| {
+			let (old, total) = (done!(v), total!(v));
+			let done = cb(old);
+			if old < total && done < total { Some(done_total!(done, total)) }
+			else { None }
+		});
+		if res.is_ok() {
+			self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
+			return;
+		}
+
+		// Time to call it quits… unless someone else beat us to it.
+		let mut handle = std::io::stderr().lock();
 		if self.running() {
-			let done = u64::from(done);
+			let _res = self.done_total.fetch_update(SeqCst, SeqCst, |v| {
+				let total = total!(v);
+				Some(done_total!(u64::min(cb(done!(v)), total), total))
+			});
 			let done_total = self.done_total.load(SeqCst);
-			if done != done!(done_total) {
-				let total = total!(done_total);
-				if done < total {
-					self.done_total.store(done_total!(done, total), SeqCst);
-					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-				}
-				// Time to call it quits!
-				else { self.stop(); }
-			}
+			if done!(done_total) == total!(done_total) { self.stop_locked(&mut handle); }
+			else { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); }
 		}
 	}
 
-- 
2.43.0


From 9901d0ef46e48d9580039e19be8aecf9249ec591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 09/22] fix: don't list tasks added while progress is stopping

---
 fyi_msg/src/progress/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 978616c..527fcc0 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -392,7 +392,11 @@ impl ProglessInner {
 	fn add(&self, txt: &str) -> bool {
 		if
 			self.running() &&
-			progless_task(txt).is_some_and(|m| mutex!(self.doing).insert(m))
+			progless_task(txt).is_some_and(|m| {
+				// It might have stopped while we were waiting.
+				let mut doing = mutex!(self.doing);
+				self.running() && doing.insert(m)
+			})
 		{
 			self.flags.fetch_or(TICK_DOING, SeqCst);
 			true
-- 
2.43.0


From 7ec1977c5776f12dd017c1d0c053be909cbbcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 10/22] fix: never draw a frame after progress has stopped

---
 fyi_msg/src/progress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 527fcc0..69e88e6 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -610,6 +610,9 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// It might have stopped while we were waiting.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From ec9658229eeb8afa9753a2cc7f362cb37adcfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 11/22] fix: don't print pushed messages over a bar that has
 just been started

---
 fyi_msg/src/progress/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 69e88e6..6e98c91 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -430,15 +430,16 @@ impl ProglessInner {
 	fn push_msg(&self, msg: Msg) -> Result<(), Msg> {
 		let msg = msg.with_newline(true);
 
+		// Lock STDERR first so progress can't start or stop along the way.
+		let mut handle = std::io::stderr().lock();
+
 		// If the progress is active, we have to do some things.
 		if self.running() {
 			// Clear the screen, then print the message.
-			let mut handle = std::io::stderr().lock();
 			let res = handle.write_all(CLS)
 				.and_then(|()| handle.write_all(msg.as_bytes()))
 				.and_then(|()| handle.flush())
 				.is_err();
-			drop(handle);
 
 			// To complete the illusion, restore the progress bits.
 			self.tick(true);
-- 
2.43.0


From 95e199171eb252470e181a82b670becddea851be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 12/22] fix: keep concurrent finishes and resets from mixing up
 tickers

---
 fyi_msg/src/progress/mod.rs    |  6 ++----
 fyi_msg/src/progress/steady.rs | 33 +++++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 6e98c91..1078a00 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1365,8 +1365,7 @@ impl Progless {
 	/// pbar.finish();
 	/// ```
 	pub fn finish(&self) -> Duration {
-		self.inner.stop();
-		self.steady.stop();
+		self.steady.finish(&self.inner);
 		self.inner.started.elapsed()
 	}
 
@@ -1511,8 +1510,7 @@ impl Progless {
 	/// you need start a brand new instance instead of resetting an existing
 	/// one.
 	pub fn reset(&self, total: NonZeroU32) {
-		self.inner.reset(total);
-		self.steady.start(Arc::clone(&self.inner));
+		self.steady.start(Arc::clone(&self.inner), total);
 	}
 
 	/// # Reset (Fallible).
diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..bfb66d8 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -3,6 +3,7 @@
 */
 
 use std::{
+	num::NonZeroU32,
 	sync::{
 		Arc,
 		Mutex,
@@ -74,25 +75,41 @@ impl ProglessSteady {
 
 	/// # Start.
 	///
-	/// Make sure the steady ticker is up and running!
-	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
+	/// Reset the progress and make sure the steady ticker is up and running!
+	pub(super) fn start(&self, t_inner: Arc<ProglessInner>, total: NonZeroU32) {
+		// Hold this all the way to keep the progress and ticker in agreement.
+		let mut ticker = mutex!(self.ticker);
+		t_inner.reset(total);
+
 		// Make sure the old steady ticker is dead.
-		self.stop();
+		self.join(ticker.take());
 
 		// Reset!
 		*mutex!(self.state.0) = false;
 		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		ticker.replace(spawn_ticker(t_state, t_inner));
+	}
+
+	/// # Finish.
+	///
+	/// Stop the progress and its ticker.
+	pub(super) fn finish(&self, inner: &ProglessInner) {
+		let mut ticker = mutex!(self.ticker);
+		inner.stop();
+		self.join(ticker.take());
 	}
 
 	#[inline]
 	/// # Stop.
 	///
 	/// Make sure the steady ticker has actually aborted. This is called
-	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
-	/// dropped.
-	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
+	/// automatically when the instance is dropped.
+	fn stop(&self) { self.join(mutex!(self.ticker).take()); }
+
+	/// # Join.
+	///
+	/// Abort a ticker and wait for it to end.
+	fn join(&self, handle: Option<JoinHandle<()>>) {
 		if let Some(handle) = handle {
 			if ! *mutex!(self.state.0) {
 				*mutex!(self.state.0) = true;
-- 
2.43.0


From 1d231202328a5906bd1ec43fdef4aca8ea94fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 13/22] fix: don't prompt forever when STDIN cannot be read

---
 fyi_msg/src/msg/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 328ba23..e5910b3 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -1142,15 +1142,20 @@ impl Msg {
 			if stderr { q.eprint(); }
 			else { q.print(); }
 
-			if let Some(res) = io::stdin().read_line(&mut result)
-				.ok()
-				.and_then(|_| match result.to_lowercase().trim() {
+			let res = match io::stdin().read_line(&mut result) {
+				Ok(_) => match result.to_lowercase().trim() {
 					"" => Some(default),
 					"n" | "no" => Some(false),
 					"y" | "yes" => Some(true),
 					_ => None,
-				})
-			{ break res; }
+				},
+				// Gibberish.
+				Err(e) if e.kind() == io::ErrorKind::InvalidData => None,
+				// If we can't read from STDIN now, there's no point trying to
+				// do so again (and again and…).
+				Err(_) => Some(default),
+			};
+			if let Some(res) = res { break res; }
 
 			// Print an error and do it all over again.
 			result.truncate(0);
-- 
2.43.0


From cc967a671ccc26cd69d3e906cde9aadb450deaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 14/22] fix: stop using the old terminal size once it no longer
 applies

---
 fyi_msg/src/progress/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 1078a00..9c94bcb 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -751,11 +751,13 @@ impl ProglessInner {
 	/// This will return `false` if progress has stopped, otherwise `true`.
 	fn tick_resize(&self) -> bool {
 		if self.running() {
-			if let Some((width, height)) = term_size() {
-				let wh = u16::from_le_bytes([width.get(), height.get()]);
-				if wh != self.last_size.swap(wh, SeqCst) {
-					self.flags.fetch_or(TICK_RESIZED, SeqCst);
-				}
+			// If there's no (usable) size, the old one no longer applies either.
+			let wh = term_size().map_or(
+				0,
+				|(width, height)| u16::from_le_bytes([width.get(), height.get()]),
+			);
+			if wh != self.last_size.swap(wh, SeqCst) {
+				self.flags.fetch_or(TICK_RESIZED, SeqCst);
 			}
 			true
 		}
-- 
2.43.0


From 8f13abbd510d3a2ab2a5fbd61be4fee574c07e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 15/22] fix: never draw a frame laid out for another size after
 SIGWINCH

---
 fyi_msg/src/progress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9c94bcb..e3e0ab6 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -751,6 +751,9 @@ impl ProglessInner {
 	/// This will return `false` if progress has stopped, otherwise `true`.
 	fn tick_resize(&self) -> bool {
 		if self.running() {
+			// Hold off any drawing until both the size and flag are set.
+			let _handle = std::io::stderr().lock();
+
 			// If there's no (usable) size, the old one no longer applies either.
 			let wh = term_size().map_or(
 				0,
-- 
2.43.0


From f7dd91f78c3d31c1f144c8cca4dd1302f7940d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:35 +0000
Subject: [PATCH 16/22] fix: redraw once the terminal size is known again

---
 fyi_msg/src/progress/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index e3e0ab6..a53d8ad 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -788,7 +788,11 @@ impl ProglessInner {
 	/// This version of this method does that, returning the result if
 	/// non-zero.
 	fn tick_set_size(&self) -> Option<(NonZeroU8, NonZeroU8)> {
-		let (width, height) = term_size()?;
+		let Some((width, height)) = term_size() else {
+			// Redraw everything if the size ever comes back.
+			self.last_size.store(0, SeqCst);
+			return None;
+		};
 		let wh = u16::from_le_bytes([width.get(), height.get()]);
 		if wh == self.last_size.swap(wh, SeqCst) { Some((width, height)) }
 		else {
-- 
2.43.0


From 292787781d05d488a2bac00e332a68dcb8e2d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 17/22] fix: don't panic when the help or version cannot be
 printed

---
 fyi/build.rs    | 8 ++++----
 fyi/src/main.rs | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/fyi/build.rs b/fyi/build.rs
index bc8081f..0d0668d 100644
--- a/fyi/build.rs
+++ b/fyi/build.rs
@@ -180,10 +180,10 @@ fn helper(cmd: MsgKind) {{
 	let mut handle = std::io::stdout().lock();
 
 	// The top is always the same.
-	handle.write_all({help_top:?}.as_bytes()).unwrap();
+	let _res = handle.write_all({help_top:?}.as_bytes());
 
 	// The middle varies by command.
-	handle.write_all(match cmd {{",
+	let _res = handle.write_all(match cmd {{",
 		help_top=concat!(
 			r#"
                       ;\
@@ -216,11 +216,11 @@ fn helper(cmd: MsgKind) {{
 	}
 	writeln!(
 		&mut out,
-		"\t}}.as_bytes()).unwrap();
+		"\t}}.as_bytes());
 
 	// The bottom is _usually_ the same.
 	if ! matches!(cmd, MsgKind::Blank | MsgKind::Confirm | MsgKind::Custom | MsgKind::None) {{
-		handle.write_all({help_bottom:?}.as_bytes()).unwrap();
+		let _res = handle.write_all({help_bottom:?}.as_bytes());
 	}}
 
 	let _res = handle.flush();
diff --git a/fyi/src/main.rs b/fyi/src/main.rs
index f6fb071..c8ddfce 100644
--- a/fyi/src/main.rs
+++ b/fyi/src/main.rs
@@ -76,7 +76,8 @@ fn main() -> ExitCode {
 			ExitCode::SUCCESS
 		},
 		Err(FyiError::PrintVersion) => {
-			println!("{}", FyiError::PrintVersion);
+			use std::io::Write;
+			let _res = writeln!(std::io::stdout(), "{}", FyiError::PrintVersion);
 			ExitCode::SUCCESS
 		},
 		Err(FyiError::Passthrough(e)) => e,
-- 
2.43.0


From 1ed0ee19a3a2dcb8ed76214b289043293c48120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 18/22] fix: don't crash printing any number of blank lines

---
 fyi/src/cli.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/fyi/src/cli.rs b/fyi/src/cli.rs
index ff8af65..19aa191 100644
--- a/fyi/src/cli.rs
+++ b/fyi/src/cli.rs
@@ -13,6 +13,10 @@ use fyi_msg::{
 	MsgKind,
 };
 use std::{
+	io::{
+		self,
+		Write,
+	},
 	num::NonZeroUsize,
 	process::ExitCode,
 };
@@ -106,13 +110,26 @@ pub(super) fn parse_blank() -> Result<(), FyiError> {
 	}
 
 	// Print it!
-	let lines = "\n".repeat(count.get());
-	if stderr { eprint!("{lines}"); }
-	else { print!("{lines}"); }
+	let _res =
+		if stderr { write_blank(std::io::stderr().lock(), count.get()) }
+		else { write_blank(std::io::stdout().lock(), count.get()) };
 
 	Ok(())
 }
 
+/// # Write Blank Line(s).
+///
+/// Print the lines in manageable chunks, stopping early if the stream goes
+/// away.
+fn write_blank<W: Write>(mut handle: W, mut count: usize) -> io::Result<()> {
+	let lines = [b'\n'; 4096];
+	while let Some(chunk) = lines.get(..count.min(lines.len())).filter(|c| ! c.is_empty()) {
+		handle.write_all(chunk)?;
+		count -= chunk.len();
+	}
+	handle.flush()
+}
+
 /// # Parse Message.
 pub(super) fn parse_msg(kind: MsgKind) -> Result<(Msg, Settings), FyiError> {
 	// The first arg is always skipped, the second we read earlier.
-- 
2.43.0


From 3b9d22b20043da9e9fc3d359fe47c117361b6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 19/22] fix: don't panic when the cursor cannot be hidden or
 restored

---
 fyi_msg/src/progress/signals.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..a48a771 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -14,7 +14,10 @@ use std::sync::{
 	},
 };
 #[cfg(feature = "signals_sigint")] use super::Progless;
-#[cfg(feature = "signals_sigint")] use std::sync::OnceLock;
+#[cfg(feature = "signals_sigint")] use std::{
+	io::Write,
+	sync::OnceLock,
+};
 use super::ProglessInner;
 
 
@@ -167,7 +170,9 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_HIDE); }
+		if ! sigint.load(SeqCst) {
+			let _res = std::io::stderr().write_all(Progless::CURSOR_HIDE.as_bytes());
+		}
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
@@ -185,7 +190,7 @@ impl Drop for ProglessSignals {
 	fn drop(&mut self) {
 		// The `ProglessSignal` drop glue handles unregistration; at this
 		// level we just need to make sure the cursor gets unhidden.
-		eprint!("{}", Progless::CURSOR_UNHIDE);
+		let _res = std::io::stderr().write_all(Progless::CURSOR_UNHIDE.as_bytes());
 	}
 }
 
-- 
2.43.0


From b616a467a0de1d801c936e20701539826954b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 20/22] fix: don't crash or hang when SIGINT interrupts a write
 to STDERR

---
 fyi_msg/src/progress/signals.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index a48a771..9c0d870 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -281,7 +281,7 @@ fn sigint_default() -> Arc<AtomicBool> {
 		if signal_hook::low_level::register(SIGINT, move || {
 			// Unhide our cursor if we changed state.
 			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
+				write_raw(Progless::CURSOR_UNHIDE);
 			}
 
 			// One strike and you're out!
@@ -313,7 +313,7 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 			// Terminate the process if the switch was already true.
 			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
 			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			else { write_raw(Progless::CURSOR_UNHIDE); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -340,7 +340,7 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
 			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
+				write_raw(Progless::CURSOR_UNHIDE);
 			}
 		).is_err() { sigint_error(); }
 	}
@@ -357,3 +357,28 @@ fn sigint_error() -> ! {
 	Msg::error("Unable to register a SIGINT handler!").eprint();
 	std::process::exit(1);
 }
+
+#[cfg(feature = "signals_sigint")]
+#[cfg_attr(unix, expect(unsafe_code, reason = "For raw STDERR."))]
+/// # Write to STDERR (Raw).
+///
+/// Signals can interrupt a thread at any point — even while it is in the
+/// middle of printing something to STDERR — so their handlers can't use the
+/// normal handle without risking panics and deadlocks.
+///
+/// This writes straight to the descriptor instead, ignoring any errors.
+fn write_raw(src: &str) {
+	#[cfg(unix)]
+	let mut handle = {
+		use std::os::fd::FromRawFd;
+
+		// Safety: STDERR is always descriptor number two, and ManuallyDrop
+		// prevents it being closed when we're done.
+		std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(2) })
+	};
+
+	#[cfg(not(unix))]
+	let mut handle = std::io::stderr();
+
+	let _res = handle.write_all(src.as_bytes());
+}
-- 
2.43.0


From a487aef920a066ad73db84ed75a53cba7968510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 21/22] fix: never leave the cursor hidden when SIGINT arrives
 just as it is being hidden

---
 fyi_msg/src/progress/signals.rs | 59 +++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 9c0d870..59c200b 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -16,7 +16,10 @@ use std::sync::{
 #[cfg(feature = "signals_sigint")] use super::Progless;
 #[cfg(feature = "signals_sigint")] use std::{
 	io::Write,
-	sync::OnceLock,
+	sync::{
+		atomic::AtomicUsize,
+		OnceLock,
+	},
 };
 use super::ProglessInner;
 
@@ -28,6 +31,18 @@ use super::ProglessInner;
 /// There can only be one…
 static SIGINT_HANLDER: OnceLock<Arc<AtomicBool>> = OnceLock::new();
 
+#[cfg(feature = "signals_sigint")]
+/// # Cursor-Hiding in Progress.
+///
+/// The number of tickers that are busy hiding the cursor right this moment.
+static HIDING: AtomicUsize = AtomicUsize::new(0);
+
+#[cfg(feature = "signals_sigint")]
+/// # Death in Progress.
+///
+/// Set when it's time to die.
+static DYING: AtomicBool = AtomicBool::new(false);
+
 
 
 #[cfg(feature = "signals_sigint")]
@@ -170,9 +185,7 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) {
-			let _res = std::io::stderr().write_all(Progless::CURSOR_HIDE.as_bytes());
-		}
+		hide_cursor(sigint);
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
@@ -279,13 +292,9 @@ fn sigint_default() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
-			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) {
-				write_raw(Progless::CURSOR_UNHIDE);
-			}
-
 			// One strike and you're out!
-			signal_hook::low_level::exit(1);
+			t_switch.store(true, SeqCst);
+			die();
 		}).is_err() { sigint_error(); }
 	}
 
@@ -311,7 +320,7 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Terminate the process if the switch was already true.
-			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
+			if t_switch.swap(true, SeqCst) { die(); }
 			// Otherwise just unhide the cursor.
 			else { write_raw(Progless::CURSOR_UNHIDE); }
 		).is_err() { sigint_error(); }
@@ -358,6 +367,34 @@ fn sigint_error() -> ! {
 	std::process::exit(1);
 }
 
+#[cfg(feature = "signals_sigint")]
+/// # Hide the Cursor.
+///
+/// Hide the cursor unless or until there's been a `SIGINT`.
+fn hide_cursor(sigint: &AtomicBool) {
+	HIDING.fetch_add(1, SeqCst);
+	if ! sigint.load(SeqCst) { write_raw(Progless::CURSOR_HIDE); }
+	let last = 1 == HIDING.fetch_sub(1, SeqCst);
+
+	// If the signal arrived while we were hiding the cursor, undo the damage,
+	// and die if that's what the handler wanted to do.
+	if sigint.load(SeqCst) {
+		write_raw(Progless::CURSOR_UNHIDE);
+		if last && DYING.load(SeqCst) { signal_hook::low_level::exit(1); }
+	}
+}
+
+#[cfg(feature = "signals_sigint")]
+/// # Die.
+///
+/// Unhide the cursor and die, or if the cursor is just about to be hidden by
+/// one of the tickers, leave that last part to them.
+fn die() {
+	DYING.store(true, SeqCst);
+	write_raw(Progless::CURSOR_UNHIDE);
+	if HIDING.load(SeqCst) == 0 { signal_hook::low_level::exit(1); }
+}
+
 #[cfg(feature = "signals_sigint")]
 #[cfg_attr(unix, expect(unsafe_code, reason = "For raw STDERR."))]
 /// # Write to STDERR (Raw).
-- 
2.43.0


From 2c1ee4d9a5f19a6e060733a156051bd58c889e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 22/22] fix: register signal handlers before the ticker starts

They were registered by the ticker's own thread some time after the
constructor had returned, so an interrupt shortly after the start of a run
still met the system's default (or none of the promised) handling, and which
policy won was left to chance.
---
 fyi_msg/src/progress/steady.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index bfb66d8..842b29f 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -137,10 +137,11 @@ impl Drop for ProglessSteady {
 /// are enabled.
 fn spawn_ticker(t_state: Arc<(Mutex<bool>, Condvar)>, t_inner: Arc<ProglessInner>)
 -> JoinHandle<()> {
-	std::thread::spawn(move || {
-		#[cfg(any(feature = "signals_sigint", feature = "signals_sigwinch"))]
-		let signals = ProglessSignals::default();
+	// Register these now so they're in place by the time the run has started.
+	#[cfg(any(feature = "signals_sigint", feature = "signals_sigwinch"))]
+	let signals = ProglessSignals::default();
 
+	std::thread::spawn(move || {
 		// Tick while the ticking's good.
 		let (t_dead, t_cond) = &*t_state;
 		let mut state = mutex!(t_dead);
-- 
2.43.0

