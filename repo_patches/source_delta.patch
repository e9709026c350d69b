From 184b9c8dd08319a7b14407c0e79229e6fad26098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 01/11] fix: keep only the newest blocks when limiting the
 history and never invent blocks

Queue::set_max_size() padded the history with zero-energy entries up to the new
maximum if it contained less, which broke the relative threshold, integrated
loudness and loudness range, and did not drop the oldest entries if it contained
more, which also left the history growing without any bound afterwards.
---
 src/history.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..8e6ed9f 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,10 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
-            // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
+        // Drop the oldest elements if more are stored than the new maximum allows
+        if self.queue.len() > max {
+            let excess = self.queue.len() - max;
+            self.queue.drain(..excess);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From 17617f602b56bc2bf2991ea71d051e5f8cae54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 02/11] fix: return NoMem if the audio buffer can't be
 allocated instead of aborting

Allocating the audio buffer used vec![], which aborts the process when the
allocation fails, e.g. for set_max_window(u32::MAX), although NoMem is the
documented error for this case.
---
 src/ebur128.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..e09c86f 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -273,15 +273,17 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
-        let audio_data = vec![
-            0.0;
-            audio_data_frames
-                .checked_mul(channels as usize)
-                .ok_or(Error::NoMem)?
-        ]
-        .into_boxed_slice();
+        let audio_data_len = audio_data_frames
+            .checked_mul(channels as usize)
+            .ok_or(Error::NoMem)?;
+
+        let mut audio_data = Vec::new();
+        audio_data
+            .try_reserve_exact(audio_data_len)
+            .map_err(|_| Error::NoMem)?;
+        audio_data.resize(audio_data_len, 0.0);
 
-        Ok(audio_data)
+        Ok(audio_data.into_boxed_slice())
     }
 
     /// Create a new instance with the given configuration.
-- 
2.43.0


From 4ff246df72a6ab67f974712cdbb492176baaf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 03/11] fix: make the audio buffer large enough for all windows
 at low sample rates

samples_in_100ms is rounded up, so at low sample rates the buffer of
rate * window / 1000 frames was too small: at 16Hz and 17Hz add_frames() panicked
and at many rates below 150Hz the 3s window didn't fit, making
loudness_shortterm() and even add_frames() fail with InvalidMode.
---
 src/ebur128.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index e09c86f..01b46d4 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -265,6 +265,14 @@ impl EbuR128 {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
         let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+        // Gating blocks and windows are a multiple of samples_in_100ms, which is rounded and for low
+        // sample rates might be noticeably longer than 100ms. Make sure that all of them fit.
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms
+                .checked_mul(window / 100)
+                .ok_or(Error::NoMem)?,
+        );
         if audio_data_frames % samples_in_100ms != 0 {
             // round up to multiple of samples_in_100ms
             audio_data_frames = audio_data_frames
-- 
2.43.0


From 34ec0a5bea55d84e23c8b188d99979e76630c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 04/11] fix: capi: reject invalid channel types instead of
 transmuting them

Transmuting an arbitrary integer to the Channel enum is undefined behaviour.
---
 src/capi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..48bf4f2 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -79,6 +79,10 @@ pub unsafe extern "C" fn ebur128_set_channel(
     let s = &mut *state;
     let e = &mut *s.internal;
 
+    if !(ebur128::Channel::Unused as i32..=ebur128::Channel::Bm045 as i32).contains(&value) {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     match e.set_channel(
         channel_number,
         mem::transmute::<i32, ebur128::Channel>(value),
-- 
2.43.0


From 4827d421310d0d911401f04b3ac0e04db9b8bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 05/11] fix: capi: reject sample rates that don't fit into 32
 bits

They were silently truncated, so e.g. 2^32 + 48000 was accepted as 48000Hz.
---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 48bf4f2..72f24ee 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -104,6 +108,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From b40f8b6cb8c19ffc9f8c4e926e278057fbe0111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 06/11] fix: capi: return EBUR128_ERROR_NO_CHANGE whenever
 nothing changes

As documented, this also has to be returned if the window or history is the same
as before after applying the minimum of the mode, and if the default history of
ULONG_MAX is set again.
---
 src/capi.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 72f24ee..c16ac30 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -136,12 +136,12 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_window = e.max_window();
 
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        // The window might've been unchanged after applying the minimum of the current mode
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -151,19 +151,22 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     state: *mut State,
     history: std::os::raw::c_ulong,
 ) -> i32 {
-    if history > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
-    }
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
+    let old_history = e.max_history();
+    if history as usize == old_history {
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if history > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        // The history might've been unchanged after applying the minimum of the current mode
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0


From 6e16b4eebf59fc29cfe5f837c3208d505ed265b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 07/11] fix: capi: don't create slices from NULL pointers for
 empty buffers

---
 src/capi.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index c16ac30..ed76bea 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1,6 +1,6 @@
 use crate::ebur128;
 
-use std::{mem, ptr};
+use std::{mem, ptr, slice};
 
 // ABI compatible with ebur128_state
 #[repr(C)]
@@ -11,6 +11,15 @@ pub struct State {
     internal: *mut ebur128::EbuR128,
 }
 
+// C callers are allowed to pass a NULL pointer for empty buffers, Rust slices must never be NULL
+unsafe fn slice_from_raw<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(ptr, len)
+    }
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn ebur128_get_version(major: *mut i32, minor: *mut i32, patch: *mut i32) {
     // We're based on 1.2.6 so let's return that for now
@@ -177,8 +186,6 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -187,7 +194,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -199,8 +206,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -209,7 +214,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -221,8 +226,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -231,7 +234,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -243,8 +246,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -253,7 +254,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -279,9 +280,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -363,9 +362,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0


From 8319fbaef769b8a9ad3b74a4e62b643246ad8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 08/11] fix: return an error instead of panicking if the number
 of planes is wrong

Interleaved frames that don't match the number of channels already return an
error, but for planar frames an assertion failed.
---
 src/ebur128.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 01b46d4..8b45ce9 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -582,7 +582,7 @@ impl EbuR128 {
             return Ok(());
         }
 
-        if self.channels == 0 {
+        if self.channels == 0 || src.channels() != self.channels as usize {
             return Err(Error::NoMem);
         }
 
@@ -670,8 +670,21 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.frames() == 0 {
+            return Ok(());
+        }
+
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -717,57 +730,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 187c354154872b61d8361d91d5e7075fc334e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 09/11] fix: return NoMem if calculating the loudness range
 runs out of memory

This allocates a copy of the whole history, which was aborting the process on
allocation failures.
---
 src/ebur128.rs | 2 +-
 src/history.rs | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 8b45ce9..37a6417 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -876,7 +876,7 @@ impl EbuR128 {
             return Err(Error::InvalidMode);
         }
 
-        Ok(self.short_term_block_energy_history.loudness_range())
+        crate::history::History::loudness_range_multiple(&[&self.short_term_block_energy_history])
     }
 
     /// Get loudness range (LRA) of programme in LU across multiple instances.
diff --git a/src/history.rs b/src/history.rs
index 8e6ed9f..6dae552 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -417,9 +417,10 @@ impl History {
         energy_to_loudness(relative_threshold)
     }
 
+    #[cfg(any(test, feature = "internal-tests"))]
     pub fn loudness_range(&self) -> f64 {
-        // This can only fail if multiple histories are passed
-        // and have a mix of histograms and queues
+        // This can only fail if multiple histories are passed and have a mix of histograms and
+        // queues, or if there is not enough memory
         Self::loudness_range_multiple(&[self]).unwrap()
     }
 
@@ -464,7 +465,8 @@ impl History {
                     }
                 }
 
-                let mut combined = Vec::with_capacity(len);
+                let mut combined = Vec::new();
+                combined.try_reserve_exact(len).map_err(|_| Error::NoMem)?;
                 for h in s {
                     match h {
                         History::Queue(ref q) => {
-- 
2.43.0


From 6aea2e3051e57d14491ab718ffa2d48a91fd04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 10/11] fix: only apply the 3000ms history minimum for
 Mode::LRA as documented

---
 src/ebur128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 37a6417..d1bdda9 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -532,7 +532,7 @@ impl EbuR128 {
     /// Default is `ULONG_MAX` (at least ~50 days). Minimum is 3000ms for `Mode::LRA` and 400ms
     /// for `Mode::M`.
     pub fn set_max_history(&mut self, history: u32) -> Result<(), Error> {
-        let history = if self.mode.contains(Mode::S) {
+        let history = if self.mode.contains(Mode::LRA) {
             std::cmp::max(history, 3000)
         } else if self.mode.contains(Mode::M) {
             std::cmp::max(history, 400)
-- 
2.43.0


From d997d7040cc76a062f5c5af76c6256bec9925d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 11/11] Add preemption points for deterministic simulation,
 guarded by cfg(ebur128_sim)

---
 src/ebur128.rs | 12 ++++++++++++
 src/filter.rs  |  9 +++++++++
 src/history.rs |  6 ++++++
 src/lib.rs     | 15 +++++++++++++++
 src/sim.rs     | 27 +++++++++++++++++++++++++++
 5 files changed, 69 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/ebur128.rs b/src/ebur128.rs
index d1bdda9..e8f3ab4 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -460,6 +460,8 @@ impl EbuR128 {
 
         self.audio_data = Self::allocate_audio_data(channels, rate, self.window)?;
 
+        sim_point!("change_parameters");
+
         if self.channels != channels {
             self.channels = channels;
             self.channel_map = default_channel_map(channels).into_boxed_slice();
@@ -510,6 +512,8 @@ impl EbuR128 {
         self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
         self.window = window as usize;
 
+        sim_point!("set_max_window");
+
         // the first block needs 400ms of audio data
         self.needed_frames = self.samples_in_100ms * 4;
         // start at the beginning of the buffer
@@ -557,6 +561,8 @@ impl EbuR128 {
     pub fn reset(&mut self) {
         self.audio_data.fill(0.0);
 
+        sim_point!("reset");
+
         // the first block needs 400ms of audio data
         self.needed_frames = self.samples_in_100ms * 4;
         // start at the beginning of the buffer
@@ -589,6 +595,8 @@ impl EbuR128 {
         self.filter.reset_peaks();
 
         while src.frames() > 0 {
+            sim_point!("add_frames");
+
             let num_frames = src.frames();
 
             if num_frames >= self.needed_frames {
@@ -604,6 +612,8 @@ impl EbuR128 {
                 src = next;
                 self.audio_data_index += self.needed_frames;
 
+                sim_point!("add_frames/block");
+
                 if self.mode.contains(Mode::I) {
                     let energy = crate::filter::Filter::calc_gating_block(
                         self.samples_in_100ms * 4,
@@ -649,6 +659,8 @@ impl EbuR128 {
             }
         }
 
+        sim_point!("add_frames/peaks");
+
         let prev_sample_peak = self.filter.sample_peak();
         for (sample_peak, prev_sample_peak) in
             Iterator::zip(self.sample_peak.iter_mut(), prev_sample_peak.iter())
diff --git a/src/filter.rs b/src/filter.rs
index 86b9270..59da586 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -183,6 +183,8 @@ impl Filter {
 
                     assert!(c < src.channels());
 
+                    sim_point!("process/sample_peak");
+
                     src.foreach_sample(c, |sample| {
                         let v = sample.as_f64_raw().abs();
                         if v > max {
@@ -217,6 +219,8 @@ impl Filter {
                 } = *self;
                 let filter_state = &mut filter_state[c];
 
+                sim_point!("process/channel");
+
                 src.foreach_sample_zipped(c, dest[dest_index..].iter_mut(), |src, dest| {
                     filter_state[0] = (*src).to_sample::<f64>()
                         - a[1] * filter_state[1]
@@ -246,6 +250,7 @@ impl Filter {
 
             if let Some(ref mut tp) = self.tp {
                 assert!(self.true_peak.len() == self.channels as usize);
+                sim_point!("process/true_peak");
                 tp.check_true_peak(src, &mut self.true_peak);
             }
         });
@@ -275,6 +280,8 @@ impl Filter {
                 } = *self;
                 let filter_state = &mut filter_state[c];
 
+                sim_point!("seed/channel");
+
                 src.foreach_sample(c, |src| {
                     filter_state[0] = (*src).to_sample::<f64>()
                         - a[1] * filter_state[1]
@@ -330,6 +337,8 @@ impl Filter {
             assert!(c < channels);
             assert!(audio_data_index <= audio_data.len());
 
+            sim_point!("calc_gating_block/channel");
+
             let mut channel_sum = 0.0;
 
             // XXX: Don't use channel_sum += sum() here because that gives slightly different
diff --git a/src/history.rs b/src/history.rs
index 6dae552..7224fca 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -303,6 +303,8 @@ impl History {
         s: &'a [&'a Self],
     ) -> Result<impl Iterator<Item = (u64, f64)> + 'a, HistoryError> {
         let (above_thresh_counter, relative_threshold) = s.iter().fold((0, 0.0), |mut acc, h| {
+            sim_point!("gating/threshold");
+
             let (above_thresh_counter, relative_threshold) = h.calc_relative_threshold();
             acc.0 += above_thresh_counter;
             acc.1 += relative_threshold;
@@ -335,6 +337,8 @@ impl History {
         };
 
         Ok(s.iter().flat_map(move |h| {
+            sim_point!("gating/history");
+
             let mut histogram_iterator = None;
             let mut queue_iterator = None;
             match h {
@@ -478,6 +482,8 @@ impl History {
                     }
                 }
 
+                sim_point!("loudness_range/sort");
+
                 let mut contains_nan = false;
                 combined.sort_unstable_by(|a, b| {
                     if let Some(ord) = a.partial_cmp(b) {
diff --git a/src/lib.rs b/src/lib.rs
index 14fde15..fc0697a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,6 +34,21 @@
 //!   * True peak scanning
 //!   * Supports all samplerates by recalculation of the filter coefficients
 
+// For the `ebur128_sim` cfg below
+#![allow(unknown_lints, unexpected_cfgs)]
+
+#[cfg(ebur128_sim)]
+pub mod sim;
+
+/// Preemption point for deterministic simulation, does nothing unless built with
+/// `--cfg ebur128_sim`.
+macro_rules! sim_point {
+    ($site:expr) => {
+        #[cfg(ebur128_sim)]
+        $crate::sim::point($site);
+    };
+}
+
 mod ebur128;
 pub use self::ebur128::*;
 pub use self::utils::energy_to_loudness;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..1f506e6
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,27 @@
+//! Preemption points for deterministic simulation testing.
+//!
+//! This module only exists when building with `--cfg ebur128_sim`. A simulator that runs several
+//! threads of analysis one at a time can install a hook here and gets control in the middle of the
+//! operations on the analyzer, e.g. to switch to another thread.
+
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+/// Hook that is called with the name of the preemption point.
+pub type Hook = fn(&'static str);
+
+static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Install or remove the hook.
+pub fn set_hook(hook: Option<Hook>) {
+    HOOK.store(hook.map(|h| h as usize).unwrap_or(0), Ordering::SeqCst);
+}
+
+/// Called by the instrumented code at every preemption point.
+pub fn point(site: &'static str) {
+    let hook = HOOK.load(Ordering::SeqCst);
+    if hook != 0 {
+        // Safety: Only ever set from a valid `Hook` above
+        let hook = unsafe { std::mem::transmute::<usize, Hook>(hook) };
+        hook(site);
+    }
+}
-- 
2.43.0

