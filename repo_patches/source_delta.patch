From b3880a7bb8256a7c62e0e9409413644556298f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 01/31] fix: do not skip an item when extending a common run
 forward

The extension compared items starting one past the end of the run, so items
that differ were called unchanged and changes were lost from the diff.
---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From d6cf587da17b964fa61afc3363dcc1142283510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 02/31] fix: an empty subsequence is present at the end of a
 sequence

Byte hunks that only insert at the end of the data, or into empty data, were
never applied (or recognised as applied in reverse).
---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From ee4b2fdead5067027aec0eaee757f421a040deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 03/31] fix: a clump ends where its last change ends, not its
 first

---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 3d83fa0..2e0e0f7 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -385,7 +385,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From 238204556fa176adf5bf62f0dcb178d86c1f8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 04/31] fix: write the clump's own lines when its context is
 reduced

before_write_into() indexed the clump's lines with positions in the file.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From 46e4190f4cbbeaeb59ba32a62fb891ab73cc41eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 05/31] fix: do not underflow when there is no room for a clump

The limit of the forward search is negative when the data is shorter than
the clump, or the next clump is expected before the data's start.
---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..4fb25a6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -154,10 +154,11 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 97ac6cb6a791886e6e30015097638e7b75701cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 06/31] fix: include the last possible place when searching
 forward for a clump

A displaced clump without context at the end of the data was not found.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 4fb25a6..2e57d1e 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -177,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 3eea9966a666992c24a6f2757f6c6e6648097822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 07/31] fix: do not apply a clump to lines an earlier clump has
 used

Overlapping applications duplicated or lost lines.
---
 pw_diff_lib/src/apply_text.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 2e57d1e..7b87bbb 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,25 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// As `will_apply()` but only using data that hasn't been consumed by an earlier clump
+    fn will_apply_unconsumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        reverse: bool,
+    ) -> Option<WillApply> {
+        let will_apply = self.will_apply(pd.data(), offset, reverse)?;
+        let reductions = match will_apply {
+            WillApply::Cleanly => None,
+            WillApply::WithReductions(reductions) => Some(reductions),
+        };
+        if self.before_adjusted_start(offset, reductions, reverse) < pd.consumed() as isize {
+            None
+        } else {
+            Some(will_apply)
+        }
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -170,7 +189,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
                 {
                     backward_done = true;
                 } else {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((-i, will_apply));
                     }
                 }
@@ -178,7 +199,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -269,7 +292,7 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump.will_apply_unconsumed(&pd, offset, reverse) {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
@@ -298,7 +321,7 @@ where
                         log::warn!("Clump #{clump_num} applies with {reductions:?} reductions and offset {offset_adj}.");
                     }
                 }
-            } else if let Some(appplied) = clump.is_already_applied(patchable, offset, reverse) {
+            } else if let Some(appplied) = clump.will_apply_unconsumed(&pd, offset, !reverse) {
                 match appplied {
                     WillApply::Cleanly => {
                         clump.already_applied_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From e56faffe472f14668f13de87e5fe19ab422e5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 08/31] fix: do not apply a byte clump to bytes an earlier
 clump has used

Overlapping applications duplicated or lost bytes, or panicked.
---
 pw_diff_lib/src/apply_bytes.rs | 9 +++++++--
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..0337a10 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -7,6 +7,7 @@ use log;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
+    fn before_start(&self, reverse: bool) -> usize;
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
@@ -42,10 +43,14 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.before_start(reverse) >= pd.consumed()
+                && clump.will_apply(patchable, reverse)
+            {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
-            } else if clump.is_already_applied(patchable, reverse) {
+            } else if clump.before_start(!reverse) >= pd.consumed()
+                && clump.is_already_applied(patchable, reverse)
+            {
                 clump.already_applied_into(&mut pd, into, reverse)?;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..aad0ad5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -51,6 +51,10 @@ impl ByteChangeClump {
 }
 
 impl<'a> ApplyClumpClean for ByteChangeClump {
+    fn before_start(&self, reverse: bool) -> usize {
+        self.before(reverse).start
+    }
+
     fn will_apply(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let before = self.before(reverse);
         data.has_subsequence_at(&before.items, before.start)
-- 
2.43.0


From a08af5c82343f9ded72fbf992fae0f5debc27b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 09/31] fix: exit with failure when part of a patch could not
 be applied

Failed clumps were only logged by the library, whose messages pw_patch
doesn't show, and byte patches didn't report them to their caller at all.
---
 pw_diff_lib/src/apply_bytes.rs | 10 ++++++++--
 pw_patch/src/main.rs           |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index 0337a10..6ed0866 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -4,6 +4,7 @@ use std::io;
 
 use log;
 
+use crate::apply_text::Statistics;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
@@ -37,8 +38,9 @@ where
         patchable: &'a Seq<u8>,
         into: &mut W,
         reverse: bool,
-    ) -> io::Result<()> {
+    ) -> io::Result<Statistics> {
         let mut pd = ConsumableSeq::<u8>::new(patchable);
+        let mut stats = Statistics::default();
         let mut iter = self.clumps();
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
@@ -47,17 +49,21 @@ where
                 && clump.will_apply(patchable, reverse)
             {
                 clump.apply_into(&mut pd, into, reverse)?;
+                stats.clean += 1;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.before_start(!reverse) >= pd.consumed()
                 && clump.is_already_applied(patchable, reverse)
             {
                 clump.already_applied_into(&mut pd, into, reverse)?;
+                stats.already_applied += 1;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
+                stats.failed += 1;
                 log::error!("Clump #{clump_num} could NOT be applied!");
             }
         }
-        pd.write_remainder(into)
+        pd.write_remainder(into)?;
+        Ok(stats)
     }
 
     fn already_applied(&self, patchable: &Seq<u8>, reverse: bool) -> bool {
diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..e64aeaa 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -78,6 +78,10 @@ fn main() {
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
+                                Ok(_) if stats.failed > 0 => {
+                                    log::error!("{} clumps failed to apply", stats.failed);
+                                    std::process::exit(1);
+                                }
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
@@ -174,6 +178,10 @@ fn main() {
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
+                                Ok(_) if stats.failed > 0 => {
+                                    log::error!("{} clumps failed to apply", stats.failed);
+                                    std::process::exit(1);
+                                }
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
-- 
2.43.0


From 0e254b8931c89253b22651b7bc414dacf5b8839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 10/31] fix: exit with failure when a file cannot be created

---
 pw_patch/src/main.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index e64aeaa..402ad49 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -116,11 +116,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -132,11 +134,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -216,11 +220,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -232,11 +238,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From 130ccfaa5b86170017d710b80ceb06f202d84a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 11/31] fix: make the temporary file in the directory of the
 file to patch

Renaming it fails if the current directory is on another file system, or
cannot be written.
---
 pw_patch/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 402ad49..cf7128e 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -2,7 +2,7 @@
 
 use std::fs;
 use std::fs::File;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use clap::Parser;
 use log;
@@ -66,7 +66,8 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            let dir = patchable_path.parent().unwrap_or(Path::new("."));
+            match temp_file::TempFile::in_dir(dir) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
@@ -170,7 +171,8 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            let dir = patchable_path.parent().unwrap_or(Path::new("."));
+            match temp_file::TempFile::in_dir(dir) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
-- 
2.43.0


From 1bf08a9c8f6a9044385825de7abaabeed234428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 12/31] fix: remove the temporary file when patching fails

std::process::exit() doesn't drop it.
---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index cf7128e..5b841ad 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -73,6 +73,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -86,12 +87,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
@@ -178,6 +181,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -191,12 +195,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From 874055da1ea51c4847b6a97edcd80c47acca187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 13/31] fix: keep the permissions of a patched file

---
 pw_patch/src/main.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 5b841ad..75cfb34 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -58,6 +58,13 @@ fn main() {
                     std::process::exit(1);
                 }
             };
+            let permissions = match patchable_file.metadata() {
+                Ok(metadata) => metadata.permissions(),
+                Err(err) => {
+                    log::error!("Error reading {patchable_path:?}: {err}");
+                    std::process::exit(1);
+                }
+            };
             let patchable_lines = match Seq::<String>::read(patchable_file) {
                 Ok(lines) => lines,
                 Err(err) => {
@@ -77,6 +84,11 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
+                    if let Err(err) = writer.set_permissions(permissions) {
+                        log::error!("Error setting permissions of temporary file: {err}");
+                        drop(temp_file);
+                        std::process::exit(1);
+                    }
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
@@ -166,6 +178,13 @@ fn main() {
                     std::process::exit(1);
                 }
             };
+            let permissions = match patchable_file.metadata() {
+                Ok(metadata) => metadata.permissions(),
+                Err(err) => {
+                    log::error!("Error reading {patchable_path:?}: {err}");
+                    std::process::exit(1);
+                }
+            };
             let patchable_bytes = match Seq::<u8>::read(patchable_file) {
                 Ok(lines) => lines,
                 Err(err) => {
@@ -185,6 +204,11 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
+                    if let Err(err) = writer.set_permissions(permissions) {
+                        log::error!("Error setting permissions of temporary file: {err}");
+                        drop(temp_file);
+                        std::process::exit(1);
+                    }
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
-- 
2.43.0


From ba2030b9326952fe8ae1f6b66f600dcf47975005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 14/31] fix: report an error writing the end of the patch

The last line is still in stdout's buffer when main() returns, and errors
writing it then are ignored.
---
 pw_diff/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..56108cf 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,7 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
 use std::io;
+use std::io::Write;
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -51,4 +52,8 @@ fn main() {
             std::process::exit(5);
         }
     }
+    if let Err(err) = io::stdout().flush() {
+        log::error!("Error writing diff: {err}");
+        std::process::exit(5);
+    }
 }
-- 
2.43.0


From aeab572e5562469567a5ffe5baf90ee2e6e7c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 15/31] fix: do not take a file whose existence is unknown to
 be missing

A file in a directory that may not be searched was treated as absent, and
a patch removing the other file was made.
---
 pw_diff_lib/src/diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index ce0a9d9..e4ef0a5 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -21,8 +21,8 @@ pub enum Diff {
 
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        if before_file_path.exists() {
-            if after_file_path.exists() {
+        if before_file_path.try_exists()? {
+            if after_file_path.try_exists()? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
@@ -37,7 +37,7 @@ impl Diff {
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
-        } else if after_file_path.exists() {
+        } else if after_file_path.try_exists()? {
             match PathAndLines::new(after_file_path) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
-- 
2.43.0


From 542819691da8b9d8399f7e2e60d0c31f7ce19df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 16/31] fix: only fall back to bytes if a file is not text

Any passing error reading text files silently made a byte patch.
---
 pw_diff_lib/src/diff.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index e4ef0a5..aa060a6 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -25,6 +25,7 @@ impl Diff {
             if after_file_path.try_exists()? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
+                    Err(err) if err.kind() != ErrorKind::InvalidData => Err(err),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
                         before_file_path,
                         after_file_path,
@@ -34,6 +35,7 @@ impl Diff {
             } else {
                 match PathAndLines::new(before_file_path) {
                     Ok(path_and_lines) => Ok(Self::TextRemove(path_and_lines)),
+                    Err(err) if err.kind() != ErrorKind::InvalidData => Err(err),
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
@@ -43,6 +45,7 @@ impl Diff {
                     path_and_lines.change_path(&before_file_path);
                     Ok(Self::TextAdd(path_and_lines))
                 }
+                Err(err) if err.kind() != ErrorKind::InvalidData => Err(err),
                 Err(_) => {
                     let mut path_and_bytes = PathAndBytes::new(after_file_path)?;
                     path_and_bytes.change_path(&before_file_path);
-- 
2.43.0


From 7f142e4c1ee7779c43923f534a16746a0db09c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 17/31] fix: do not keep the markers in a unified diff clump's
 lines

The lines are those of the files, to be compared with and written to them.
---
 pw_cub_diff_lib/src/unified_diff.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..0b0e965 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -147,19 +147,19 @@ impl UnifiedDiffClump {
             || after_lines.len() < starts_and_lengths.after.length
         {
             let line = *iter.next().check_end_of_input()?;
-            if line.starts_with('-') {
-                before_lines.push(line.as_str().to_string());
+            if let Some(text) = line.strip_prefix('-') {
+                before_lines.push(text.to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "-";
-            } else if line.starts_with('+') {
-                after_lines.push(line.as_str().to_string());
+            } else if let Some(text) = line.strip_prefix('+') {
+                after_lines.push(text.to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "+";
-            } else if line.starts_with(' ') {
-                before_lines.push(line.as_str().to_string());
-                after_lines.push(line.as_str().to_string());
+            } else if let Some(text) = line.strip_prefix(' ') {
+                before_lines.push(text.to_string());
+                after_lines.push(text.to_string());
                 if at_the_front {
                     start_context_length += 1
                 } else {
-- 
2.43.0


From b81c2fe6aed8c5db995e1e97f375c0bbcd56d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 18/31] fix: convert a unified diff clump's line numbers to
 indices

before_start() is an index into the lines of the file, starting at 0.
---
 pw_cub_diff_lib/src/text_diff.rs    |  2 +-
 pw_cub_diff_lib/src/unified_diff.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pw_cub_diff_lib/src/text_diff.rs b/pw_cub_diff_lib/src/text_diff.rs
index a3caff4..2a20222 100644
--- a/pw_cub_diff_lib/src/text_diff.rs
+++ b/pw_cub_diff_lib/src/text_diff.rs
@@ -42,7 +42,7 @@ pub struct PathAndTimestamp {
     pub time_stamp: Option<String>,
 }
 
-#[derive(Debug, PartialEq, Clone)]
+#[derive(Debug, PartialEq, Clone, Copy)]
 pub struct StartAndLength {
     pub start: usize,
     pub length: usize,
diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b0e965..54f21e3 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -201,10 +201,16 @@ impl UnifiedDiffClump {
 
 impl ChangeBasics for UnifiedDiffClump {
     fn before_start(&self, reverse: bool) -> usize {
-        if reverse {
-            self.starts_and_lengths.after.start
+        let StartAndLength { start, length } = if reverse {
+            self.starts_and_lengths.after
+        } else {
+            self.starts_and_lengths.before
+        };
+        // The line numbers in a header start at 1, but an empty range is numbered by the line before it
+        if length == 0 {
+            start
         } else {
-            self.starts_and_lengths.before.start
+            start.saturating_sub(1)
         }
     }
 
-- 
2.43.0


From f3d2a0cf6b294c1c05584ff51925c5bda82b22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 19/31] fix: heed a 'no newline' marker wherever it is in a
 unified diff clump

It was rejected before the last line, only applied to the old side after an
unchanged line, and removed other white space before the newline as well.
---
 pw_cub_diff_lib/src/unified_diff.rs | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 54f21e3..ededc04 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,6 +117,21 @@ pub fn starts_and_lengths(
     }
 }
 
+/// Act on a "no newline at end of file" marker following a line of the given type
+fn remove_final_newline(
+    line_type: &str,
+    before_lines: &mut [String],
+    after_lines: &mut [String],
+) {
+    let before_line = before_lines.last_mut().filter(|_| line_type != "+");
+    let after_line = after_lines.last_mut().filter(|_| line_type != "-");
+    for line in before_line.into_iter().chain(after_line) {
+        if line.ends_with('\n') {
+            line.pop();
+        }
+    }
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -165,7 +180,10 @@ impl UnifiedDiffClump {
                 } else {
                     end_context_length += 1
                 }
-                last_line_type = "-";
+                last_line_type = " ";
+            } else if line.starts_with('\\') && last_line_type != "X" {
+                remove_final_newline(last_line_type, &mut before_lines, &mut after_lines);
+                last_line_type = "X";
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
@@ -175,18 +193,7 @@ impl UnifiedDiffClump {
         if let Some(line) = iter.next() {
             if line.starts_with("\\") {
                 lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                }
+                remove_final_newline(last_line_type, &mut before_lines, &mut after_lines);
             }
         }
         Ok(Some(Self {
-- 
2.43.0


From ac913cf31c32303731bb875ef1417e1f2c5f35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 20/31] fix: do not overflow counting a unified diff clump's
 context lines

---
 pw_cub_diff_lib/src/unified_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index ededc04..8d38083 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -176,9 +176,9 @@ impl UnifiedDiffClump {
                 before_lines.push(text.to_string());
                 after_lines.push(text.to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = " ";
             } else if line.starts_with('\\') && last_line_type != "X" {
-- 
2.43.0


From 3aae8785cd57015ab68d8af46e0c8d007420bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 21/31] fix: reject a unified diff clump with more lines than
 its header says

---
 pw_cub_diff_lib/src/unified_diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 8d38083..e33b41e 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -189,6 +189,11 @@ impl UnifiedDiffClump {
             }
             index += 1;
         }
+        if before_lines.len() != starts_and_lengths.before.length
+            || after_lines.len() != starts_and_lengths.after.length
+        {
+            return Err(DiffParseError::SyntaxError(start_index + index));
+        }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
             if line.starts_with("\\") {
-- 
2.43.0


From b21e2184d42899a183954976024a58fcc6e8d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 22/31] fix: number lines from 1 in unified diff clump headers

---
 pw_cub_diff_lib/src/unified_diff.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index e33b41e..8dad173 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -261,6 +261,14 @@ impl TextClumpBasics for UnifiedDiffClump {
     }
 }
 
+/// The line number and length used in a header for the range with the given indices
+fn start_and_length_from_indices(start: usize, end: usize) -> StartAndLength {
+    let length = end - start;
+    // Line numbers start at 1, but an empty range is numbered by the line before it
+    let start = if length == 0 { start } else { start + 1 };
+    StartAndLength { start, length }
+}
+
 pub struct UnifiedClumpText {
     pub header: String,
     pub lines: Vec<String>,
@@ -280,17 +288,9 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
 
         let starts = change_clump.starts();
         let ends = change_clump.ends();
-        let before_start_and_end = StartAndLength {
-            start: starts.0,
-            length: ends.0 - starts.0,
-        };
-        let after_start_and_end = StartAndLength {
-            start: starts.1,
-            length: ends.1 - starts.1,
-        };
         let starts_and_lengths = StartsAndLengths {
-            before: before_start_and_end,
-            after: after_start_and_end,
+            before: start_and_length_from_indices(starts.0, ends.0),
+            after: start_and_length_from_indices(starts.1, ends.1),
         };
         let header = format!("{starts_and_lengths}");
 
-- 
2.43.0


From c4c8dd4dc0c8580dcdcbb70de88487ed2f9c525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 23/31] fix: mark every line without a final newline in a
 unified diff clump

Only the last line was checked, so that another one was joined to it.
---
 pw_cub_diff_lib/src/unified_diff.rs | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 8dad173..fc6a040 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -269,6 +269,14 @@ fn start_and_length_from_indices(start: usize, end: usize) -> StartAndLength {
     StartAndLength { start, length }
 }
 
+/// Add a line of a clump, and a "no newline" marker if it needs one
+fn push_marked_line(lines: &mut Vec<String>, marker: char, line: &str) {
+    lines.push(format!("{marker}{line}"));
+    if !line.ends_with('\n') {
+        lines.push("\n\\\n".to_string());
+    }
+}
+
 pub struct UnifiedClumpText {
     pub header: String,
     pub lines: Vec<String>,
@@ -300,46 +308,38 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
             match change {
                 NoChange(common_subsequence) => {
                     for line in self.before.subsequence(common_subsequence.before_range()) {
-                        lines.push(format!(" {line}"));
+                        push_marked_line(&mut lines, ' ', line);
                     }
                 }
                 Delete(before_range, _) => {
                     for line in self.before.subsequence(*before_range) {
-                        lines.push(format!("-{line}"));
+                        push_marked_line(&mut lines, '-', line);
                     }
                 }
                 Insert(_, after_range) => {
                     for line in self.after.subsequence(*after_range) {
-                        lines.push(format!("+{line}"));
+                        push_marked_line(&mut lines, '+', line);
                     }
                 }
                 Replace(before_range, after_range) => {
                     if before_range.len() < after_range.len() {
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_marked_line(&mut lines, '-', line);
                         }
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_marked_line(&mut lines, '+', line);
                         }
                     } else {
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_marked_line(&mut lines, '+', line);
                         }
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_marked_line(&mut lines, '-', line);
                         }
                     }
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
-        }
-
         Some(UnifiedClumpText { header, lines })
     }
 }
-- 
2.43.0


From 5e644b51d36736a8a01c1cb3f6b5506281a49366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 24/31] fix: do not search for a clump where the file has no
 lines

---
 pw_diff_lib/src/apply_text.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 7b87bbb..38dbfc3 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -179,9 +179,17 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             pd.data().len() as isize
                 - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
-        let mut backward_done = false;
-        let mut forward_done = false;
-        for i in 1isize.. {
+        // whatever the clumps say, every place is within the data (or, with the context reduced,
+        // starts in front of it): don't go step by step through the void to get there
+        let data_len = pd.data().len() as isize;
+        let not_after = not_after.min(data_len);
+        let start = self.before_adjusted_start(offset, None, reverse);
+        let (start_context_len, end_context_len) = self.context_lengths();
+        let max_reduction = start_context_len.max(end_context_len) as isize;
+        let first = (start - data_len).max(-max_reduction - start).max(1);
+        let mut backward_done = start <= pd.consumed() as isize;
+        let mut forward_done = start >= not_after;
+        for i in first.. {
             if !backward_done {
                 let adjusted_offset = offset - i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse)
-- 
2.43.0


From 823889cbb03483bb61b034d988cba89b04e7d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 25/31] fix: pw_patch: don't leave part of a new file behind
 when it can't be written

---
 pw_patch/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 75cfb34..ae32775 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -133,6 +133,7 @@ fn main() {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
                             log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
                             std::process::exit(1)
                         }
                     },
@@ -151,6 +152,7 @@ fn main() {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
                             log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
                             std::process::exit(1)
                         }
                     },
@@ -253,6 +255,7 @@ fn main() {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
                             log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
                             std::process::exit(1)
                         }
                     },
@@ -271,6 +274,7 @@ fn main() {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
                             log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
                             std::process::exit(1)
                         }
                     },
-- 
2.43.0


From 009717d2397885d7feb126182117ef2689e3e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 26/31] fix: pw_diff: read each file once only, so that binary
 content from a pipe isn't lost

---
 pw_diff_lib/src/byte_diff.rs | 22 +++++++++++++++++++---
 pw_diff_lib/src/diff.rs      | 29 +++++++++++++++++++++--------
 pw_diff_lib/src/text_diff.rs | 22 +++++++++++++++++++---
 3 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index aad0ad5..0cd3027 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -99,8 +99,20 @@ pub struct ByteChangeDiff {
 
 impl ByteChangeDiff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        let before_bytes = Seq::<u8>::read(File::open(before_file_path)?)?;
-        let after_bytes = Seq::<u8>::read(File::open(after_file_path)?)?;
+        Self::read(
+            (before_file_path, File::open(before_file_path)?),
+            (after_file_path, File::open(after_file_path)?),
+            context,
+        )
+    }
+
+    pub(crate) fn read<R: io::Read>(
+        (before_file_path, before): (&Path, R),
+        (after_file_path, after): (&Path, R),
+        context: u8,
+    ) -> io::Result<Self> {
+        let before_bytes = Seq::<u8>::read(before)?;
+        let after_bytes = Seq::<u8>::read(after)?;
         let modifications = Changes::<u8>::new(before_bytes, after_bytes);
 
         Ok(Self {
@@ -149,9 +161,13 @@ pub struct PathAndBytes {
 
 impl PathAndBytes {
     pub fn new(path: &Path) -> io::Result<Self> {
+        Self::read(path, File::open(path)?)
+    }
+
+    pub(crate) fn read<R: io::Read>(path: &Path, read: R) -> io::Result<Self> {
         use std::io::Read;
         let mut bytes = vec![];
-        let mut reader = io::BufReader::new(File::open(path)?);
+        let mut reader = io::BufReader::new(read);
         reader.read_to_end(&mut bytes)?;
 
         Ok(Self {
diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index aa060a6..d22a59e 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -1,5 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
+use std::fs;
 use std::io;
 use std::io::ErrorKind;
 use std::path::Path;
@@ -23,31 +24,43 @@ impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
         if before_file_path.try_exists()? {
             if after_file_path.try_exists()? {
-                match TextChangeDiff::new(before_file_path, after_file_path, context) {
+                // each file is read once only: it may be a pipe
+                let before = fs::read(before_file_path)?;
+                let after = fs::read(after_file_path)?;
+                match TextChangeDiff::read(
+                    (before_file_path, before.as_slice()),
+                    (after_file_path, after.as_slice()),
+                    context,
+                ) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(err) if err.kind() != ErrorKind::InvalidData => Err(err),
-                    Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
-                        before_file_path,
-                        after_file_path,
+                    Err(_) => Ok(Self::ByteChange(ByteChangeDiff::read(
+                        (before_file_path, before.as_slice()),
+                        (after_file_path, after.as_slice()),
                         context,
                     )?)),
                 }
             } else {
-                match PathAndLines::new(before_file_path) {
+                let before = fs::read(before_file_path)?;
+                match PathAndLines::read(before_file_path, before.as_slice()) {
                     Ok(path_and_lines) => Ok(Self::TextRemove(path_and_lines)),
                     Err(err) if err.kind() != ErrorKind::InvalidData => Err(err),
-                    Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
+                    Err(_) => Ok(Self::ByteRemove(PathAndBytes::read(
+                        before_file_path,
+                        before.as_slice(),
+                    )?)),
                 }
             }
         } else if after_file_path.try_exists()? {
-            match PathAndLines::new(after_file_path) {
+            let after = fs::read(after_file_path)?;
+            match PathAndLines::read(after_file_path, after.as_slice()) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
                     Ok(Self::TextAdd(path_and_lines))
                 }
                 Err(err) if err.kind() != ErrorKind::InvalidData => Err(err),
                 Err(_) => {
-                    let mut path_and_bytes = PathAndBytes::new(after_file_path)?;
+                    let mut path_and_bytes = PathAndBytes::read(after_file_path, after.as_slice())?;
                     path_and_bytes.change_path(&before_file_path);
                     Ok(Self::ByteAdd(path_and_bytes))
                 }
diff --git a/pw_diff_lib/src/text_diff.rs b/pw_diff_lib/src/text_diff.rs
index b25d416..0b6a9d7 100644
--- a/pw_diff_lib/src/text_diff.rs
+++ b/pw_diff_lib/src/text_diff.rs
@@ -91,8 +91,20 @@ pub struct TextChangeDiff {
 
 impl TextChangeDiff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        let before_lines = Seq::<String>::read(File::open(before_file_path)?)?;
-        let after_lines = Seq::<String>::read(File::open(after_file_path)?)?;
+        Self::read(
+            (before_file_path, File::open(before_file_path)?),
+            (after_file_path, File::open(after_file_path)?),
+            context,
+        )
+    }
+
+    pub(crate) fn read<R: io::Read>(
+        (before_file_path, before): (&Path, R),
+        (after_file_path, after): (&Path, R),
+        context: u8,
+    ) -> io::Result<Self> {
+        let before_lines = Seq::<String>::read(before)?;
+        let after_lines = Seq::<String>::read(after)?;
         let modifications = Changes::<String>::new(before_lines, after_lines);
 
         Ok(Self {
@@ -139,9 +151,13 @@ pub struct PathAndLines {
 
 impl PathAndLines {
     pub fn new(path: &Path) -> io::Result<Self> {
+        Self::read(path, File::open(path)?)
+    }
+
+    pub(crate) fn read<R: io::Read>(path: &Path, read: R) -> io::Result<Self> {
         use std::io::BufRead;
         let mut lines = vec![];
-        let mut reader = io::BufReader::new(File::open(path)?);
+        let mut reader = io::BufReader::new(read);
         loop {
             let mut line = String::new();
             if reader.read_line(&mut line)? == 0 {
-- 
2.43.0


From f9017f9bf86de9a4cfd16e1d9135579b0f3766af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 27/31] fix: pw_diff: fail if standard output isn't open for
 writing

---
 pw_diff/src/main.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 56108cf..d890d11 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -28,6 +28,19 @@ struct Cli {
     after_file_path: PathBuf,
 }
 
+/// Standard output that, unlike io::stdout(), reports it if it isn't open for writing.
+#[cfg(unix)]
+fn stdout() -> io::Result<impl Write> {
+    use std::os::fd::AsFd;
+    let fd = io::stdout().as_fd().try_clone_to_owned()?;
+    Ok(io::BufWriter::new(std::fs::File::from(fd)))
+}
+
+#[cfg(not(unix))]
+fn stdout() -> io::Result<impl Write> {
+    Ok(io::stdout())
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -45,14 +58,21 @@ fn main() {
         }
     };
 
-    match diff.to_writer(&mut io::stdout()) {
+    let mut stdout = match stdout() {
+        Ok(stdout) => stdout,
+        Err(err) => {
+            log::error!("Error opening standard output: {err}");
+            std::process::exit(5);
+        }
+    };
+    match diff.to_writer(&mut stdout) {
         Ok(_) => (),
         Err(err) => {
             log::error!("Error writing diff: {err}");
             std::process::exit(5);
         }
     }
-    if let Err(err) = io::stdout().flush() {
+    if let Err(err) = stdout.flush() {
         log::error!("Error writing diff: {err}");
         std::process::exit(5);
     }
-- 
2.43.0


From 9bfd64fd1800042a05d2b23bf3008f16b4592b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 28/31] fix: pw_patch: refuse to patch what isn't a regular
 file

---
 pw_patch/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index ae32775..9a0ac75 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -51,6 +51,10 @@ fn main() {
     match diff {
         Diff::TextChange(diff) => {
             let patchable_path = diff.before_path();
+            if fs::metadata(patchable_path).is_ok_and(|metadata| !metadata.is_file()) {
+                log::error!("{patchable_path:?} is not a regular file");
+                std::process::exit(1);
+            }
             let patchable_file = match File::open(patchable_path) {
                 Ok(file) => file,
                 Err(err) => {
@@ -173,6 +177,10 @@ fn main() {
         }
         Diff::ByteChange(diff) => {
             let patchable_path = diff.before_path();
+            if fs::metadata(patchable_path).is_ok_and(|metadata| !metadata.is_file()) {
+                log::error!("{patchable_path:?} is not a regular file");
+                std::process::exit(1);
+            }
             let patchable_file = match File::open(patchable_path) {
                 Ok(file) => file,
                 Err(err) => {
-- 
2.43.0


From fb83916389d95d52edd3fc65893f685386c332e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 29/31] fix: pw_patch: keep the set-ID bits of a patched file
 when not run by root

---
 pw_patch/src/main.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 9a0ac75..7b9a49e 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -88,13 +88,19 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
-                    if let Err(err) = writer.set_permissions(permissions) {
+                    if let Err(err) = writer.set_permissions(permissions.clone()) {
                         log::error!("Error setting permissions of temporary file: {err}");
                         drop(temp_file);
                         std::process::exit(1);
                     }
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
+                            // writing may have cleared the set-user-ID and set-group-ID bits
+                            if let Err(err) = writer.set_permissions(permissions) {
+                                log::error!("Error setting permissions of temporary file: {err}");
+                                drop(temp_file);
+                                std::process::exit(1);
+                            }
                             match std::fs::rename(temp_file.path(), patchable_path) {
                                 Ok(_) if stats.failed > 0 => {
                                     log::error!("{} clumps failed to apply", stats.failed);
@@ -214,13 +220,19 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
-                    if let Err(err) = writer.set_permissions(permissions) {
+                    if let Err(err) = writer.set_permissions(permissions.clone()) {
                         log::error!("Error setting permissions of temporary file: {err}");
                         drop(temp_file);
                         std::process::exit(1);
                     }
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
+                            // writing may have cleared the set-user-ID and set-group-ID bits
+                            if let Err(err) = writer.set_permissions(permissions) {
+                                log::error!("Error setting permissions of temporary file: {err}");
+                                drop(temp_file);
+                                std::process::exit(1);
+                            }
                             match std::fs::rename(temp_file.path(), patchable_path) {
                                 Ok(_) if stats.failed > 0 => {
                                     log::error!("{} clumps failed to apply", stats.failed);
-- 
2.43.0


From 834a327309fb4c11186f0d332cacaabb86aedd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 30/31] fix: pw_patch: keep the owner of a file patched by root

---
 pw_patch/src/main.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 7b9a49e..8fbf77e 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -1,7 +1,8 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
 use std::fs;
-use std::fs::File;
+use std::fs::{File, Metadata};
+use std::io;
 use std::path::{Path, PathBuf};
 
 use clap::Parser;
@@ -23,6 +24,16 @@ struct Cli {
     patch_path: PathBuf,
 }
 
+/// Give `file` the owner (if that is allowed) and the permissions that `metadata` says.
+fn set_attributes(file: &File, metadata: &Metadata) -> io::Result<()> {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::{fchown, MetadataExt};
+        let _ = fchown(file, Some(metadata.uid()), Some(metadata.gid()));
+    }
+    file.set_permissions(metadata.permissions())
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -62,8 +73,8 @@ fn main() {
                     std::process::exit(1);
                 }
             };
-            let permissions = match patchable_file.metadata() {
-                Ok(metadata) => metadata.permissions(),
+            let metadata = match patchable_file.metadata() {
+                Ok(metadata) => metadata,
                 Err(err) => {
                     log::error!("Error reading {patchable_path:?}: {err}");
                     std::process::exit(1);
@@ -88,7 +99,7 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
-                    if let Err(err) = writer.set_permissions(permissions.clone()) {
+                    if let Err(err) = set_attributes(&writer, &metadata) {
                         log::error!("Error setting permissions of temporary file: {err}");
                         drop(temp_file);
                         std::process::exit(1);
@@ -96,7 +107,7 @@ fn main() {
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
                             // writing may have cleared the set-user-ID and set-group-ID bits
-                            if let Err(err) = writer.set_permissions(permissions) {
+                            if let Err(err) = set_attributes(&writer, &metadata) {
                                 log::error!("Error setting permissions of temporary file: {err}");
                                 drop(temp_file);
                                 std::process::exit(1);
@@ -194,8 +205,8 @@ fn main() {
                     std::process::exit(1);
                 }
             };
-            let permissions = match patchable_file.metadata() {
-                Ok(metadata) => metadata.permissions(),
+            let metadata = match patchable_file.metadata() {
+                Ok(metadata) => metadata,
                 Err(err) => {
                     log::error!("Error reading {patchable_path:?}: {err}");
                     std::process::exit(1);
@@ -220,7 +231,7 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
-                    if let Err(err) = writer.set_permissions(permissions.clone()) {
+                    if let Err(err) = set_attributes(&writer, &metadata) {
                         log::error!("Error setting permissions of temporary file: {err}");
                         drop(temp_file);
                         std::process::exit(1);
@@ -228,7 +239,7 @@ fn main() {
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
                             // writing may have cleared the set-user-ID and set-group-ID bits
-                            if let Err(err) = writer.set_permissions(permissions) {
+                            if let Err(err) = set_attributes(&writer, &metadata) {
                                 log::error!("Error setting permissions of temporary file: {err}");
                                 drop(temp_file);
                                 std::process::exit(1);
-- 
2.43.0


From 1b4fd833f2a907c80d5b084a92383e3a8a8da5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 31/31] fix: reject patches with impossible hunks when they are
 read, instead of crashing on them

---
 pw_diff_lib/src/byte_diff.rs | 19 ++++++++++++++++++-
 pw_diff_lib/src/snippet.rs   |  6 ++++++
 pw_diff_lib/src/text_diff.rs | 19 ++++++++++++++++++-
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 0cd3027..a35e3b9 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -4,7 +4,8 @@ use std::fs::File;
 use std::io;
 use std::path::{Path, PathBuf};
 
-use serde::{Deserialize, Serialize};
+use serde::de::Error;
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::apply_bytes::{ApplyClumpClean, ApplyClumpsClean};
 use crate::changes::{ChangeClump, Changes};
@@ -89,11 +90,27 @@ impl<'a> ApplyClumpClean for ByteChangeClump {
     }
 }
 
+/// The clumps of a patch that is being read, unless one of them makes no sense
+fn possible_clumps<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Box<[ByteChangeClump]>, D::Error> {
+    let clumps = <Box<[ByteChangeClump]>>::deserialize(deserializer)?;
+    for clump in clumps.iter() {
+        if !clump.before.is_possible(clump.context_lengths)
+            || !clump.after.is_possible(clump.context_lengths)
+        {
+            return Err(D::Error::custom("impossible start or context lengths"));
+        }
+    }
+    Ok(clumps)
+}
+
 #[derive(Debug, Default, Serialize, Deserialize)]
 pub struct ByteChangeDiff {
     before_path: PathBuf,
     after_path: PathBuf,
     compressed: bool,
+    #[serde(deserialize_with = "possible_clumps")]
     clumps: Box<[ByteChangeClump]>,
 }
 
diff --git a/pw_diff_lib/src/snippet.rs b/pw_diff_lib/src/snippet.rs
index d925935..f3a3eb0 100644
--- a/pw_diff_lib/src/snippet.rs
+++ b/pw_diff_lib/src/snippet.rs
@@ -18,6 +18,12 @@ impl<T> Len for Snippet<T> {
 }
 
 impl<T> Snippet<T> {
+    /// Whether this can be one side of a clump that has these context lengths
+    pub(crate) fn is_possible(&self, (start_context, end_context): (u8, u8)) -> bool {
+        self.start <= isize::MAX as usize / 4
+            && start_context as usize + end_context as usize <= self.items.len()
+    }
+
     pub fn range(&self, reductions: Option<(u8, u8)>) -> Range {
         if let Some((start_reduction, end_reduction)) = reductions {
             Range(
diff --git a/pw_diff_lib/src/text_diff.rs b/pw_diff_lib/src/text_diff.rs
index 0b6a9d7..7979e84 100644
--- a/pw_diff_lib/src/text_diff.rs
+++ b/pw_diff_lib/src/text_diff.rs
@@ -3,7 +3,8 @@ use std::fs::File;
 use std::io;
 use std::path::{Path, PathBuf};
 
-use serde::{Deserialize, Serialize};
+use serde::de::Error;
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::apply_text::*;
 use crate::changes::*;
@@ -82,10 +83,26 @@ impl TextChangeClump {
 
 impl ApplyClumpFuzzy for TextChangeClump {}
 
+/// The clumps of a patch that is being read, unless one of them makes no sense
+fn possible_clumps<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Vec<TextChangeClump>, D::Error> {
+    let clumps = <Vec<TextChangeClump>>::deserialize(deserializer)?;
+    for clump in clumps.iter() {
+        if !clump.before.is_possible(clump.context_lengths)
+            || !clump.after.is_possible(clump.context_lengths)
+        {
+            return Err(D::Error::custom("impossible start or context lengths"));
+        }
+    }
+    Ok(clumps)
+}
+
 #[derive(Debug, Default, Serialize, Deserialize)]
 pub struct TextChangeDiff {
     before_path: PathBuf,
     after_path: PathBuf,
+    #[serde(deserialize_with = "possible_clumps")]
     clumps: Vec<TextChangeClump>,
 }
 
-- 
2.43.0

