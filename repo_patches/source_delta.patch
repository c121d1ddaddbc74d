From 5960217d622ec5e04e72dee8fa04879de5dd15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 01/15] fix: pw_patch exits with a non-zero status when
 creating a file fails

---
 pw_patch/src/main.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..d8ca043 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -112,11 +112,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -128,11 +130,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -208,11 +212,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -224,11 +230,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From 3c58af876c484914a90ed9b80e3ecf5d2ddc45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 02/15] fix: pw_patch removes its temporary file when a patch
 fails

---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index d8ca043..9eef6e4 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -72,6 +72,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -81,12 +82,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
@@ -172,6 +175,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -181,12 +185,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From 35fdca0262aa3937c9bde703b98b231a03540022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 03/15] fix: hunks that cannot be applied are reported as
 failure

---
 pw_diff_lib/src/apply_bytes.rs | 4 ++++
 pw_patch/src/main.rs           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..c98df81 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -50,6 +50,10 @@ where
                 log::warn!("Clump #{clump_num} already applied");
             } else {
                 log::error!("Clump #{clump_num} could NOT be applied!");
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("clump #{clump_num} could not be applied"),
+                ));
             }
         }
         pd.write_remainder(into)
diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 9eef6e4..9e89c19 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -86,6 +86,10 @@ fn main() {
                                     std::process::exit(1);
                                 }
                             };
+                            if stats.failed > 0 {
+                                log::error!("{} clump(s) could NOT be applied", stats.failed);
+                                std::process::exit(1);
+                            }
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
-- 
2.43.0


From 4eb28895aaad79e24e20f130c8570c124a63c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 04/15] fix: do not skip an item when extending a common
 subsequence forwards

---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From 35fc32e9ce670932cd905bd6ac5270294f13c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 05/15] fix: a clump ends where its last change ends

---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 3d83fa0..2e0e0f7 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -385,7 +385,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From a1c0373e1119a1b4624a4c549945854d0fff1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 06/15] fix: recognise an empty subsequence at the end of a
 sequence

---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From 0c35babd8bbdd18a4c0febdfd9177ad4ea7d7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 07/15] fix: write a reduced clump's lines using a range
 relative to the clump

---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From b8eeceb967b75f7d2304b0d2adfdb8244681d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 08/15] fix: searching nearby for a clump's place does not
 underflow on short targets

---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..4fb25a6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -154,10 +154,11 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 9b086bac4562f6da3135980f5e7c041a282fc51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 09/15] fix: a clump is never applied to text that has already
 been consumed

---
 pw_diff_lib/src/apply_text.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 4fb25a6..764755b 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -146,6 +146,21 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         Ok(())
     }
 
+    /// Is the place where this clump `will_apply` still to be consumed?
+    fn is_unconsumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        will_apply: &WillApply,
+        reverse: bool,
+    ) -> bool {
+        let reductions = match will_apply {
+            WillApply::Cleanly => None,
+            WillApply::WithReductions(reductions) => Some(*reductions),
+        };
+        self.before_adjusted_start(offset, reductions, reverse) >= pd.consumed() as isize
+    }
+
     fn will_apply_nearby(
         &self,
         pd: &ConsumableSeq<String>,
@@ -178,7 +193,10 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) = self
+                        .will_apply(pd.data(), adjusted_offset, reverse)
+                        .filter(|w| self.is_unconsumed(pd, adjusted_offset, w, reverse))
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -269,7 +287,10 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump
+                .will_apply(patchable, offset, reverse)
+                .filter(|w| clump.is_unconsumed(&pd, offset, w, reverse))
+            {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From 8ffab82007b68af19d74b92189e414e32b5d35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 10/15] fix: a byte clump is never applied to bytes that have
 already been consumed

---
 pw_diff_lib/src/apply_bytes.rs | 3 ++-
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index c98df81..607e106 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -7,6 +7,7 @@ use log;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
+    fn before_start(&self, reverse: bool) -> usize;
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
@@ -42,7 +43,7 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.before_start(reverse) >= pd.consumed() && clump.will_apply(patchable, reverse) {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.is_already_applied(patchable, reverse) {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..aad0ad5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -51,6 +51,10 @@ impl ByteChangeClump {
 }
 
 impl<'a> ApplyClumpClean for ByteChangeClump {
+    fn before_start(&self, reverse: bool) -> usize {
+        self.before(reverse).start
+    }
+
     fn will_apply(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let before = self.before(reverse);
         data.has_subsequence_at(&before.items, before.start)
-- 
2.43.0


From 33c38a5457dc4128bd5d388cd29c070924d25f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 11/15] fix: parsing a unified clump does not panic past the
 end or on long context

---
 pw_cub_diff_lib/src/unified_diff.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..96ff0c2 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -127,6 +127,9 @@ pub struct UnifiedDiffClump {
 
 impl UnifiedDiffClump {
     pub fn get_from_at(lines: &Seq<String>, start_index: usize) -> DiffParseResult<Option<Self>> {
+        if start_index >= lines.len() {
+            return Ok(None);
+        }
         let mut iter = lines.subsequence(lines.range_from(start_index));
         let line = match iter.next() {
             Some(line) => line,
@@ -161,9 +164,9 @@ impl UnifiedDiffClump {
                 before_lines.push(line.as_str().to_string());
                 after_lines.push(line.as_str().to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = "-";
             } else {
-- 
2.43.0


From 9add57e54438d48349147012aa4b08e2eacbf934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 12/15] fix: parsed unified clumps hold the lines themselves
 and agree with their header

---
 pw_cub_diff_lib/src/unified_diff.rs | 56 ++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 96ff0c2..2a1e97b 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,6 +117,24 @@ pub fn starts_and_lengths(
     }
 }
 
+/// Remove the final newline from the line (or lines) that a "\ No newline at end of file"
+/// marker following a line of the given type refers to.
+fn remove_final_newline(
+    line_type: &str,
+    before_lines: &mut [String],
+    after_lines: &mut [String],
+) -> Option<()> {
+    if line_type != "+" {
+        let line = before_lines.last_mut()?;
+        *line = line.strip_suffix('\n')?.to_string();
+    }
+    if line_type != "-" {
+        let line = after_lines.last_mut()?;
+        *line = line.strip_suffix('\n')?.to_string();
+    }
+    Some(())
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -151,47 +169,45 @@ impl UnifiedDiffClump {
         {
             let line = *iter.next().check_end_of_input()?;
             if line.starts_with('-') {
-                before_lines.push(line.as_str().to_string());
+                before_lines.push(line[1..].to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "-";
             } else if line.starts_with('+') {
-                after_lines.push(line.as_str().to_string());
+                after_lines.push(line[1..].to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "+";
             } else if line.starts_with(' ') {
-                before_lines.push(line.as_str().to_string());
-                after_lines.push(line.as_str().to_string());
+                before_lines.push(line[1..].to_string());
+                after_lines.push(line[1..].to_string());
                 if at_the_front {
                     start_context_length = start_context_length.saturating_add(1)
                 } else {
                     end_context_length = end_context_length.saturating_add(1)
                 }
-                last_line_type = "-";
+                last_line_type = " ";
+            } else if line.starts_with('\\') {
+                remove_final_newline(last_line_type, &mut before_lines, &mut after_lines)
+                    .ok_or(DiffParseError::SyntaxError(start_index + index + 1))?;
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
             index += 1;
         }
-        let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
-            if line.starts_with("\\") {
-                lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                }
+            if line.starts_with('\\') {
+                remove_final_newline(last_line_type, &mut before_lines, &mut after_lines)
+                    .ok_or(DiffParseError::SyntaxError(start_index + index + 1))?;
+                index += 1;
             }
         }
+        if before_lines.len() != starts_and_lengths.before.length
+            || after_lines.len() != starts_and_lengths.after.length
+        {
+            return Err(DiffParseError::UnexpectedEndClump(start_index + index));
+        }
+        let lines_consumed = index + 1;
         Ok(Some(Self {
             lines_consumed,
             before_lines: before_lines.into_boxed_slice(),
-- 
2.43.0


From 2b27193f68060a87431f7f15861dbb8223124167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 13/15] fix: mark every emitted unified line that lacks a
 newline

---
 pw_cub_diff_lib/src/unified_diff.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 2a1e97b..e2b475f 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -295,7 +295,7 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
         };
         let header = format!("{starts_and_lengths}");
 
-        let mut lines = vec![];
+        let mut lines: Vec<String> = vec![];
         for change in change_clump.iter() {
             use Change::*;
             match change {
@@ -333,12 +333,10 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
+        for line in lines.iter_mut() {
+            if !line.ends_with('\n') {
+                line.push_str("\n\\ No newline at end of file\n");
+            }
         }
 
         Some(UnifiedClumpText { header, lines })
-- 
2.43.0


From 5b713dc7a8e81a86967c07327b3fb0650b634ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 14/15] fix: pw_diff reports a failure to write the end of its
 output

---
 pw_diff/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..a72f009 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -44,7 +44,9 @@ fn main() {
         }
     };
 
-    match diff.to_writer(&mut io::stdout()) {
+    let mut stdout = io::stdout();
+    let result = diff.to_writer(&mut stdout).map_err(io::Error::from);
+    match result.and_then(|_| stdout.flush()) {
         Ok(_) => (),
         Err(err) => {
             log::error!("Error writing diff: {err}");
-- 
2.43.0


From 3e28c9c4d3882c6c59babbf7c7d3953023e52466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 15/15] fix: search for a displaced hunk up to the last
 position it fits

---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 764755b..bccdfe6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -192,7 +192,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) = self
                         .will_apply(pd.data(), adjusted_offset, reverse)
                         .filter(|w| self.is_unconsumed(pd, adjusted_offset, w, reverse))
-- 
2.43.0

