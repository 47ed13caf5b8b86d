From 597f2d581640ad4c04b2bf0191721ac60df0dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 01/30] fix: parallel iteration of ranges that start after the
 surrogate gap

---
 unic/char/range/src/par_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..45065e4 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -52,7 +52,11 @@ impl CharRange {
     fn compact_range(&self) -> Range<u32> {
         let low = self.low as u32;
         let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
+        (if self.low >= AFTER_SURROGATE {
+            low - SKIP_LENGTH
+        } else {
+            low
+        })..(if self.high >= AFTER_SURROGATE {
             high - SKIP_LENGTH
         } else {
             high
-- 
2.43.0


From 33b226e9be99b24702c8f66b6caf27ee8e2068ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 02/30] fix: StrBidiClass::has_ltr looked for RTL characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From 4c48fbb43412db33f7915bb5c92f5de9805199a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 03/30] fix: Age's Ord disagreed with its PartialOrd

---
 unic/ucd/age/src/age.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..6d5e925 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -85,11 +85,14 @@ impl Age {
 
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
-        match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
-        }
+        Some(self.cmp(other))
+    }
+}
+
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        // A character assigned in an earlier version is older (has a greater age).
+        other.0.cmp(&self.0)
     }
 }
 
-- 
2.43.0


From a4f315a638e9ab5667eb1e65084877e711695c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 04/30] fix: U+11A7 is not a trailing consonant and must not
 compose with an LV syllable

---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From f251515bab5895f44e0bcbb8c07e1983394c8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 05/30] fix: decompose_syllable created invalid chars from
 characters that are not syllables

---
 unic/ucd/hangul/src/hangul.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index c1cbcab..0db8966 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -40,6 +40,12 @@ pub fn decompose_syllable<F>(syllable: char, f: &mut F)
 where
     F: FnMut(char),
 {
+    // Anything else than a syllable decomposes to itself
+    if !is_syllable(syllable) {
+        (*f)(syllable);
+        return;
+    }
+
     let si = syllable as u32 - S_BASE;
 
     let li = si / N_COUNT;
-- 
2.43.0


From 17c7b2b61ab5c126c75e57435e1edf9c8c890bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 06/30] fix: Bidi_Class of unassigned code points that default
 to AL or BN

---
 gen/src/writer/ucd/bidi.rs          |  5 +++++
 unic/ucd/bidi/tables/bidi_class.rsv | 11 ++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gen/src/writer/ucd/bidi.rs b/gen/src/writer/ucd/bidi.rs
index 78b77e1..3175780 100644
--- a/gen/src/writer/ucd/bidi.rs
+++ b/gen/src/writer/ucd/bidi.rs
@@ -33,6 +33,7 @@ pub fn generate(dir: &Path) {
 // Ref: <https://www.unicode.org/Public/UNIDATA/extracted/DerivedBidiClass.txt>
 const BIDI_CLASS_DEFAULTS: &[(u32, u32, &str)] = &[
     (0x0600, 0x07BF, "AL"),
+    (0x0860, 0x086F, "AL"),
     (0x08A0, 0x08FF, "AL"),
     (0xFB50, 0xFDCF, "AL"),
     (0xFDF0, 0xFDFF, "AL"),
@@ -45,6 +46,10 @@ const BIDI_CLASS_DEFAULTS: &[(u32, u32, &str)] = &[
     (0x1_E800, 0x1_EDFF, "R"),
     (0x1_EF00, 0x1_EFFF, "R"),
     (0x20A0, 0x20CF, "ET"),
+    // Unassigned Default_Ignorable_Code_Point
+    (0x2065, 0x2065, "BN"),
+    (0xFFF0, 0xFFF8, "BN"),
+    (0xE_0000, 0xE_0FFF, "BN"),
 ];
 
 fn emit_bidi_class(dir: &Path) {
diff --git a/unic/ucd/bidi/tables/bidi_class.rsv b/unic/ucd/bidi/tables/bidi_class.rsv
index 6d65f54..47336b5 100644
--- a/unic/ucd/bidi/tables/bidi_class.rsv
+++ b/unic/ucd/bidi/tables/bidi_class.rsv
@@ -143,8 +143,8 @@ CharDataTable::Range(&[
     (chars!('\u{82e}'..='\u{858}'), R),
     (chars!('\u{859}'..='\u{85b}'), NSM),
     (chars!('\u{85c}'..='\u{85f}'), R),
-    (chars!('\u{860}'..='\u{86a}'), AL),
-    (chars!('\u{86b}'..='\u{89f}'), R),
+    (chars!('\u{860}'..='\u{86f}'), AL),
+    (chars!('\u{870}'..='\u{89f}'), R),
     (chars!('\u{8a0}'..='\u{8d3}'), AL),
     (chars!('\u{8d4}'..='\u{8e1}'), NSM),
     (chars!('\u{8e2}'..='\u{8e2}'), AN),
@@ -610,7 +610,7 @@ CharDataTable::Range(&[
     (chars!('\u{2044}'..='\u{2044}'), CS),
     (chars!('\u{2045}'..='\u{205e}'), ON),
     (chars!('\u{205f}'..='\u{205f}'), WS),
-    (chars!('\u{2060}'..='\u{2064}'), BN),
+    (chars!('\u{2060}'..='\u{2065}'), BN),
     (chars!('\u{2066}'..='\u{2066}'), LRI),
     (chars!('\u{2067}'..='\u{2067}'), RLI),
     (chars!('\u{2068}'..='\u{2068}'), FSI),
@@ -911,6 +911,7 @@ CharDataTable::Range(&[
     (chars!('\u{ffe2}'..='\u{ffe4}'), ON),
     (chars!('\u{ffe5}'..='\u{ffe6}'), ET),
     (chars!('\u{ffe8}'..='\u{ffee}'), ON),
+    (chars!('\u{fff0}'..='\u{fff8}'), BN),
     (chars!('\u{fff9}'..='\u{fffd}'), ON),
     (chars!('\u{10000}'..='\u{1000b}'), L),
     (chars!('\u{1000d}'..='\u{10026}'), L),
@@ -1290,9 +1291,9 @@ CharDataTable::Range(&[
     (chars!('\u{2b820}'..='\u{2cea1}'), L),
     (chars!('\u{2ceb0}'..='\u{2ebe0}'), L),
     (chars!('\u{2f800}'..='\u{2fa1d}'), L),
-    (chars!('\u{e0001}'..='\u{e0001}'), BN),
-    (chars!('\u{e0020}'..='\u{e007f}'), BN),
+    (chars!('\u{e0000}'..='\u{e00ff}'), BN),
     (chars!('\u{e0100}'..='\u{e01ef}'), NSM),
+    (chars!('\u{e01f0}'..='\u{e0fff}'), BN),
     (chars!('\u{f0000}'..='\u{ffffd}'), L),
     (chars!('\u{100000}'..='\u{10fffd}'), L),
 ])
-- 
2.43.0


From 02eaaf0af11695b4e0ad99de97f0c13fc412e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 07/30] fix: deserializing a bidi Level accepted out-of-range
 numbers

---
 unic/bidi/src/level.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/level.rs b/unic/bidi/src/level.rs
index b62e14e..cc6ced9 100644
--- a/unic/bidi/src/level.rs
+++ b/unic/bidi/src/level.rs
@@ -31,9 +31,25 @@ use unic_ucd_bidi::BidiClass;
 ///
 /// <https://www.unicode.org/reports/tr9/#BD2>
 #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 pub struct Level(u8);
 
+#[cfg(feature = "serde")]
+impl<'de> ::serde::Deserialize<'de> for Level {
+    fn deserialize<D>(deserializer: D) -> Result<Level, D::Error>
+    where
+        D: ::serde::Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(rename = "Level")]
+        struct Number(u8);
+
+        let number = Number::deserialize(deserializer)?.0;
+        Level::new(number)
+            .map_err(|_| ::serde::de::Error::custom("embedding level number out of range"))
+    }
+}
+
 /// LTR level with smallest number value (0).
 pub const LTR_LEVEL: Level = Level(0);
 
-- 
2.43.0


From 5828104dad7808c210b60c8391663b99f87d2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 08/30] fix: Punycode encoding panicked on delta overflow in
 debug builds

---
 unic/idna/punycode/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..380ad64 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -195,10 +195,7 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = delta.checked_add(1)?; // Overflow
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
-- 
2.43.0


From 96ebed5bd09317044655b59c9725f177f4735309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 09/30] fix: Punycode decoding accepted non-basic code points
 before the delimiter

---
 unic/idna/punycode/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 380ad64..45abea7 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -73,7 +73,7 @@ pub fn decode_to_string(input: &str) -> Option<String> {
 pub fn decode(input: &str) -> Option<Vec<char>> {
     // Handle "basic" (ASCII) code points.
     // They are encoded as-is before the last delimiter, if any.
-    let (mut output, input) = match input.rfind(DELIMITER) {
+    let (mut output, input): (Vec<char>, &str) = match input.rfind(DELIMITER) {
         None => (Vec::new(), input),
         Some(position) => (
             input[..position].chars().collect(),
@@ -84,6 +84,9 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
             },
         ),
     };
+    if !output.iter().all(|c| c.is_ascii()) {
+        return None; // Non-basic code point before the delimiter
+    }
     let mut code_point = INITIAL_N;
     let mut bias = INITIAL_BIAS;
     let mut i = 0;
-- 
2.43.0


From 878ada1de790169ab68430034106264dc9bc21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 10/30] fix: whether a domain is a Bidi domain is decided after
 mapping

---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..709638d 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From 9bbf00db800d280194feca63cf58ccfb1993eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 11/30] fix: to_unicode dropped labels that fail to decode

---
 unic/idna/src/process.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 709638d..e301ffc 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -265,7 +265,11 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                     validate(&decoded_label, is_bidi_domain, flags, errors);
                     validated.push_str(&decoded_label)
                 }
-                None => errors.push(Error::PunycodeError),
+                None => {
+                    errors.push(Error::PunycodeError);
+                    // Leave the label as it is
+                    validated.push_str(label)
+                }
             }
         } else {
             validate(label, is_bidi_domain, flags, errors);
-- 
2.43.0


From d20b2bc6f2eca463fdcdc28e898d7c72dec3e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 12/30] fix: abbreviated name of Sentence_Break=Extend is EX

---
 unic/ucd/segment/src/sentence_break.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/segment/src/sentence_break.rs b/unic/ucd/segment/src/sentence_break.rs
index 8f1ffc2..5b622c8 100644
--- a/unic/ucd/segment/src/sentence_break.rs
+++ b/unic/ucd/segment/src/sentence_break.rs
@@ -57,7 +57,7 @@ char_property! {
         /// General_Category = Spacing_Mark
         /// ```
         Extend {
-            abbr => Extend,
+            abbr => EX,
             long => Extend,
             human => "Extend",
         }
-- 
2.43.0


From 3bde0fc5bf983bf1e8fdc76b9b5a44440fa3b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 13/30] fix: word segmentation lost its state after ZWJ +
 Glue_After_Zwj (WB3c)

---
 unic/segment/src/word.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..5958ede 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -229,15 +229,20 @@ impl<'a> Iterator for WordBounds<'a> {
             // state enum; the state enum represents the last non-zwj state encountered.
             // When prev_zwj is true, for the purposes of WB3c, we are in the Zwj state,
             // however we are in the previous state for the purposes of all other rules.
-            if prev_zwj {
-                match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
-                        state = Emoji;
-                        continue;
-                    }
-                    _ => (),
+            if prev_zwj && (cat == WB::GlueAfterZwj || cat == WB::EBaseGAZ) {
+                match state {
+                    // what was required cannot follow any more (rewind below)
+                    FormatExtend(RequireLetter)
+                    | FormatExtend(RequireHLetter)
+                    | FormatExtend(RequireNumeric) => break,
+                    _ => {}
                 }
+                state = if cat == WB::EBaseGAZ {
+                    Emoji
+                } else {
+                    FormatExtend(AcceptNone)
+                };
+                continue;
             }
             // Don't use `continue` in this match without updating `cat`
             state = match state {
-- 
2.43.0


From a819248a4bc695e9423d2a2259b617f849691bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 14/30] fix: word segmentation joined any number of emoji
 modifiers (WB14)

---
 unic/segment/src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 5958ede..d9352a9 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -358,7 +358,7 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => FormatExtend(AcceptNone),
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From d11325b90885eb61e299e6f06b8cb34058df6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 15/30] fix: reverse word segmentation joined ZWJ with a
 following Emoji_Base

---
 unic/segment/src/word.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index d9352a9..b284036 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -585,7 +585,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBaseGAZ => Zwj, // rule WB3c
+                    WB::EBase => break,  // rule WB999
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From acfe72e4adfd730e3a34635b2b7bfe2a52c3310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 16/30] fix: grapheme cursor panicked on, or misjudged,
 provided pre-context

---
 unic/segment/src/grapheme.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..33f45b6 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -452,17 +452,21 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
+        if self.cat_before.is_none() {
+            // The context ends at the cursor. Usually the pair around the cursor is enough.
             let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
-                self.decide(false); // GB9b
-                return;
+            let cat_before = GCB::of(ch);
+            self.cat_before = Some(cat_before);
+            match (&self.state, cat_before) {
+                (GraphemeState::Regional, GCB::RegionalIndicator) => (),
+                (GraphemeState::Emoji, GCB::Extend) => (),
+                _ => self.state = GraphemeState::Unknown,
             }
         }
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            _ => (), // `is_boundary` decides
         }
     }
 
@@ -581,17 +585,14 @@ impl GraphemeCursor {
             let ch = chunk[offset_in_chunk..].chars().next().unwrap();
             self.cat_after = Some(GCB::of(ch));
         }
-        if self.offset == chunk_start {
-            let mut need_pre_context = true;
+        if self.offset == chunk_start && self.cat_before.is_none() {
             match self.cat_after.unwrap() {
                 GCB::RegionalIndicator => self.state = GraphemeState::Regional,
                 GCB::EModifier => self.state = GraphemeState::Emoji,
-                _ => need_pre_context = self.cat_before.is_none(),
-            }
-            if need_pre_context {
-                self.pre_context_offset = Some(chunk_start);
-                return Err(GraphemeIncomplete::PreContext(chunk_start));
+                _ => (),
             }
+            self.pre_context_offset = Some(chunk_start);
+            return Err(GraphemeIncomplete::PreContext(chunk_start));
         }
         if self.cat_before.is_none() {
             let ch = chunk[..offset_in_chunk].chars().rev().next().unwrap();
@@ -608,10 +609,12 @@ impl GraphemeCursor {
                 if let Some(ris_count) = self.ris_count {
                     return self.decision((ris_count % 2) == 0);
                 }
+                self.state = GraphemeState::Regional;
                 self.handle_regional(&chunk[..offset_in_chunk], chunk_start);
                 self.is_boundary_result()
             }
             PairResult::Emoji => {
+                self.state = GraphemeState::Emoji;
                 self.handle_emoji(&chunk[..offset_in_chunk], chunk_start);
                 self.is_boundary_result()
             }
-- 
2.43.0


From e39734a88a1ae2f29b01fa8ca0e007c8fff84796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 17/30] fix: set_cursor kept the unfinished request of the
 previous location

---
 unic/segment/src/grapheme.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 33f45b6..7eb3611 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -394,7 +394,7 @@ impl GraphemeCursor {
     /// assert_eq!(cursor.cur_cursor(), 2);
     /// ```
     pub fn set_cursor(&mut self, offset: usize) {
-        if offset != self.offset {
+        if offset != self.offset || self.resuming {
             self.offset = offset;
             self.state = if offset == 0 || offset == self.len {
                 GraphemeState::Break
@@ -405,6 +405,9 @@ impl GraphemeCursor {
             self.cat_before = None;
             self.cat_after = None;
             self.ris_count = None;
+            // forget what was asked for at the previous location
+            self.pre_context_offset = None;
+            self.resuming = false;
         }
     }
 
-- 
2.43.0


From 72a6e3c570270a42fbd090260b2f0106f3c7d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 18/30] fix: prev_boundary at the start of a chunk panicked or
 failed with InvalidOffset

---
 unic/segment/src/grapheme.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 7eb3611..957165c 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -743,6 +743,9 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if self.offset == chunk_start {
+            return Err(GraphemeIncomplete::PrevChunk);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
         let mut ch = iter.next().unwrap();
         loop {
@@ -770,6 +773,7 @@ impl GraphemeCursor {
                     self.decide(true);
                 } else {
                     self.resuming = true;
+                    self.cat_after = Some(GCB::of(ch));
                     return Err(GraphemeIncomplete::PrevChunk);
                 }
             }
-- 
2.43.0


From 155be361084f569dbf0812e1978ff50b1e196e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 19/30] fix: isolate initiators followed by removed characters
 did not continue at their PDI

---
 unic/bidi/src/prepare.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/prepare.rs b/unic/bidi/src/prepare.rs
index e75ac19..e066914 100644
--- a/unic/bidi/src/prepare.rs
+++ b/unic/bidi/src/prepare.rs
@@ -62,7 +62,7 @@ pub fn isolating_run_sequences(
         assert!(!stack.is_empty());
 
         let start_class = original_classes[run.start];
-        let end_class = original_classes[run.end - 1];
+        let end_class = last_not_removed_class(&original_classes[run.clone()]);
 
         let mut sequence = if start_class == PDI && stack.len() > 1 {
             // Continue a previous sequence interrupted by an isolate.
@@ -115,7 +115,8 @@ pub fn isolating_run_sequences(
             };
 
             // Get the level of the next non-removed char after the runs.
-            let succ_level = if matches!(original_classes[end_of_seq - 1], RLI | LRI | FSI) {
+            let end_class = last_not_removed_class(&original_classes[..end_of_seq]);
+            let succ_level = if matches!(end_class, RLI | LRI | FSI) {
                 para_level
             } else {
                 match original_classes[end_of_seq..]
@@ -162,6 +163,12 @@ fn level_runs(levels: &[Level], original_classes: &[BidiClass]) -> Vec<LevelRun>
     runs
 }
 
+/// The class of the last character that is not removed by X9, if there is any.
+fn last_not_removed_class(classes: &[BidiClass]) -> BidiClass {
+    let last = classes.iter().rev().cloned().find(not_removed_by_x9);
+    last.unwrap_or(BN)
+}
+
 /// Should this character be ignored in steps after X9?
 ///
 /// <https://www.unicode.org/reports/tr9/#X9>
-- 
2.43.0


From d01e60ed212b3fd75581f26f8a557580c100363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 20/30] fix: removed characters hid the class before a run of
 neutrals (N1)

---
 unic/bidi/src/implicit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 0627f16..463376a 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -148,6 +148,10 @@ pub fn resolve_neutral(
     let mut prev_class = sequence.sos;
 
     while let Some(mut i) = indices.next() {
+        if removed_by_x9(processing_classes[i]) {
+            continue;
+        }
+
         // N0. Process bracket pairs.
         // TODO
 
-- 
2.43.0


From d2dd4b2442d0b7cc87cc1361cd13c6665ec9fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 21/30] fix: apply the bidi rules W1-W7 one after another, by
 character

---
 unic/bidi/src/bidi_info.rs |   2 +-
 unic/bidi/src/implicit.rs  | 175 ++++++++++++++++---------------------
 2 files changed, 77 insertions(+), 100 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..9d195c6 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -203,7 +203,7 @@ impl<'text> BidiInfo<'text> {
 
             let sequences = prepare::isolating_run_sequences(para.level, original_classes, levels);
             for sequence in &sequences {
-                implicit::resolve_weak(sequence, processing_classes);
+                implicit::resolve_weak(text, sequence, processing_classes);
                 implicit::resolve_neutral(sequence, levels, processing_classes);
             }
             implicit::resolve_levels(processing_classes, levels);
diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 463376a..9a37df4 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -17,120 +17,97 @@ use unic_ucd_bidi::bidi_class::abbr_names::*;
 use unic_ucd_bidi::BidiClass;
 
 use super::level::Level;
-use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence, LevelRun};
+use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence};
 
 /// 3.3.4 Resolving Weak Types
 ///
 /// <https://www.unicode.org/reports/tr9/#Resolving_Weak_Types>
-pub fn resolve_weak(sequence: &IsolatingRunSequence, processing_classes: &mut [BidiClass]) {
-    // FIXME (#8): This function applies steps W1-W6 in a single pass.  This can produce
-    // incorrect results in cases where a "later" rule changes the value of `prev_class` seen
-    // by an "earlier" rule.  We should either split this into separate passes, or preserve
-    // extra state so each rule can see the correct previous class.
-
-    // FIXME: Also, this could be the cause of increased failure for using longer-UTF-8 chars in
-    // conformance tests, like BidiTest:69635 (AL ET EN)
+pub fn resolve_weak(
+    text: &str,
+    sequence: &IsolatingRunSequence,
+    processing_classes: &mut [BidiClass],
+) {
+    // The rules are about characters: take only the first byte of each one, and leave out those
+    // removed by X9.
+    let indices: Vec<usize> = sequence
+        .runs
+        .iter()
+        .flat_map(Clone::clone)
+        .filter(|&i| text.is_char_boundary(i) && not_removed_by_x9(&processing_classes[i]))
+        .collect();
+    let mut classes: Vec<BidiClass> = indices.iter().map(|&i| processing_classes[i]).collect();
 
+    // <https://www.unicode.org/reports/tr9/#W1>
     let mut prev_class = sequence.sos;
-    let mut last_strong_is_al = false;
-    let mut et_run_indices = Vec::new(); // for W5
+    for class in &mut classes {
+        if *class == NSM {
+            *class = match prev_class {
+                RLI | LRI | FSI | PDI => ON,
+                _ => prev_class,
+            };
+        }
+        prev_class = *class;
+    }
 
-    // Like sequence.runs.iter().flat_map(Clone::clone), but make indices itself clonable.
-    fn id(x: LevelRun) -> LevelRun {
-        x
+    // <https://www.unicode.org/reports/tr9/#W2>
+    let mut last_strong = sequence.sos;
+    for class in &mut classes {
+        match *class {
+            L | R | AL => last_strong = *class,
+            EN if last_strong == AL => *class = AN,
+            _ => {}
+        }
     }
-    let mut indices = sequence
-        .runs
-        .iter()
-        .cloned()
-        .flat_map(id as fn(LevelRun) -> LevelRun);
-
-    while let Some(i) = indices.next() {
-        match processing_classes[i] {
-            // https://www.unicode.org/reports/tr9/#W1
-            NSM => {
-                processing_classes[i] = match prev_class {
-                    RLI | LRI | FSI | PDI => ON,
-                    _ => prev_class,
-                };
-            }
-            EN => {
-                if last_strong_is_al {
-                    // W2. If previous strong char was AL, change EN to AN.
-                    processing_classes[i] = AN;
-                } else {
-                    // W5. If a run of ETs is adjacent to an EN, change the ETs to EN.
-                    for j in &et_run_indices {
-                        processing_classes[*j] = EN;
-                    }
-                    et_run_indices.clear();
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W3>
-            AL => processing_classes[i] = R,
-
-            // <https://www.unicode.org/reports/tr9/#W4>
-            ES | CS => {
-                let next_class = indices
-                    .clone()
-                    .map(|j| processing_classes[j])
-                    .find(not_removed_by_x9)
-                    .unwrap_or(sequence.eos);
-                processing_classes[i] = match (prev_class, processing_classes[i], next_class) {
-                    (EN, ES, EN) | (EN, CS, EN) => EN,
-                    (AN, CS, AN) => AN,
-                    (_, _, _) => ON,
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W5>
-            ET => {
-                match prev_class {
-                    EN => processing_classes[i] = EN,
-                    _ => et_run_indices.push(i), // In case this is followed by an EN.
-                }
-            }
-            class => {
-                if removed_by_x9(class) {
-                    continue;
-                }
+
+    // <https://www.unicode.org/reports/tr9/#W3>
+    for class in classes.iter_mut().filter(|class| **class == AL) {
+        *class = R;
+    }
+
+    // <https://www.unicode.org/reports/tr9/#W4>
+    for i in 2..classes.len() {
+        classes[i - 1] = match (classes[i - 2], classes[i - 1], classes[i]) {
+            (EN, ES, EN) | (EN, CS, EN) => EN,
+            (AN, CS, AN) => AN,
+            (_, class, _) => class,
+        };
+    }
+
+    // <https://www.unicode.org/reports/tr9/#W5>
+    let mut start = 0;
+    while start < classes.len() {
+        let len = classes[start..].iter().take_while(|c| **c == ET).count();
+        let end = start + len;
+        let after_en = start > 0 && classes[start - 1] == EN;
+        if after_en || classes.get(end) == Some(&EN) {
+            for class in &mut classes[start..end] {
+                *class = EN;
             }
         }
+        start = end + 1;
+    }
 
-        prev_class = processing_classes[i];
-        match prev_class {
-            L | R => {
-                last_strong_is_al = false;
-            }
-            AL => {
-                last_strong_is_al = true;
-            }
-            _ => {}
+    // <https://www.unicode.org/reports/tr9/#W6>
+    for class in &mut classes {
+        if matches!(*class, ES | ET | CS) {
+            *class = ON;
         }
-        if prev_class != ET {
-            // W6. If we didn't find an adjacent EN, turn any ETs into ON instead.
-            for j in &et_run_indices {
-                processing_classes[*j] = ON;
-            }
-            et_run_indices.clear();
+    }
+
+    // <https://www.unicode.org/reports/tr9/#W7>
+    let mut last_strong = sequence.sos;
+    for class in &mut classes {
+        match *class {
+            L | R => last_strong = *class,
+            EN if last_strong == L => *class = L,
+            _ => {}
         }
     }
 
-    // W7. If the previous strong char was L, change EN to L.
-    let mut last_strong_is_l = sequence.sos == L;
-    for run in &sequence.runs {
-        for i in run.clone() {
-            match processing_classes[i] {
-                EN if last_strong_is_l => {
-                    processing_classes[i] = L;
-                }
-                L => {
-                    last_strong_is_l = true;
-                }
-                R | AL => {
-                    last_strong_is_l = false;
-                }
-                _ => {}
-            }
+    for (&i, &class) in indices.iter().zip(&classes) {
+        let len = text[i..].chars().next().map_or(0, char::len_utf8);
+        for processing_class in &mut processing_classes[i..i + len] {
+            *processing_class = class;
         }
     }
 }
-- 
2.43.0


From 2b85f3570edeaa9c2b3a62261337e114a5546e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 22/30] fix: rule L1 looked at the start of the text instead of
 the line

---
 unic/bidi/src/bidi_info.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 9d195c6..9af6e4e 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -295,7 +295,7 @@ impl<'text> BidiInfo<'text> {
         let mut reset_from: Option<usize> = Some(0);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
-            match self.original_classes[i] {
+            match self.original_classes[line.start + i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
                 // Segment separator, Paragraph separator
@@ -318,7 +318,7 @@ impl<'text> BidiInfo<'text> {
             }
             if let (Some(from), Some(to)) = (reset_from, reset_to) {
                 for j in from..to {
-                    levels[j] = para.level;
+                    levels[line.start + j] = para.level;
                 }
                 reset_from = None;
                 reset_to = None;
@@ -326,7 +326,7 @@ impl<'text> BidiInfo<'text> {
         }
         if let Some(from) = reset_from {
             for j in from..line_str.len() {
-                levels[j] = para.level;
+                levels[line.start + j] = para.level;
             }
         }
 
-- 
2.43.0


From b8607200846e79623e6c7a09c246c73054a57eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 23/30] fix: rule L2 ignored the levels reset by L1

---
 unic/bidi/src/bidi_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 9af6e4e..6e9293c 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -363,7 +363,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -371,7 +371,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From 98d982997c5443c392cf46052a547b01d187da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 24/30] fix: visual_runs panicked on an empty line at the end
 of the text

---
 unic/bidi/src/bidi_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 6e9293c..e64fb10 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -332,6 +332,9 @@ impl<'text> BidiInfo<'text> {
 
         // Find consecutive level runs.
         let mut runs = Vec::new();
+        if line.start == line.end {
+            return (levels, runs);
+        }
         let mut start = line.start;
         let mut level = levels[start];
         let mut min_level = level;
-- 
2.43.0


From e1e270cfba92fd75ad3a40ba42dc20b52a4b7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 25/30] fix: visual_runs panicked on a line entirely at the
 maximum level

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index e64fb10..9afad9d 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -360,7 +360,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // All runs are at the (even) maximum level: nothing to reverse.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From 46eae33bbb75de07e29cb24cfb44b096fc9ff807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 26/30] fix: unic-inspector crashed on every input

prettytable-rs 0.6.7 turns a Table into a TableSlice by transmuting the
reference, which relies on a memory layout that current compilers do not
use. Print the rows directly instead.
---
 apps/cli/src/bin/unic-inspector.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/apps/cli/src/bin/unic-inspector.rs b/apps/cli/src/bin/unic-inspector.rs
index a75eb58..14666ad 100644
--- a/apps/cli/src/bin/unic-inspector.rs
+++ b/apps/cli/src/bin/unic-inspector.rs
@@ -14,9 +14,11 @@ extern crate clap;
 #[macro_use]
 extern crate prettytable;
 
+use std::io;
+
 use clap::Arg;
 use prettytable::format::TableFormat;
-use prettytable::Table;
+use prettytable::row::Row;
 
 use unic::char::property::EnumeratedCharProperty;
 use unic::ucd::{name_aliases_of, GeneralCategory, Name, NameAliasType};
@@ -43,11 +45,10 @@ fn main() {
         .join(" ");
 
     // == Write output ==
-    let mut table = Table::new();
+    let mut rows: Vec<Row> = Vec::new();
     let mut table_format = TableFormat::new();
     table_format.padding(1, 1);
     table_format.column_separator('|');
-    table.set_format(table_format);
 
     /* TODO: Enable with option
     table.set_titles(row![
@@ -66,7 +67,7 @@ fn main() {
             }
         });
 
-        table.add_row(row![
+        rows.push(row![
             cb  -> &format!("{}", chr),
             rFr -> &format!("U+{:04X}", chr as u32),
             l   -> &display_name,
@@ -74,5 +75,13 @@ fn main() {
         ]);
     });
 
-    table.printstd();
+    // `prettytable::Table` of this version prints itself through a reinterpreting cast that is
+    // undefined behavior, and crashes, with current Rust compilers. `Row` is not affected.
+    let column_width = |column| rows.iter().map(|row| row.get_cell_width(column)).max();
+    let column_widths: Vec<usize> = (0..4).filter_map(column_width).collect();
+
+    let mut output = io::stdout();
+    rows.iter()
+        .try_for_each(|row| row.print(&mut output, &table_format, &column_widths))
+        .expect("IO Error");
 }
-- 
2.43.0


From bdde0564980eb0ecf81a56e164e68b1631ea949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 27/30] fix: unic-gen dropped property lines of six-digit
 ranges

PropList.txt writes them without a blank before the semicolon
(10FFFE..10FFFF; Noncharacter_Code_Point); the expression for binary
properties demanded one, so such a line was skipped without a word.
---
 gen/src/source/ucd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/src/source/ucd/mod.rs b/gen/src/source/ucd/mod.rs
index e130e88..860906e 100644
--- a/gen/src/source/ucd/mod.rs
+++ b/gen/src/source/ucd/mod.rs
@@ -30,7 +30,7 @@ lazy_static! {
         r"(?xm)^
           ([[:xdigit:]]{4,6})        # low
           (?:..([[:xdigit:]]{4,6}))? # high
-          \s+;\s+
+          [[:blank:]]*;[[:blank:]]*  # separator (no blank after a range of six-digit code points)
           (\w+)                      # property
          ",
     )
-- 
2.43.0


From e2385c09e4eeb7489f107e46aacf80fa73522ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 28/30] fix: Decompositions reads ahead without bound when a
 decomposition ends in another starter

When the decomposition of a character was a starter, marks and a starter again (U+3340,
U+FBF6), the marks were taken to be incomplete although the following starter was already
buffered, and one more character was read for each of them. The buffer, which is sorted as a
whole, grew with the text: NFKD and NFKC took quadratic time, and needed unbounded memory on
a stream.
---
 unic/normal/src/decompose.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unic/normal/src/decompose.rs b/unic/normal/src/decompose.rs
index 2516c91..380c6d3 100644
--- a/unic/normal/src/decompose.rs
+++ b/unic/normal/src/decompose.rs
@@ -85,7 +85,14 @@ impl<I: Iterator<Item = char>> Iterator for Decompositions<I> {
                 self.buffer.pop_front();
                 return Some(c);
             }
-            _ => self.sorted = false,
+            _ => {
+                // The reordered characters at the front are complete, without reading any further,
+                // if a not reordered one follows them in the buffer.
+                self.sorted = self.buffer.iter().any(|&(_, ccc)| ccc.is_not_reordered());
+                if self.sorted {
+                    canonical_sort(&mut self.buffer);
+                }
+            }
         }
 
         if !self.sorted {
-- 
2.43.0


From dafe0fdcc2f894f271ecd1a2542116871e1e1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 29/30] fix: canonical ordering takes quadratic time on long
 runs of combining marks

A run of marks is sorted with a stable sort instead of exchanging neighbours: a few tens of
thousands of marks, in a domain name say, kept to_ascii busy for minutes.
---
 unic/normal/src/decompose.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/unic/normal/src/decompose.rs b/unic/normal/src/decompose.rs
index 380c6d3..2be2cd1 100644
--- a/unic/normal/src/decompose.rs
+++ b/unic/normal/src/decompose.rs
@@ -16,21 +16,20 @@ use unic_ucd_normal::{decompose_canonical, decompose_compatible, CanonicalCombin
 
 // Helper functions used for Unicode normalization
 fn canonical_sort(comb: &mut VecDeque<(char, CanonicalCombiningClass)>) {
-    let len = comb.len();
-    for i in 0..len {
-        let mut swapped = false;
-        for j in 1..len - i {
-            let class_a = comb[j - 1].1;
-            let class_b = comb[j].1;
-            if class_a.is_reordered() && class_b.is_reordered() && class_a > class_b {
-                comb.swap(j - 1, j);
-                swapped = true;
-            }
-        }
-        if !swapped {
-            break;
-        }
+    let is_sorted = comb
+        .iter()
+        .zip(comb.iter().skip(1))
+        .all(|(&(_, class_a), &(_, class_b))| class_b.is_not_reordered() || class_a <= class_b);
+    if is_sorted {
+        return;
     }
+
+    // Sort every run of reordered characters, keeping those of the same class in order.
+    let mut sorted: Vec<_> = comb.drain(..).collect();
+    sorted
+        .split_mut(|&(_, class)| class.is_not_reordered())
+        .for_each(|run| run.sort_by_key(|&(_, class)| class));
+    comb.extend(sorted);
 }
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 007bb49cd68efa90fd9ae3785ca621adc31056af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:49 +0000
Subject: [PATCH 30/30] fix: grapheme cursor panics on a chunk that does not
 contain the cursor instead of returning InvalidOffset

---
 unic/segment/src/grapheme.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 957165c..c5eb834 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -575,8 +575,9 @@ impl GraphemeCursor {
         if self.state == GraphemeState::NotBreak {
             return Ok(false);
         }
-        if (self.offset < chunk_start || self.offset >= chunk_start + chunk.len())
-            && (self.offset > chunk_start + chunk.len() || self.cat_after.is_none())
+        if self.offset < chunk_start
+            || self.offset > chunk_start + chunk.len()
+            || (self.offset == chunk_start + chunk.len() && self.cat_after.is_none())
         {
             return Err(GraphemeIncomplete::InvalidOffset);
         }
@@ -664,8 +665,14 @@ impl GraphemeCursor {
         if self.offset == self.len {
             return Ok(None);
         }
+        if self.offset < chunk_start || self.offset > chunk_start + chunk.len() {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[self.offset - chunk_start..].chars();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::NextChunk),
+        };
         loop {
             if self.resuming {
                 if self.cat_after.is_none() {
@@ -746,6 +753,9 @@ impl GraphemeCursor {
         if self.offset == chunk_start {
             return Err(GraphemeIncomplete::PrevChunk);
         }
+        if self.offset < chunk_start || self.offset > chunk_start + chunk.len() {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
         let mut ch = iter.next().unwrap();
         loop {
-- 
2.43.0

