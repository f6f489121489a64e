From d172a44c8ebbafbc00bcfa0356ed3e86d7a1246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 01/12] fix: don't underflow when checking overlap with an
 empty span at location 0

---
 src/span.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..aa17d6f 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -308,17 +308,8 @@ impl Span {
 	/// ```
 	#[must_use]
 	pub fn overlaps_with(self, other: Self) -> bool {
-		fn non_commutative_empty_check(left: Span, right: Span) -> bool {
-			left.is_empty() && (right.end == left.start || right.start == left.start)
-		}
-		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
-		}
-
-		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-			return false;
-		}
-		non_commutative_helper(self, other) || non_commutative_helper(other, self)
+		// for an empty span this asks for a location strictly inside of the other one.
+		self.start < other.end && other.start < self.end
 	}
 }
 
-- 
2.43.0


From c0f3cbc72ce8a0e63cb265b068b41f2605d14743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 02/12] fix: don't count a chunk that may be empty in
 Decomposer::size_hint

---
 src/decompose/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..eee8bd2 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -140,11 +140,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
+		// the chunks that are left may all be empty, so only the words that are already decomposed are certain.
+		let lower = self.current_chunk.as_slice().len();
 		(lower, None)
 	}
 }
-- 
2.43.0


From d0a08a8e82295c01c3566ee51592baf69eebfea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 03/12] fix: ignore commas at the end of a chunk while
 decomposing it

---
 src/decompose/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index eee8bd2..bfc92a0 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -64,6 +64,9 @@ fn post_word(input: &str) -> bool {
 fn decompose_single(input: &str) -> Vec<Span> {
 	let to_span = |slice| Span::from_embedded_slice(input.as_ptr(), slice);
 
+	// commas can't change anything, and the ones at the end of the chunk don't belong to any word.
+	let input = input.trim_end_matches(',');
+
 	if simple_cmevla_check(input) {
 		return vec![to_span(input)];
 	}
-- 
2.43.0


From d6f03edecae100cbdd260b5b480de9d8b4418322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 04/12] fix: recognize cmavo that are longer than 16 letters

---
 src/lex/selmaho/classify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..1c5a951 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		let mut direct_cmavo_check_buf = [0u8; CUHUHU_ETC.len()]; // the longest cmavo of all
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
@@ -475,6 +475,9 @@ impl Selmaho {
 				"la'oi" | "ra'oi" | "zo'oi" => Self::Zohoi,
 				_ => Self::classify_generally(word),
 			}
+		} else if word.chars().all(|ch| matches!(ch, 'y' | ',')) {
+			// hesitation can go on for longer than any buffer
+			Self::Y
 		} else {
 			Self::classify_generally(word)
 		};
-- 
2.43.0


From dd084fdce9221b42e00281973b9df5aba3d91802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 05/12] fix: remove a stray space from the cmavo vi'ei'e

---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 1c5a951..3d255e1 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -251,7 +251,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From cfebcdd47779c22c1f2268a068e6bf27131721c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 06/12] fix: recognize cmavo written with capital letters for
 stress

---
 src/lex/selmaho/classify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3d255e1..1ca2447 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -9,7 +9,8 @@ fn transform_for_direct_cmavo_check<'a>(word: &str, buf: &'a mut [u8]) -> Option
 		.filter(|&ch| ch != b',')
 		.map(|ch| match ch {
 			b'h' => b'\'',
-			other => other,
+			// capital letters only mark stress
+			other => other.to_ascii_lowercase(),
 		})
 		.enumerate()
 	{
@@ -475,7 +476,7 @@ impl Selmaho {
 				"la'oi" | "ra'oi" | "zo'oi" => Self::Zohoi,
 				_ => Self::classify_generally(word),
 			}
-		} else if word.chars().all(|ch| matches!(ch, 'y' | ',')) {
+		} else if word.chars().all(|ch| matches!(ch, 'y' | 'Y' | ',')) {
 			// hesitation can go on for longer than any buffer
 			Self::Y
 		} else {
-- 
2.43.0


From c01c710946030d70cc25d735b07a006ce629c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 07/12] fix: parse an empty zoi quote without swallowing the
 token after it

---
 src/parse/cst/rules/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..ecccfba 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -6,7 +6,6 @@ use bumpalo::Bump as Arena;
 use macros::{Parse, TreeNode};
 
 use crate::lex::{Selmaho, Token};
-use crate::span::Span;
 
 pub mod connectives;
 mod helpers;
@@ -870,13 +869,15 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	/// `None` if the quote is empty
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
 #[derive(Debug, Parse)]
 #[repr(transparent)]
-pub struct ZoiDelimiter(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::ZoiDelimiter")]
+pub struct ZoiDelimiter(Token);
 
 impl TreeNode for ZoiDelimiter {
 	fn name(&self) -> &'static str {
@@ -888,18 +889,19 @@ impl TreeNode for ZoiDelimiter {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
 #[derive(Debug, Parse)]
-pub struct ZoiText(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::AnyText")]
+pub struct ZoiText(Token);
 
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
@@ -911,11 +913,11 @@ impl TreeNode for ZoiText {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
-- 
2.43.0


From a47f94356f30738ccb86fd226468243d0e2acab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 08/12] fix: report the token that didn't match as the location
 of a parse error

---
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 116fdf0..7d3235a 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -17,12 +17,12 @@ pub(in crate::parse::cst::rules) trait SelmahoTypeRaw:
 pub(in crate::parse::cst::rules) fn selmaho_raw<T: SelmahoTypeRaw>(
 	input: &[Token],
 ) -> ParseResult<'_, T> {
-	let mut input = input.iter();
-	T::try_from(input.next().copied())
-		.map(|matched| (input.as_slice(), matched))
+	let mut rest = input.iter();
+	T::try_from(rest.next().copied())
+		.map(|matched| (rest.as_slice(), matched))
 		.map_err(|error| {
 			nom::Err::Error(WithLocation {
-				location: input.as_slice(),
+				location: input,
 				error,
 			})
 		})
-- 
2.43.0


From c7ebc715411487c7ebf6de86e970abffc36243c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 09/12] fix: skip repeated pauses before the text of a
 pause-delimited quote

---
 src/lex/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lex/mod.rs b/src/lex/mod.rs
index 3447a90..b7b1720 100644
--- a/src/lex/mod.rs
+++ b/src/lex/mod.rs
@@ -273,11 +273,16 @@ impl Lexer<'_> {
 	}
 
 	fn next_pause_delimited_quote(&mut self, initiator_span: Span) -> Option<Result<Token>> {
-		let quoted_text_span = if let Some(word) = self.words.next_no_decomposition() {
-			word
-		} else {
-			self.state = State::Done;
-			return Some(Err(Error::PauseDelimitedQuoteEof { initiator_span }));
+		let quoted_text_span = loop {
+			match self.words.next_no_decomposition() {
+				// several pauses in a row are the same as a single one
+				Some(word) if word.slice(self.input).unwrap().bytes().all(|ch| ch == b',') => continue,
+				Some(word) => break word,
+				None => {
+					self.state = State::Done;
+					return Some(Err(Error::PauseDelimitedQuoteEof { initiator_span }));
+				}
+			}
 		};
 		self.state = State::Normal;
 		Some(Ok(Token {
-- 
2.43.0


From d0c8a2dde81172bd07b6107634ec0c8432c55234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 10/12] fix: don't take exponential time on a long run of y

---
 src/rules.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rules.rs b/src/rules.rs
index 3a16a55..46f7310 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -303,7 +303,8 @@ fn test_diphthong() {
 
 #[debug_rule]
 pub fn nucleus(input: &str) -> ParseResult<'_> {
-	or![vowel, diphthong, |input| y(input).and_not(nucleus)](input)
+	// `vowel` already includes `y`. trying it again would take exponential time on a long hesitation.
+	or![vowel, diphthong](input)
 }
 
 fn glide(input: &str) -> ParseResult<'_> {
-- 
2.43.0


From 628bb16f2a2cda7136f7da67e102c43c68436caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 11/12] fix: recognize the official BAI cmavo ja'i and po'i

---
 src/lex/selmaho/classify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 1ca2447..bc6a103 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -74,9 +74,9 @@ impl Selmaho {
 				"e'u'a" | "i'a'a" => experimental!(Self::A),
 				"ba'i" | "bai" | "bau" | "be'i" | "ca'i" | "cau" | "ci'e" | "ci'o" | "ci'u" | "cu'u"
 				| "de'i" | "di'o" | "do'e" | "du'i" | "du'o" | "fa'e" | "fi'e" | "ga'a" | "gau"
-				| "ja'e" | "ji'e" | "ji'o" | "ji'u" | "ka'a" | "ka'i" | "kai" | "ki'i" | "ki'u" | "koi"
+				| "ja'e" | "ja'i" | "ji'e" | "ji'o" | "ji'u" | "ka'a" | "ka'i" | "kai" | "ki'i" | "ki'u" | "koi"
 				| "ku'u" | "la'u" | "le'a" | "li'e" | "ma'e" | "ma'i" | "mau" | "me'a" | "me'e"
-				| "mu'i" | "mu'u" | "ni'i" | "pa'a" | "pa'u" | "pi'o" | "pu'a" | "pu'e" | "ra'a"
+				| "mu'i" | "mu'u" | "ni'i" | "pa'a" | "pa'u" | "pi'o" | "po'i" | "pu'a" | "pu'e" | "ra'a"
 				| "ra'i" | "rai" | "ri'a" | "ri'i" | "sau" | "si'u" | "ta'i" | "tai" | "ti'i" | "ti'u"
 				| "tu'i" | "va'o" | "va'u" | "zau" | "zu'e" => Self::Bai,
 				"be'ei" | "da'ai'a" | "de'i'a" | "de'i'e" | "de'i'i" | "de'i'o" | "de'i'u" | "fi'ei"
-- 
2.43.0


From c3cd6a091c15a36480e04b485ea2c4178da8cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 12/12] fix: allow leaving out ke'e after a group of operators

---
 src/parse/cst/rules/mekso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/cst/rules/mekso.rs b/src/parse/cst/rules/mekso.rs
index 5610c43..3cb777b 100644
--- a/src/parse/cst/rules/mekso.rs
+++ b/src/parse/cst/rules/mekso.rs
@@ -151,7 +151,7 @@ pub enum Operator3<'arena> {
 	Grouped(
 		WithFree<'arena, Ke<'arena>>,
 		Operator<'arena>,
-		Kehe<'arena>,
+		Option<Kehe<'arena>>,
 		Frees<'arena>,
 	),
 }
-- 
2.43.0

