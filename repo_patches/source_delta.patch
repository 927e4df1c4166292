From 57fd9f1974769b0038dd1bcecfbd235ccde4e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 01/11] fix: keep the trimmed end of a span on a character
 boundary

A span whose last non-whitespace character is multi-byte was trimmed to
one byte past the start of that character, i.e. into the middle of it.
---
 src/trim.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..cede0a8 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,9 +3,11 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
-        None => end,
+    let trimmed = content[start..end].trim_end();
+    if trimmed.is_empty() {
+        end
+    } else {
+        start + trimmed.len()
     }
 }
 
-- 
2.43.0


From 446be5961a39b39c83d2c2ac1d50b2f1ac0ca35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 02/11] fix: reject a non-ASCII currency rather than panic

Currency::try_from counted bytes but consumed characters, so a multi-byte
candidate (reachable from the operating_currency option, for example)
ran off the end and panicked.
---
 src/types.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 59919e0..0af6fcf 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1689,14 +1689,15 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         if s.is_empty() {
             Err(CurrencyError(Empty))
         } else {
+            let n_chars = s.chars().count();
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
+            let intermediate: Vec<char> = if n_chars > 2 {
+                chars.by_ref().take(n_chars - 2).collect()
             } else {
                 empty::<char>().collect()
             };
-            let last = if s.len() > 1 {
+            let last = if n_chars > 1 {
                 chars.next().unwrap()
             } else {
                 first
-- 
2.43.0


From c575e28cd8a7e05dbf8176ffab2c0ae37672972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 03/11] fix: byte offsets of appended synthetic content

The char indices of a fragment appended to an existing synthetic source
were offset by the character count of that source, not its byte length,
so rune offsets were wrong once the source held a multi-byte character.
---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..7081d2a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,12 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From 37dc52c66b4fa7216464b36dd1c72057e7d75545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:55 +0000
Subject: [PATCH 04/11] fix: report a date or time with non-ASCII digits rather
 than panic

Logos matches any Unicode digit for \d, but integer parsing accepts only
ASCII digits, so lexing such a date or time panicked.
---
 src/lexer.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..f79c493 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -669,24 +669,29 @@ trait EolIndentHandlerIteratorAdaptor<'a>: Iterator<Item = RangedToken<'a>> + Si
 
 impl<'a, I: Iterator<Item = RangedToken<'a>>> EolIndentHandlerIteratorAdaptor<'a> for I {}
 
+// the digits in a date or time may be any Unicode digits as far as Logos is concerned, but only ASCII digits will parse
+fn parse_digits<T: FromStr>(s: &str) -> Result<T, LexerError> {
+    s.parse::<T>().or(Err(LexerError::new("invalid digit")))
+}
+
 fn parse_date(s: &str) -> Result<Date, LexerError> {
     let mut date = s.split(&['-', '/']);
-    let year = date.by_ref().next().unwrap().parse::<i32>().unwrap();
-    let month = date.by_ref().next().unwrap().parse::<u8>().unwrap();
+    let year = parse_digits::<i32>(date.by_ref().next().unwrap())?;
+    let month = parse_digits::<u8>(date.by_ref().next().unwrap())?;
     let month = Month::try_from(month).or(Err(LexerError::new("month out of range")))?;
-    let day = date.by_ref().next().unwrap().parse::<u8>().unwrap();
+    let day = parse_digits::<u8>(date.by_ref().next().unwrap())?;
     Date::from_calendar_date(year, month, day).or(Err(LexerError::new("date out of range")))
 }
 
 fn parse_time(s: &str) -> Result<Time, LexerError> {
     let mut time = s.split(':');
-    let hour = time.by_ref().next().unwrap().parse::<u8>().unwrap();
-    let min = time.by_ref().next().unwrap().parse::<u8>().unwrap();
+    let hour = parse_digits::<u8>(time.by_ref().next().unwrap())?;
+    let min = parse_digits::<u8>(time.by_ref().next().unwrap())?;
     let sec = time
         .by_ref()
         .next()
-        .map(|s| s.parse::<u8>().unwrap())
-        .unwrap_or(0);
+        .map(parse_digits::<u8>)
+        .unwrap_or(Ok(0))?;
 
     Time::from_hms(hour, min, sec).or(Err(LexerError::new("time out of range")))
 }
-- 
2.43.0


From a14fffdee447d4497f5f083b1686c70a1aaa29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:39 +0000
Subject: [PATCH 05/11] fix: report arithmetic overflow and division by zero as
 a parse error

Evaluating an amount such as 1/0, or one which overflows the decimal
range, panicked inside the parser.
---
 src/parsers.rs |  5 ++++-
 src/types.rs   | 42 ++++++++++++++++++++++++++----------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..ba68efb 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,10 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().try_map(|expr, span| {
+        ExprValue::checked_from(expr)
+            .ok_or_else(|| Rich::custom(span, "overflow or division by zero"))
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 0af6fcf..9a0d063 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2228,10 +2228,19 @@ impl PartialEq<Decimal> for ExprValue {
 
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// Panics on overflow or division by zero.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
+        ExprValue::checked_from(expr).expect("overflow or division by zero")
+    }
+}
+
+impl ExprValue {
+    /// Evaluate the `Expr` rounding to the max scale it contains, or `None` on overflow or division by zero.
+    pub(crate) fn checked_from(expr: Expr) -> Option<Self> {
+        let (mut value, scale) = expr.evaluate()?;
         value.rescale(scale);
-        Self { value, expr }
+        Some(Self { value, expr })
     }
 }
 
@@ -2261,31 +2270,32 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
+    // evaluates to `None` on overflow or division by zero
+    fn evaluate(&self) -> Option<(Decimal, u32)> {
+        fn evaluate_unary<F>(op: F, e1: &Expr) -> Option<(Decimal, u32)>
         where
             F: Fn(Decimal) -> Decimal,
         {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
+            let (d1, s1) = e1.evaluate()?;
+            Some((op(d1), s1))
         }
 
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Option<(Decimal, u32)>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            Some((op(d1, d2)?, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
+            Value(d) => Some((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
             Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
             Paren(e) => e.evaluate(),
         }
-- 
2.43.0


From b9ce7fd3baf9ad8d3797a6cf5b9746959bb366ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:35 +0000
Subject: [PATCH 06/11] fix: force the final end-of-line whenever the last line
 lacks one

The flag recording that the previous token was an end-of-line was never
cleared, so the promised final Eol was missing for any input of more than
one line.
---
 src/lexer.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index f79c493..abed178 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -649,9 +649,7 @@ where
                 } else {
                     item
                 };
-                if item.0 == Token::Eol {
-                    self.previous_was_eol = true;
-                }
+                self.previous_was_eol = item.0 == Token::Eol;
 
                 self.any = true;
                 Some(item)
-- 
2.43.0


From d806d90e67dc8799d7f0281a1a89f1832bedc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:11 +0000
Subject: [PATCH 07/11] fix: ignore a final line starting with a colon which
 lacks a newline

---
 src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index abed178..6e6d493 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -501,7 +501,8 @@ impl<'a, I: Iterator<Item = RangedToken<'a>>> KeywordThenColonToKeyIteratorAdapt
 /// 2. Fold consecutive Eol tokens into a single one
 /// 3. Drop any initial Eol
 /// 4. Optionally, force a final Eol (unless input was empty)
-/// 5. Drop tokens for indent followed by colon (Logos deficiency precludes using Logos regexes for this)
+/// 5. Drop tokens for indent followed by colon (Logos deficiency precludes using Logos regexes for this),
+///    and for a final line starting with a colon but lacking a newline (which Logos doesn't ignore)
 struct EolIndentHandler<'a, I> {
     iter: I,
     first_tok: Option<RangedToken<'a>>,
@@ -579,7 +580,7 @@ where
                     second_tok = self.iter.next();
                 }
                 (Some(first), Some(second))
-                    if first.0 == Token::EolThenIndent && second.0 == Token::Colon =>
+                    if first.0.is_eol() && second.0 == Token::Colon =>
                 {
                     first_tok = self.skip_to_end_of_line();
                     second_tok = self.get_second_tok_if_required(&first_tok);
-- 
2.43.0


From 16e8553c09ee4d6ef13ca1ae75223f4401b3e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 08/11] fix: blanks at the end of input are not an indent

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 6e6d493..47bb500 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -592,6 +592,8 @@ where
         }
 
         match first_tok {
+            // blanks at the end of input are not an indent
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0


From 8c1dda51278115054ede2e37de328f45f48f8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:39 +0000
Subject: [PATCH 09/11] fix: find an included file by whichever path it is
 first included

---
 src/sources.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 7081d2a..cbf037f 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Label};
 use glob::{self, glob_with};
 use lazy_format::lazy_format;
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{HashMap, VecDeque},
     ffi::OsStr,
     fmt::{self, Formatter},
     fs::File,
@@ -70,13 +70,13 @@ impl BeancountSources {
         let mut included_globs = HashMap::new();
         let mut included_content: HashMap<PathBuf, IncludedSource> = HashMap::new();
 
-        // for duplicate detection
-        let mut canonical_paths =
-            if let Some(canonical_root) = root_path.as_ref().and_then(|p| p.canonicalize().ok()) {
-                HashSet::from([canonical_root])
-            } else {
-                HashSet::default()
-            };
+        // for duplicate detection, the path by which each file was first found
+        let mut canonical_paths = HashMap::new();
+        if let Some(root_path) = root_path.as_ref() {
+            if let Ok(canonical_root) = root_path.canonicalize() {
+                canonical_paths.insert(canonical_root, root_path.clone());
+            }
+        }
 
         while !pending_includes.is_empty() {
             let included = pending_includes.pop_front().unwrap();
@@ -105,16 +105,27 @@ impl BeancountSources {
                                 included_content.insert(path, IncludedSource::Error(e.to_string()));
                             }
                             Ok(globbed_include) => {
-                                glob_expansions.push(globbed_include.clone());
-
-                                if let Ok(canonical_path) = globbed_include.canonicalize() {
-                                    if canonical_paths.contains(&canonical_path) {
+                                let canonical_path = globbed_include.canonicalize();
+
+                                // whatever the path, the content is found by the first one
+                                glob_expansions.push(
+                                    canonical_path
+                                        .as_ref()
+                                        .ok()
+                                        .and_then(|p| canonical_paths.get(p))
+                                        .unwrap_or(&globbed_include)
+                                        .clone(),
+                                );
+
+                                if let Ok(canonical_path) = canonical_path {
+                                    if canonical_paths.contains_key(&canonical_path) {
                                         // don't overwrite existing content
                                         included_content
                                             .entry(globbed_include)
                                             .or_insert(IncludedSource::Duplicate);
                                     } else {
-                                        canonical_paths.insert(canonical_path);
+                                        canonical_paths
+                                            .insert(canonical_path, globbed_include.clone());
 
                                         let source_id = SourceId::from(source_id_strings.len());
                                         source_id_strings
-- 
2.43.0


From 45386929810ae6db40666fdca2bda83f1b588cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:39 +0000
Subject: [PATCH 10/11] fix: compare pushed metadata by value when a file is
 included again

---
 src/lib.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..3c968cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -358,6 +358,22 @@ fn fmt_include_context<'s>(
     format!("{} {}", tags_s, meta_s)
 }
 
+// whether the same values are pushed in the same order, regardless of where
+fn same_meta_key_values<'s>(
+    a: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+    b: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+) -> bool {
+    fn values<'a, 's>(
+        v: &'a [(Span, Spanned<MetaValue<'s>>)],
+    ) -> impl Iterator<Item = &'a Spanned<MetaValue<'s>>> {
+        v.iter().map(|(_, value)| value)
+    }
+
+    a.len() == b.len()
+        && a.iter()
+            .all(|(k, v)| b.get(k).is_some_and(|w| values(v).eq(values(w))))
+}
+
 impl<'s> PragmaProcessor<'s> {
     fn new(
         root_path: Option<&Path>,
@@ -606,9 +622,11 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                                                                 .get(&canonical_path)
                                                             {
                                                                 if include_context.tags == self.tags
-                                                                    && include_context
-                                                                        .meta_key_values
-                                                                        == self.meta_key_values
+                                                                    && same_meta_key_values(
+                                                                        &include_context
+                                                                            .meta_key_values,
+                                                                        &self.meta_key_values,
+                                                                    )
                                                                 {
                                                                     // include context is identical, so the include is harmless
                                                                     // and we ignore it
-- 
2.43.0


From 0fc89fabcae42df4b0ab4360028a62be84034f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:58 +0000
Subject: [PATCH 11/11] fix: an included path is relative to a directory with
 glob characters in its name

---
 src/sources.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index cbf037f..165bfc6 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -597,13 +597,15 @@ impl<'a> SyntheticSources<'a> {
     }
 }
 
-// get included path relative to including path
+// get included path relative to including path, as a glob pattern in which the directory matches only itself
 pub(crate) fn resolve_included_path(
     including_path: Option<&PathBuf>,
     included_path: &Path,
 ) -> PathBuf {
     match including_path.and_then(|p| path_dir(p.as_ref())) {
-        Some(p) => p.join(included_path),
+        Some(p) => {
+            PathBuf::from(glob::Pattern::escape(&p.to_string_lossy())).join(included_path)
+        }
         None => included_path.to_path_buf(),
     }
 }
-- 
2.43.0

