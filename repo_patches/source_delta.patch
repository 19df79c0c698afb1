From f3cf3350e475d69e10d6d138e3af9ca3939019fc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 01/52] fix: is_ascii_digit_non_zero must only accept digits

---
 parser/src/core/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/element.rs b/parser/src/core/element.rs
index dfe138d..fdc547f 100644
--- a/parser/src/core/element.rs
+++ b/parser/src/core/element.rs
@@ -85,7 +85,7 @@ impl Element for u8 {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -155,7 +155,7 @@ impl Element for char {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
-- 
2.43.0


From 7c8c8d8ae776a0e6677b0a4e973f1088efcab65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 02/52] fix: regex must stay anchored across alternatives and
 count consumed chars, not bytes

---
 .../src/internal/parsers_impl/elements_parsers_impl.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..6247276 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -81,11 +81,8 @@ impl ElementsParsers for ParsersImpl {
   }
 
   fn regex<'a>(pattern: &str) -> Self::P<'a, char, String> {
-    let pattern = if !pattern.starts_with("^") {
-      format!("^{}", pattern)
-    } else {
-      pattern.to_string()
-    };
+    // Group the pattern so that the anchor applies to every alternative.
+    let pattern = format!("^(?:{})", pattern);
     let regex = Regex::new(&pattern).unwrap();
     Parser::new(move |parse_state| {
       let input: &[char] = parse_state.input();
@@ -94,7 +91,8 @@ impl ElementsParsers for ParsersImpl {
       if let Some(captures) = regex.captures(&str).as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          // The consumed length is counted in elements (chars), not in UTF-8 bytes.
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From 4f92c4aad1cad12566252da6c47487f5e69c84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 03/52] fix: ParseError::input must not slice out of range

---
 parser/src/core/parse_error.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..dc83913 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -91,10 +91,15 @@ impl<'a, I> ParseError<'a, I> {
       ParseError::Incomplete => None,
       ParseError::Mismatch {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
-      ParseError::Conversion {
+      }
+      | ParseError::Conversion {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => {
+        // The offset is relative to the whole input, so it may lie beyond the remaining slice.
+        let start = (*offset).min(input.len());
+        let end = offset.saturating_add(*length).min(input.len());
+        Some(&input[start..end])
+      }
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
-- 
2.43.0


From 3a476371a5e291c3fe96c9fefede37a647598ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 04/52] fix: cache must be keyed on the parsed input and
 position and allow re-entrancy

---
 .../parsers_impl/cache_parsers_impl.rs        | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..f1fe19a 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,6 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -14,23 +13,19 @@ impl CacheParsers for ParsersImpl {
   where
     I: Clone + 'a,
     A: Clone + Debug + 'a, {
-    // FnvHashMapを使用してキャッシュを作成（キーは単純な文字列ではなくタプル）
+    // FnvHashMapを使用してキャッシュを作成（キーは残り入力の位置・長さと現在のオフセット）
     let caches = RefCell::new(FnvHashMap::<(usize, usize, usize), ParseResult<'a, I, A>>::default());
     let method = parser.method.clone();
     Parser::new(move |parser_state| {
-      // キーをタプルとして生成（文字列変換なし）
-      let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
-      );
+      let input = parser_state.input();
+      let key = (input.as_ptr() as usize, input.len(), parser_state.current_offset());
 
-      // キャッシュから結果を取得または計算
-      let parse_result = caches
-        .borrow_mut()
-        .entry(key)
-        .or_insert_with(|| method(parser_state))
-        .clone();
+      // キャッシュから結果を取得または計算（計算中は再入できるように借用を保持しない）
+      if let Some(cached) = caches.borrow().get(&key) {
+        return cached.clone();
+      }
+      let parse_result = method(parser_state);
+      caches.borrow_mut().insert(key, parse_result.clone());
 
       parse_result
     })
-- 
2.43.0


From 5a8d7e4e331c1c24324ff3bee735ec97941d11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 05/52] fix: chain_right1 and rest_right1 must fold to the
 right

---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..d37a3ad 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x))
   }
 
   #[inline]
@@ -107,7 +107,9 @@ impl OperatorParsers for ParsersImpl {
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        Self::map(Self::chain_right1(p.clone(), op.clone()), move |y| {
+          f(default_value.clone(), y)
+        })
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From 090645a896f515dcc4a32a2c40be880bdaa143d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 06/52] fix: a repeat bounded by zero must not take an item

---
 .../src/internal/parsers_impl/repeat_parsers_impl.rs   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..c337f94 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,7 +74,15 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      // 上限が0の場合は要素を一つも解析しない
+      let is_none_allowed = match range.end() {
+        Bound::Included(&max_count) => max_count == 0,
+        Bound::Excluded(&max_count) => max_count <= 1,
+        _ => false,
+      };
+      if is_none_allowed {
+        // do nothing
+      } else if let ParseResult::Success { value, length } = (method)(parse_state) {
         let mut current_parse_state = parse_state.advance_by(length);
         items.push(value);
         all_length += length;
-- 
2.43.0


From 374e79c4098e0ab700eddaff3728df4e10235146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 07/52] fix: an unbounded repeat must stop when an item
 consumes nothing

---
 .../src/internal/parsers_impl/repeat_parsers_impl.rs  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index c337f94..a217024 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -101,6 +101,7 @@ impl RepeatParsers for ParsersImpl {
             _ => (),
           }
 
+          let last_length = all_length;
           if let Some(sep) = &separator_clone {
             if let ParseResult::Success { length, .. } = (sep.method)(&current_parse_state) {
               current_parse_state = current_parse_state.advance_by(length);
@@ -110,6 +111,16 @@ impl RepeatParsers for ParsersImpl {
             }
           }
           if let ParseResult::Success { value, length } = (method)(&current_parse_state) {
+            // 上限がない場合、入力を消費しない繰り返しは無限に続くので打ち切る
+            if matches!(range.end(), Bound::Unbounded) && all_length + length == last_length {
+              let is_min_reached = match range.start() {
+                Bound::Included(&min_count) => items.len() >= min_count,
+                _ => true,
+              };
+              if is_min_reached {
+                break;
+              }
+            }
             current_parse_state = current_parse_state.advance_by(length);
             items.push(value);
             all_length += length;
-- 
2.43.0


From 1300866f1578fb970cee273150311ca9a94b5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 08/52] fix: take_while must stop where the run of matching
 elements ends

---
 .../src/internal/parsers_impl/taken_parsers_impl.rs  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..4dbd134 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,11 +33,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::successful(parse_state.slice_with_len(0), 0),
       }
     })
@@ -59,11 +61,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -92,7 +98,7 @@ impl TakenParsers for ParsersImpl {
         Some(s) => {
           let str = &input[s..s + len];
           if n <= str.len() && str.len() <= m {
-            ParseResult::successful(str, len)
+            ParseResult::successful(str, s + len)
           } else {
             ParseResult::failed_with_uncommitted(ParseError::of_in_complete())
           }
-- 
2.43.0


From 5d650c9826dbb5aa83692009274bc473ee5e1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 09/52] fix: take_while_n_m(0, m) must accept an empty run

---
 parser/src/internal/parsers_impl/taken_parsers_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 4dbd134..fc4382b 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -103,6 +103,7 @@ impl TakenParsers for ParsersImpl {
             ParseResult::failed_with_uncommitted(ParseError::of_in_complete())
           }
         }
+        None if n == 0 => ParseResult::successful(parse_state.slice_with_len(0), 0),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
-- 
2.43.0


From 72c3af975e7539aac4f9e56b511c166bc2019641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 10/52] fix: evaluate the day-of-week field against the weekday

---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..3f4ba39 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.date().weekday().number_from_sunday() as u8, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From c2a1df1007750f082e505f93ad32e043d98e3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 11/52] fix: a bounded cron interval must not yield past its
 end

---
 crond/src/cron_interval_iterator.rs | 31 +++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..2c3e2e5 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -34,21 +34,11 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
   fn next(&mut self) -> Option<Self::Item> {
     self.curr = self.next.clone();
     self.next = self.next.clone() + Duration::minutes(1);
-    match self.end_value() {
-      None => {
-        self.proceed_next();
-        let curr: DateTime<Tz> = self.curr.clone();
-        Some(curr)
-      }
-      Some(end) => {
-        if end >= self.curr {
-          self.proceed_next();
-          let curr: DateTime<Tz> = self.curr.clone();
-          Some(curr)
-        } else {
-          None
-        }
-      }
+    let end = self.end_value();
+    if self.proceed_next(end.as_ref()) {
+      Some(self.curr.clone())
+    } else {
+      None
     }
   }
 }
@@ -76,8 +66,15 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
     }
   }
 
-  fn proceed_next(&mut self) {
-    while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+  /// Proceeds to the next satisfying date and time. Returns false when there is none up to the end.
+  fn proceed_next(&mut self, end: Option<&DateTime<Tz>>) -> bool {
+    loop {
+      if end.map_or(false, |end| *end < self.curr) {
+        return false;
+      }
+      if self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+        return true;
+      }
       self.curr = self.next.clone();
       self.next = self.next.clone() + Duration::minutes(1);
     }
-- 
2.43.0


From 7845654eb813aeed321c8e2e9d2a157a2e970967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 12/52] fix: a cron list must not accept a trailing comma

---
 crond/src/cron_parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crond/src/cron_parser.rs b/crond/src/cron_parser.rs
index a024b7e..702aac9 100644
--- a/crond/src/cron_parser.rs
+++ b/crond/src/cron_parser.rs
@@ -86,10 +86,15 @@ fn range_per(p: Parser<char, CronExpr>) -> Parser<char, CronExpr> {
 }
 
 fn list(p: Parser<char, CronExpr>) -> Parser<char, CronExpr> {
-  p.of_many1_sep(elm(','))
-    .map(|e| match e {
-      e if e.len() == 1 => e.get(0).unwrap().clone(),
-      e => ListExpr(e),
+  (p.clone() + (elm(',') * p).of_many0())
+    .map(|(head, tail)| {
+      if tail.is_empty() {
+        head
+      } else {
+        let mut list = vec![head];
+        list.extend(tail);
+        ListExpr(list)
+      }
     })
     .attempt()
 }
-- 
2.43.0


From 4791df10d9d00562308f356ddc4fe5995228a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 13/52] fix: a step of zero must be rejected instead of
 panicking on evaluation

---
 crond/src/cron_evaluator.rs |  4 ++--
 crond/src/cron_parser.rs    | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 3f4ba39..08f07c7 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -51,7 +51,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         per_option,
       } => match per_option {
         box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,
-        box CronExpr::ValueExpr(per) => (*start as usize..=*end as usize)
+        box CronExpr::ValueExpr(per) if *per > 0 => (*start as usize..=*end as usize)
           .step_by(*per as usize)
           .into_iter()
           .any(|e| e == env.now as usize),
@@ -60,7 +60,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } => (0usize..=(env.max as usize))
+      } if *per > 0 => (0usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
diff --git a/crond/src/cron_parser.rs b/crond/src/cron_parser.rs
index 702aac9..e1860b5 100644
--- a/crond/src/cron_parser.rs
+++ b/crond/src/cron_parser.rs
@@ -111,9 +111,18 @@ macro_rules! range {
   };
 }
 
+fn has_zero_step(expr: &CronExpr) -> bool {
+  match expr {
+    PerExpr { option, .. } => **option == ValueExpr(0),
+    RangeExpr { per_option, .. } => **per_option == ValueExpr(0),
+    ListExpr(list) => list.iter().any(has_zero_step),
+    _ => false,
+  }
+}
+
 macro_rules! digit_instruction {
   ( $x:expr ) => {
-    list(range!($x) | $x) | asterisk_per($x) | asterisk()
+    (list(range!($x) | $x) | asterisk_per($x) | asterisk()).with_filter_not(has_zero_step)
   };
 }
 
-- 
2.43.0


From 598cd47bf8b504e5b30f6a6f1d1cb0450ea60e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 14/52] fix: Uri::parse must reject text that continues after
 the URI

---
 uri/src/models/uri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/models/uri.rs b/uri/src/models/uri.rs
index 6c82be6..a2ad508 100644
--- a/uri/src/models/uri.rs
+++ b/uri/src/models/uri.rs
@@ -6,7 +6,7 @@ use crate::models::query::Query;
 use crate::models::scheme::Scheme;
 use crate::models::user_info::UserInfo;
 use crate::parsers::uri_parsers;
-use oni_comb_parser_rs::prelude::{ParseError, ParserRunner};
+use oni_comb_parser_rs::prelude::{end, ParseError, ParserRunner};
 use std::fmt::Formatter;
 
 pub type Fragment = String;
@@ -66,7 +66,7 @@ impl std::fmt::Display for Uri {
 
 impl Uri {
   pub fn parse(text: &str) -> Result<Uri, ParseError<u8>> {
-    uri_parsers::uri().parse(text.as_bytes()).to_result()
+    (uri_parsers::uri() - end()).parse(text.as_bytes()).to_result()
   }
 
   pub fn new(
-- 
2.43.0


From 104820c0cbfc14f347c4bcdfd5b2f41c2afbc4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 15/52] fix: an IPv6 address may have seven groups before a
 trailing ::

---
 uri/src/parsers/ip_v6_address_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/ip_v6_address_parsers.rs b/uri/src/parsers/ip_v6_address_parsers.rs
index 3863da6..9249596 100644
--- a/uri/src/parsers/ip_v6_address_parsers.rs
+++ b/uri/src/parsers/ip_v6_address_parsers.rs
@@ -130,7 +130,7 @@ fn ip_v6_address8<'a>() -> Parser<'a, u8, Ipv6Addr> {
 
 //                / [ *6( h16 ":" ) h16 ] "::"
 fn ip_v6_address9<'a>() -> Parser<'a, u8, Ipv6Addr> {
-  (ip_v6_address_p1(5) + seq(b"::"))
+  (ip_v6_address_p1(6) + seq(b"::"))
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 8bdde2bee1bf7c8b1b1cc0ea8102c4e3e0053a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 16/52] fix: a host that starts like an IPv4 address but
 continues is a registered name

---
 uri/src/parsers/host_parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f54984f..31ab507 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -7,7 +7,9 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 
 // host          = IP-literal / IPv4address / reg-name
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
-  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address().map(HostName::Ipv4Address).attempt() | reg_name())
+  // an IPv4address followed by further reg-name characters is the beginning of a reg-name
+  let ip_v4 = ip_v4_address() - (unreserved() | pct_encoded() | sub_delims()).not();
+  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4.map(HostName::Ipv4Address).attempt() | reg_name())
     .name("host")
 }
 
-- 
2.43.0


From ffdd16f932cb61fdd3672d3468aed616b0499fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 17/52] fix: an authority may have an empty host

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 31ab507..2f6f2e5 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -35,7 +35,7 @@ pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
   (unreserved().attempt() | pct_encoded().attempt() | sub_delims())
-    .of_many1()
+    .of_many0()
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From f5a46f25441a4fa3ca47e5af95580854f670ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 18/52] fix: an authority may have an empty port

---
 uri/src/parsers/authority_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/authority_parsers.rs b/uri/src/parsers/authority_parsers.rs
index cd635fd..0b8aa24 100644
--- a/uri/src/parsers/authority_parsers.rs
+++ b/uri/src/parsers/authority_parsers.rs
@@ -7,8 +7,8 @@ use crate::parsers::user_info_parsers::user_info;
 use oni_comb_parser_rs::prelude::*;
 
 pub fn authority<'a>() -> Parser<'a, u8, Authority> {
-  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port()).opt())
-    .map(|((user_info, host_name), port)| Authority::new(host_name, port, user_info))
+  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port().opt()).opt())
+    .map(|((user_info, host_name), port)| Authority::new(host_name, port.flatten(), user_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 907ffe3afba5d5fad0a069545af6897a613fecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 19/52] fix: a password may be empty or contain colons

---
 uri/src/parsers/user_info_parsers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/user_info_parsers.rs b/uri/src/parsers/user_info_parsers.rs
index f28bd89..7dcaad4 100644
--- a/uri/src/parsers/user_info_parsers.rs
+++ b/uri/src/parsers/user_info_parsers.rs
@@ -5,8 +5,9 @@ use oni_comb_parser_rs::prelude::*;
 //  userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
 pub fn user_info<'a>() -> Parser<'a, u8, UserInfo> {
   let p = || (unreserved().attempt() | pct_encoded().attempt() | sub_delims());
+  let password = (p() | elm_ref(b':').collect()).of_many0().collect();
   (p().of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)
-    + (elm(b':') * p().of_many1().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
+    + (elm(b':') * password.map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
   .map(|(user_name, password)| UserInfo::new(user_name, password))
   .name("user_info")
 }
-- 
2.43.0


From 0c0625db19defbfc1a077000a259b62d1059af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 20/52] fix: a query value may contain =

---
 uri/src/parsers/query_parsers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uri/src/parsers/query_parsers.rs b/uri/src/parsers/query_parsers.rs
index 0dc80fd..d3f78e3 100644
--- a/uri/src/parsers/query_parsers.rs
+++ b/uri/src/parsers/query_parsers.rs
@@ -4,14 +4,14 @@ use oni_comb_parser_rs::prelude::*;
 
 //  query         = *( pchar / "/" / "?" )
 pub fn query<'a>() -> Parser<'a, u8, Query> {
-  let code_point = || {
-    (pchar_without_eq_amp() | elm_of(b"/?").collect())
+  let code_point = |others: &'static [u8]| {
+    (pchar_without_eq_amp() | elm_of(others).collect())
       .of_many0()
       .collect()
       .map(|e| e.to_vec())
       .map_res(String::from_utf8)
   };
-  let key_values = || (code_point() + (elm(b'=') * code_point()).opt());
+  let key_values = || (code_point(b"/?") + (elm(b'=') * code_point(b"/?=")).opt());
   (key_values() + (elm(b'&') * key_values()).of_many0()).map(|(a, b)| {
     let mut m = vec![a];
     m.extend(b);
-- 
2.43.0


From ca18726a4f256999c378690aecf5214574616cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 21/52] fix: a URI without a scheme must be rejected

---
 uri/src/parsers/uri_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/uri_parsers.rs b/uri/src/parsers/uri_parsers.rs
index f4ceb14..96cd6e2 100644
--- a/uri/src/parsers/uri_parsers.rs
+++ b/uri/src/parsers/uri_parsers.rs
@@ -7,12 +7,12 @@ use oni_comb_parser_rs::prelude::*;
 
 //  absolute-URI  = scheme ":" hier-part [ "?" query ]
 pub fn absolute_uri<'a>() -> Parser<'a, u8, Uri> {
-  ((scheme().opt() - elm(b':')) + hier_part() + (elm(b'?') * query()).opt()).map(|((a, b), c)| Uri::new(a, b, c, None))
+  ((scheme().map(Some) - elm(b':')) + hier_part() + (elm(b'?') * query()).opt()).map(|((a, b), c)| Uri::new(a, b, c, None))
 }
 
 // URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
 pub fn uri<'a>() -> Parser<'a, u8, Uri> {
-  ((scheme().opt() - elm(b':')) + hier_part() + (elm(b'?') * query()).opt() + (elm(b'#') * fragment()).opt())
+  ((scheme().map(Some) - elm(b':')) + hier_part() + (elm(b'?') * query()).opt() + (elm(b'#') * fragment()).opt())
     .map(|(((schema, hier_path), query), fragment)| Uri::new(schema, hier_path, query, fragment))
 }
 
-- 
2.43.0


From cecb47189c9f156d58c39227cdce1c5d6cc02934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 22/52] fix: the version flag of an IPvFuture literal is
 case-insensitive

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 2f6f2e5..84854b6 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -22,7 +22,7 @@ pub fn ip_literal<'a>() -> Parser<'a, u8, IpLiteral> {
 
 // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
 pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
-  (elm_ref(b'v')
+  (elm_ref_of(b"vV")
     + elm_hex_digit().of_many1()
     + elm(b'.')
     + (unreserved() | sub_delims() | elm_ref(b':').collect()).of_many1())
-- 
2.43.0


From c0514c3add888cda5d868a66d1356d1f45f3e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 23/52] fix: any run of HOCON comments and white space may
 separate tokens

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..0bdd079 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -15,7 +15,7 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  (comment().attempt().of_many0() + space()).discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From dd6db7168eee0eb8543c38bc0343abfba4134b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 24/52] fix: HOCON path elements may contain digits

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 0bdd079..83e9197 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -227,7 +227,7 @@ fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
 }
 
 fn path_element<'a>() -> Parser<'a, u8, &'a [u8]> {
-  (elm_alpha() | elm_of(b"-_")).of_many1().collect()
+  (elm_alpha_digit() | elm_of(b"-_")).of_many1().collect()
 }
 
 fn path<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 537056c5104b3d999835e2bcd44edd851f2a6524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 25/52] fix: HOCON numbers keep their sign and may have an
 exponent

---
 hocon/src/parsers.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 83e9197..9d91c88 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -1,4 +1,5 @@
 use crate::model::*;
+use rust_decimal::Decimal;
 use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
@@ -75,21 +76,21 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
+  number().map_res(|(s, i, f, e)| {
+    let mut text = String::new();
+    if s.is_some() {
+      text.push('-');
     }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
-      s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
+    text.push_str(&i);
+    text.push_str(&f.unwrap_or_default());
+    match e {
+      None => Decimal::from_str_radix(&text, 10),
+      Some(e) => {
+        text.push_str(&e);
+        Decimal::from_scientific(&text)
+      }
     }
-    _ => panic!("no match !!!"),
+    .map(ConfigNumberValue::from)
   })
 }
 
-- 
2.43.0


From eabbcb874fa9119b895a2cc886f2a975fcc9d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 26/52] fix: HOCON duration units may be written out and must
 end the word

---
 hocon/src/parsers.rs | 53 ++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 9d91c88..48be544 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -39,36 +39,35 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), space_or_comment())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  (space_or_comment() * number).map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
-  let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
-    | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
-  .map(|_| TimeUnit::Nanoseconds);
-  let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
-    | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
-  .map(|_| TimeUnit::Microseconds);
-  let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
-    | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
-  .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
-
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  fn unit<'a>(name: &'static str, unit: TimeUnit) -> Parser<'a, u8, TimeUnit> {
+    let word_end = (elm_alpha_digit() | elm_of(b"-_")).not();
+    (seq(name.as_bytes()) - word_end).attempt().map(move |_| unit.clone())
+  }
+  let ns = unit("ns", TimeUnit::Nanoseconds)
+    | unit("nanoseconds", TimeUnit::Nanoseconds)
+    | unit("nanosecond", TimeUnit::Nanoseconds)
+    | unit("nanos", TimeUnit::Nanoseconds)
+    | unit("nano", TimeUnit::Nanoseconds);
+  let us = unit("us", TimeUnit::Microseconds)
+    | unit("microseconds", TimeUnit::Microseconds)
+    | unit("microsecond", TimeUnit::Microseconds)
+    | unit("micros", TimeUnit::Microseconds)
+    | unit("micro", TimeUnit::Microseconds);
+  let ms = unit("ms", TimeUnit::Milliseconds)
+    | unit("milliseconds", TimeUnit::Milliseconds)
+    | unit("millisecond", TimeUnit::Milliseconds)
+    | unit("millis", TimeUnit::Milliseconds)
+    | unit("milli", TimeUnit::Milliseconds);
+  let s = unit("s", TimeUnit::Seconds) | unit("seconds", TimeUnit::Seconds) | unit("second", TimeUnit::Seconds);
+  let m = unit("m", TimeUnit::Minutes) | unit("minutes", TimeUnit::Minutes) | unit("minute", TimeUnit::Minutes);
+  let h = unit("h", TimeUnit::Hours) | unit("hours", TimeUnit::Hours) | unit("hour", TimeUnit::Hours);
+  let d = unit("d", TimeUnit::Days) | unit("days", TimeUnit::Days) | unit("day", TimeUnit::Days);
+
+  (number_value() - elm_ref_of(b" \t").of_many0()) + (ns | us | ms | s | m | h | d)
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From c7f398191433e6b1967d50e8d536f233ffa7515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 27/52] fix: HOCON durations convert exactly and report
 overflow instead of panicking

---
 hocon/src/model/config_duration_value.rs | 50 +++++++++++++-----------
 hocon/src/model/config_value.rs          |  4 +-
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..b9eb1a9 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -5,6 +5,8 @@ use std::time::Duration;
 
 use anyhow::{bail, Result};
 
+const NANOS_PER_SEC: i128 = 1_000_000_000;
+
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
   value: ConfigNumberValue,
@@ -37,34 +39,38 @@ impl ConfigDurationValue {
   }
 
   pub fn to_std_duration(&self) -> Result<Duration> {
-    let value = match self.clone().value.to_u64() {
-      Some(v) => v,
-      None => bail!("Occurred convert error: {:?}", self.value),
-    };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
-      TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
-      TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
-      TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
+    let nanos = self.to_nanos()?;
+    let (secs, nanos) = (nanos.div_euclid(NANOS_PER_SEC), nanos.rem_euclid(NANOS_PER_SEC));
+    match u64::try_from(secs) {
+      Ok(secs) => Ok(Duration::new(secs, nanos as u32)),
+      Err(_) => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 
   pub fn to_duration(&self) -> Result<chrono::Duration> {
-    let value = match self.clone().value.to_i64() {
-      Some(v) => v,
+    let nanos = self.to_nanos()?;
+    let (secs, nanos) = (nanos.div_euclid(NANOS_PER_SEC), nanos.rem_euclid(NANOS_PER_SEC));
+    match i64::try_from(secs).ok().and_then(|secs| chrono::Duration::new(secs, nanos as u32)) {
+      Some(d) => Ok(d),
       None => bail!("Occurred convert error: {:?}", self.value),
+    }
+  }
+
+  /// The length in nanoseconds, without the part smaller than a nanosecond.
+  fn to_nanos(&self) -> Result<i128> {
+    let unit: i64 = match self.unit {
+      TimeUnit::Nanoseconds => 1,
+      TimeUnit::Microseconds => 1_000,
+      TimeUnit::Milliseconds => 1_000_000,
+      TimeUnit::Seconds => 1_000_000_000,
+      TimeUnit::Minutes => 60_000_000_000,
+      TimeUnit::Hours => 3_600_000_000_000,
+      TimeUnit::Days => 86_400_000_000_000,
     };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
-      TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
+    let nanos = self.value.as_decimal().checked_mul(unit.into()).map(ConfigNumberValue::new);
+    match nanos.and_then(|v| v.to_i128()) {
+      Some(v) => Ok(v),
+      None => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 }
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..90c20ee 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -262,11 +262,11 @@ impl ConfigValue {
   }
 
   pub fn as_duration(&self) -> Option<Duration> {
-    self.as_config_duration_value().map(|e| e.to_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_duration().ok())
   }
 
   pub fn as_std_duration(&self) -> Option<std::time::Duration> {
-    self.as_config_duration_value().map(|e| e.to_std_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_std_duration().ok())
   }
 
   pub fn as_config_array_value(&self) -> Option<&ConfigArrayValue> {
-- 
2.43.0


From 4006e80a691783fe960e6ab5197bc71c26fe58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 28/52] fix: a chrono duration beyond 292 years becomes a HOCON
 duration without panicking

---
 hocon/src/model/config_duration_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index b9eb1a9..cd0dbba 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -28,7 +28,8 @@ impl From<Duration> for ConfigDurationValue {
 
 impl From<chrono::Duration> for ConfigDurationValue {
   fn from(value: chrono::Duration) -> Self {
-    let config_number_value = ConfigNumberValue::from(value.num_nanoseconds().unwrap());
+    let nanos = i128::from(value.num_seconds()) * NANOS_PER_SEC + i128::from(value.subsec_nanos());
+    let config_number_value = ConfigNumberValue::from(nanos);
     Self::new(config_number_value, TimeUnit::Nanoseconds)
   }
 }
-- 
2.43.0


From cdd810e0601afb94381f64749bae389d091cb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 29/52] fix: a quoted HOCON string may be empty and hold
 brackets, the other quote and leading blanks

---
 hocon/src/parsers.rs | 57 +++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 48be544..3682bd7 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -94,11 +94,11 @@ fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
 }
 
 fn string_double_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'"').surround(space_or_comment(), space_or_comment())
+  elm_ref(b'"')
 }
 
 fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'\'').surround(space_or_comment(), space_or_comment())
+  elm_ref(b'\'')
 }
 
 fn string<'a>() -> Parser<'a, u8, String> {
@@ -111,42 +111,12 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
-  let utf16_char = seq(b"\\u")
-    * elm_hex_digit()
-      .of_count(4)
+  let char_string = move |excluded: &'static [u8]| {
+    (none_ref_of(excluded) | escape_sequence.clone())
+      .map(Clone::clone)
+      .of_many1()
       .map_res(String::from_utf8)
-      .map_res(|digits| u16::from_str_radix(&digits, 16));
-  let utf16_string = utf16_char.of_many1().map(|chars| {
-    decode_utf16(chars)
-      .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-      .collect::<String>()
-  });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
-}
-
-fn string_zero<'a>() -> Parser<'a, u8, String> {
-  let special_char = elm_ref(b'\\')
-    | elm_ref(b'/')
-    | elm_ref(b'"')
-    | elm_ref(b'b').map(|_| &b'\x08')
-    | elm_ref(b'f').map(|_| &b'\x0C')
-    | elm_ref(b'n').map(|_| &b'\n')
-    | elm_ref(b'r').map(|_| &b'\r')
-    | elm_ref(b't').map(|_| &b'\t');
-  let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
+  };
   let utf16_char = seq(b"\\u")
     * elm_hex_digit()
       .of_count(4)
@@ -157,10 +127,15 @@ fn string_zero<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many0();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  let string_part = move |excluded| char_string(excluded).attempt() | utf16_string.clone();
+  let string_surround1 = string_part(b"\r\n\\\"")
+    .of_many0()
+    .surround(string_double_quote_bracket(), string_double_quote_bracket());
+  let string_surround2 = string_part(b"\r\n\\'")
+    .of_many0()
+    .surround(string_single_quote_bracket(), string_single_quote_bracket());
+  let string_unquoted = string_part(b"[]\r\n\\\"'").of_many1();
+  (string_surround1.attempt() | string_surround2.attempt() | string_unquoted).map(|strings| strings.concat())
 }
 
 fn string_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From a3d376a0fa46362f772a3ca01911fb2db59f799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 30/52] fix: an unquoted HOCON string ends at braces, commas,
 comments and trailing blanks

---
 hocon/src/parsers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 3682bd7..5076715 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -134,7 +134,12 @@ fn string<'a>() -> Parser<'a, u8, String> {
   let string_surround2 = string_part(b"\r\n\\'")
     .of_many0()
     .surround(string_single_quote_bracket(), string_single_quote_bracket());
-  let string_unquoted = string_part(b"[]\r\n\\\"'").of_many1();
+  let comment_start = (seq(b"//").collect() | elm_ref(b'#').collect()).attempt();
+  let blanks = elm_ref_of(b" \t").of_many0().collect().map_res(std::str::from_utf8);
+  let string_unquoted = ((blanks - comment_start.not()) + string_part(b"[]{}, \t\r\n\\\"'"))
+    .map(|(blanks, word)| format!("{}{}", blanks, word))
+    .attempt()
+    .of_many1();
   (string_surround1.attempt() | string_surround2.attempt() | string_unquoted).map(|strings| strings.concat())
 }
 
-- 
2.43.0


From 21ad07aaadebadf8a4b93a5484226c38d19d56c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 31/52] fix: a HOCON literal or number must end the word it
 stands in

---
 hocon/src/parsers.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5076715..5c75936 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -262,11 +262,12 @@ fn enumeration_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn simple_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"null").map(|_| ConfigValue::Null).attempt()
-    | seq(b"true").map(|_| ConfigValue::Bool(true)).attempt()
-    | seq(b"false").map(|_| ConfigValue::Bool(false)).attempt()
-    | duration_value().attempt()
-    | number_value().map(ConfigValue::Number).attempt()
+  let word_end = || none_ref_of(b"[]{},=:#/ \t\r\n\"'").not();
+  ((seq(b"null") - word_end()).map(|_| ConfigValue::Null).attempt()
+    | (seq(b"true") - word_end()).map(|_| ConfigValue::Bool(true)).attempt()
+    | (seq(b"false") - word_end()).map(|_| ConfigValue::Bool(false)).attempt()
+    | (duration_value() - word_end()).attempt()
+    | (number_value() - word_end()).map(ConfigValue::Number).attempt()
     | string_config_value())
   .surround(space_or_comment(), space_or_comment())
 }
-- 
2.43.0


From 30eae6916203363c052815f594bd230f55de213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 32/52] fix: a later HOCON definition replaces an earlier one,
 and objects merge, wherever they stand

---
 hocon/src/model/config_value.rs | 20 +++++++-------------
 hocon/src/parsers.rs            |  2 +-
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 90c20ee..05bee14 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -75,16 +75,17 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Object(l), ConfigValue::Object(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Array(l), ConfigValue::Array(r)) => {
-        l.merge_with(r);
+      (l, r @ ConfigValue::Link(..)) => {
+        for cv in r.to_vec() {
+          l.merge_with(cv);
+        }
       }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
-      (l @ ConfigValue::Link(..), r) => {
-        let mut cv = l.get_value_link().unwrap().value.clone();
+      (l @ ConfigValue::Link(..), r @ ConfigValue::Object(..)) if l.latest().as_object().is_some() => {
+        let mut cv = l.latest().clone();
         cv.merge_with(r);
         l.push(cv);
       }
-      (..) => {}
+      (l, r) => l.push(r),
     }
   }
 }
@@ -428,13 +429,6 @@ impl ConfigValue {
       _ => None,
     }
   }
-
-  fn get_value_link(&self) -> Option<&ConfigValueLink> {
-    match self {
-      ConfigValue::Link(cvl) => Some(&*cvl),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5c75936..557c716 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -196,7 +196,7 @@ fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
     let m: HashMap<String, ConfigValue> = HashMap::new();
     properties.into_iter().fold(m, |mut r, e| {
       match r.get_mut(&e.0) {
-        Some(v) => v.push(e.1),
+        Some(v) => v.merge_with(e.1),
         None => {
           r.insert(e.0, e.1);
         }
-- 
2.43.0


From 1acd534d959f1e6a44f689b70fba5c937a0eeb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 33/52] fix: dotted HOCON keys expand where they stand and drop
 no sibling

---
 hocon/src/model/config_value.rs | 31 -------------------------------
 hocon/src/parsers.rs            | 12 +++++++++++-
 2 files changed, 11 insertions(+), 32 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 05bee14..317adc1 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -124,37 +124,6 @@ impl ConfigResolver for ConfigValue {
           *cva = ConfigValue::Array(ConfigArrayValue::new(m));
         }
       }
-      (ConfigValue::Object(cov), None) => {
-        let mut new_key_values = HashMap::new();
-        for (key, cv) in &cov.0 {
-          if key.contains(".") {
-            let mut keys = key.split(".").collect::<Vec<_>>();
-            keys.reverse();
-            let mut leaf_map = HashMap::new();
-            let mut mcv = cv.clone();
-            mcv.resolve(None);
-            leaf_map.insert(keys[0].to_string(), mcv);
-            let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
-            for key in &keys[1..(keys.len() - 1)] {
-              let mut node_map = HashMap::new();
-              node_map.insert(key.to_string(), new_object.clone());
-              new_object = ConfigValue::Object(ConfigObjectValue::new(node_map));
-            }
-            let last_key = keys.last().unwrap().to_string();
-            match new_key_values.get_mut(&last_key) {
-              None => {
-                new_key_values.insert(last_key, new_object);
-              }
-              Some(entry) => {
-                entry.merge_with(new_object);
-              }
-            }
-          }
-        }
-        if !new_key_values.is_empty() {
-          *cov = ConfigObjectValue::new(new_key_values);
-        }
-      }
       (cvo @ ConfigValue::Object(..), Some(..)) => {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 557c716..5a98cdc 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -169,7 +169,17 @@ pub fn key<'a>() -> Parser<'a, u8, String> {
 }
 
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
+  (key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())).map(
+    |(path, value)| {
+      // `a.b.c = v` stands for `a { b { c = v } }`
+      let mut keys = path.split('.').map(String::from);
+      let head = keys.next().unwrap_or_default();
+      let value = keys.rev().fold(value, |value, key| {
+        ConfigValue::Object(ConfigObjectValue::from((key, value)))
+      });
+      (head, value)
+    },
+  )
 }
 
 fn property_config_value<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From cee9154b07d033017f88f2ac63ad68ad2924d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 34/52] fix: resolving a HOCON configuration must not print its
 values

---
 hocon/src/model/config_value.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 317adc1..5ee4b60 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -139,12 +139,9 @@ impl ConfigResolver for ConfigValue {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            println!("cv = {:?}", cv);
             cv.resolve(source);
-            println!("cv = {:?}", cv);
             match cv {
               ConfigValue::String(s) => {
-                println!("s = {}", s);
                 result.push_str(s);
               }
               _ => {}
@@ -306,7 +303,6 @@ impl ConfigValue {
   }
 
   pub fn prev_latest(&self) -> &Self {
-    println!("self = {:?}", self);
     match self {
       ConfigValue::Link(cv) => match &*(cv.prev) {
         ConfigValue::Link(prev_cv) => {
-- 
2.43.0


From 7e7f81543f3424c7c88c7e0e01f25cf28cc7ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 35/52] fix: HOCON substitutions that find nothing are left out
 or reported, and cycles end

---
 hocon/src/model.rs              |   8 +-
 hocon/src/model/config_value.rs | 188 +++++++++++++++-----------------
 2 files changed, 94 insertions(+), 102 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..b2d7333 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -80,12 +80,18 @@ impl ConfigFactory {
       .to_result()
       .map(|config_values| Self::resolve_stage0(&config_values))
       .map(|config_value| Self::resolve_stage1(&config_value))
-      .map(|config_value| Config::new(config_value))
       .map_err(|pe| {
         let msg = pe.to_string();
         let input_string = pe.input_string();
         ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
       })
+      .and_then(|config_value| match config_value.unresolved() {
+        Some(path) => Err(ConfigError::ParseError(format!(
+          "Cannot resolve the reference: {}",
+          path
+        ))),
+        None => Ok(Config::new(config_value)),
+      })
   }
 
   fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 5ee4b60..fc4970f 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -100,85 +100,7 @@ impl ConfigResolver for ConfigValue {
           .unwrap();
         *cvi = c.to_config_value().clone();
       }
-      (cvl @ ConfigValue::Link(..), Some(..)) => {
-        let cvs = cvl.to_vec();
-        if !cvs.is_empty() {
-          let mut head = cvs[0].clone();
-          head.resolve(source);
-          for e in &cvs[1..] {
-            let mut ee = e.clone();
-            ee.resolve(source);
-            head.push(ee.clone());
-          }
-          *cvl = head;
-        }
-      }
-      (cva @ ConfigValue::Array(..), Some(..)) => {
-        let av = cva.get_array_value().unwrap();
-        let mut m = vec![];
-        for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source);
-          m.push(cv);
-        }
-        if !av.0.is_empty() {
-          *cva = ConfigValue::Array(ConfigArrayValue::new(m));
-        }
-      }
-      (cvo @ ConfigValue::Object(..), Some(..)) => {
-        let ov = cvo.get_object_value().unwrap();
-        let mut key_values = HashMap::new();
-        for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source);
-          key_values.insert(key, cv);
-        }
-        if !key_values.is_empty() {
-          *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
-        }
-      }
-      (cvr @ ConfigValue::Enumeration { .. }, Some(_)) => match cvr {
-        ConfigValue::Enumeration { prev, values, .. } => {
-          let mut result = String::new();
-          for cv in &mut values.0 {
-            cv.resolve(source);
-            match cv {
-              ConfigValue::String(s) => {
-                result.push_str(s);
-              }
-              _ => {}
-            }
-          }
-          if result.is_empty() {
-            *cvr = prev.clone().unwrap().prev_latest().clone();
-          } else {
-            *cvr = ConfigValue::String(result);
-          }
-        }
-        _ => {}
-      },
-      (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
-        let mut ref_value = src
-          .get_value(cvr.ref_name().unwrap())
-          .cloned()
-          .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
-        match ref_value.as_mut() {
-          Some(ref_value_mut) => {
-            ref_value_mut.resolve(source);
-          }
-          _ => {}
-        }
-        if cvr.ref_missing().unwrap() {
-          if ref_value.is_some() {
-            *cvr = ref_value.unwrap();
-          } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
-          }
-        } else {
-          if ref_value.is_none() {
-            panic!("Cannot resolve the reference: {}", cvr.ref_name().unwrap())
-          }
-          *cvr = ref_value.unwrap();
-        }
-      }
+      (cv, Some(source)) => cv.resolve_in(source, &mut vec![]),
       _ => {}
     }
   }
@@ -353,44 +275,108 @@ impl ConfigValue {
     *self = ConfigValue::Link(Rc::new(cvl))
   }
 
-  fn ref_prev(&self) -> &Option<Rc<ConfigValue>> {
+  /// Resolves the substitutions in this value against `source`. `visiting` holds the paths whose
+  /// substitution is under way: one that comes back to such a path finds nothing there.
+  fn resolve_in(&mut self, source: &Self, visiting: &mut Vec<String>) {
     match self {
-      ConfigValue::Reference { prev, .. } => prev,
-      _ => &None,
+      ConfigValue::Link(..) => {
+        let mut cvs = self.to_vec().into_iter();
+        let mut head = cvs.next().unwrap();
+        head.resolve_in(source, visiting);
+        for mut cv in cvs {
+          if let ConfigValue::Reference { prev, .. } = &mut cv {
+            // what the link holds so far is the previous definition
+            *prev = None;
+          }
+          cv.resolve_in(source, visiting);
+          match &cv {
+            ConfigValue::Reference { path, missing, .. } if *missing || visiting.contains(path) => {}
+            _ => head.merge_with(cv),
+          }
+        }
+        *self = head;
+      }
+      ConfigValue::Array(cav) => {
+        cav.0.iter_mut().for_each(|cv| cv.resolve_in(source, visiting));
+        cav.0.retain(|cv| !cv.is_undefined());
+      }
+      ConfigValue::Object(cov) => {
+        cov.0.values_mut().for_each(|cv| cv.resolve_in(source, visiting));
+        cov.0.retain(|_, cv| !cv.is_undefined());
+      }
+      ConfigValue::Enumeration { prev, values } => {
+        let mut result = String::new();
+        for cv in &mut values.0 {
+          cv.resolve_in(source, visiting);
+          if let ConfigValue::String(s) = cv {
+            result.push_str(s);
+          }
+        }
+        if !result.is_empty() {
+          *self = ConfigValue::String(result);
+        } else if let Some(prev) = prev {
+          *self = prev.latest().clone();
+        }
+      }
+      ConfigValue::Reference { prev, path, missing } => {
+        let cyclic = visiting.contains(path);
+        let mut found = None;
+        if !cyclic {
+          found = source
+            .find(path)
+            .cloned()
+            .or_else(|| env::var(&*path).ok().map(ConfigValue::String));
+          if let Some(cv) = &mut found {
+            visiting.push(path.clone());
+            cv.resolve_in(source, visiting);
+            visiting.pop();
+          }
+        }
+        let mut found = found.map(|cv| cv.latest().clone()).filter(|cv| !cv.is_reference());
+        if found.is_none() && (*missing || cyclic) {
+          found = prev.as_ref().map(|prev| prev.latest().clone());
+          if let Some(cv) = &mut found {
+            cv.resolve_in(source, visiting);
+          }
+        }
+        if let Some(cv) = found {
+          *self = cv;
+        }
+      }
+      _ => {}
     }
   }
 
-  fn ref_name(&self) -> Option<&String> {
-    match self {
-      ConfigValue::Reference { path: ref_name, .. } => Some(ref_name),
+  /// The path of a substitution that is still to be resolved.
+  pub(crate) fn unresolved(&self) -> Option<&str> {
+    match self.latest() {
+      ConfigValue::Reference { path, .. } => Some(path),
+      ConfigValue::Array(cav) => cav.0.iter().find_map(|cv| cv.unresolved()),
+      ConfigValue::Object(cov) => cov.0.values().find_map(|cv| cv.unresolved()),
       _ => None,
     }
   }
 
-  fn ref_missing(&self) -> Option<bool> {
-    match self {
-      ConfigValue::Reference { missing, .. } => Some(*missing),
-      _ => None,
+  /// The entry at `path` with all its definitions.
+  fn find(&self, path: &str) -> Option<&ConfigValue> {
+    let entries = self.as_object()?;
+    match path.split_once('.') {
+      Some((key, rest)) => entries.get(key)?.latest().find(rest),
+      None => entries.get(path),
     }
   }
 
-  fn get_include_value(&self) -> Option<&ConfigIncludeValue> {
-    match self {
-      ConfigValue::Include(civ) => Some(civ),
-      _ => None,
-    }
+  fn is_reference(&self) -> bool {
+    matches!(self, ConfigValue::Reference { .. })
   }
 
-  fn get_object_value(&self) -> Option<&ConfigObjectValue> {
-    match self {
-      ConfigValue::Object(cov) => Some(cov),
-      _ => None,
-    }
+  fn is_undefined(&self) -> bool {
+    matches!(self, ConfigValue::Reference { missing: true, .. })
   }
 
-  fn get_array_value(&self) -> Option<&ConfigArrayValue> {
+  fn get_include_value(&self) -> Option<&ConfigIncludeValue> {
     match self {
-      ConfigValue::Array(cav) => Some(cav),
+      ConfigValue::Include(civ) => Some(civ),
       _ => None,
     }
   }
-- 
2.43.0


From 78b19fa48367bfd445aa1dde024f08f922bb75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 36/52] fix: an empty HOCON document is an empty configuration

---
 hocon/src/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index b2d7333..5e4b460 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -101,7 +102,10 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
+    let mut cur = match config_values.first() {
+      Some(cv) => cv.clone(),
+      None => return ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
+    };
     cur.resolve(None);
     for cv in &config_values[1..] {
       let mut t = cv.clone();
-- 
2.43.0


From ddda4cea32a67a1c441645e20f4c2fa35efed825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 37/52] fix: load_from_file must report a file it cannot read

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 5e4b460..3d5d13f 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -71,7 +71,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From feac8662ddaa9ac8322966cad1d55848deda28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 38/52] fix: HOCON includes load their file, may follow one
 another and cannot recurse

---
 hocon/src/model.rs                      | 32 +++++++++++++++++++++++--
 hocon/src/model/config_include_value.rs |  2 +-
 hocon/src/model/config_value.rs         |  7 ++----
 hocon/src/parsers.rs                    | 11 ++++++---
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 3d5d13f..87a8049 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -60,12 +60,14 @@ impl FileReader for DefaultFileReader {
 
 pub struct ConfigFactory {
   file_reader: Box<dyn FileReader>,
+  including: Vec<String>,
 }
 
 impl ConfigFactory {
   pub fn new() -> Self {
     Self {
       file_reader: Box::new(DefaultFileReader),
+      including: vec![],
     }
   }
 
@@ -79,13 +81,14 @@ impl ConfigFactory {
     hocon()
       .parse(text.as_bytes())
       .to_result()
-      .map(|config_values| Self::resolve_stage0(&config_values))
-      .map(|config_value| Self::resolve_stage1(&config_value))
       .map_err(|pe| {
         let msg = pe.to_string();
         let input_string = pe.input_string();
         ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
       })
+      .and_then(|config_values| self.resolve_includes(config_values))
+      .map(|config_values| Self::resolve_stage0(&config_values))
+      .map(|config_value| Self::resolve_stage1(&config_value))
       .and_then(|config_value| match config_value.unresolved() {
         Some(path) => Err(ConfigError::ParseError(format!(
           "Cannot resolve the reference: {}",
@@ -95,6 +98,31 @@ impl ConfigFactory {
       })
   }
 
+  fn resolve_includes(&self, config_values: Vec<ConfigValue>) -> Result<Vec<ConfigValue>, ConfigError> {
+    config_values
+      .into_iter()
+      .map(|config_value| match &config_value {
+        ConfigValue::Include(civ) => self.load_include(&civ.file_name),
+        _ => Ok(config_value),
+      })
+      .collect()
+  }
+
+  /// A file that does not exist counts as empty.
+  pub(crate) fn load_include(&self, filename: &str) -> Result<ConfigValue, ConfigError> {
+    let filename = filename.to_string();
+    if self.including.contains(&filename) {
+      return Err(ConfigError::ParseError(format!("Cyclic include: {}", filename)));
+    }
+    let mut factory = ConfigFactory::new();
+    factory.including = [self.including.as_slice(), &[filename.clone()]].concat();
+    match factory.load_from_file(&filename) {
+      Ok(config) => Ok(config.config_value),
+      Err(ConfigError::FileNotFoundError) => Ok(ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))),
+      Err(e) => Err(e),
+    }
+  }
+
   fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
     let mut c = config_value.clone();
     c.resolve(Some(&config_value));
diff --git a/hocon/src/model/config_include_value.rs b/hocon/src/model/config_include_value.rs
index f3414b4..ecf093e 100644
--- a/hocon/src/model/config_include_value.rs
+++ b/hocon/src/model/config_include_value.rs
@@ -8,7 +8,7 @@ pub struct ConfigIncludeValue {
 
 impl Display for ConfigIncludeValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-    write!(f, "include {}({})", self.method, self.file_name)
+    write!(f, "include {}(\"{}\")", self.method, self.file_name)
   }
 }
 
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index fc4970f..c2ac17d 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -94,11 +94,8 @@ impl ConfigResolver for ConfigValue {
   fn resolve(&mut self, source: Option<&Self>) {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => {
-        let mut config_factory = ConfigFactory::new();
-        let c = config_factory
-          .load_from_file(&cvi.get_include_value().unwrap().file_name)
-          .unwrap();
-        *cvi = c.to_config_value().clone();
+        let c = ConfigFactory::new().load_include(&cvi.get_include_value().unwrap().file_name);
+        *cvi = c.unwrap();
       }
       (cv, Some(source)) => cv.resolve_in(source, &mut vec![]),
       _ => {}
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5a98cdc..38978b0 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -27,8 +27,13 @@ fn include_method<'a>() -> Parser<'a, u8, String> {
 }
 
 fn include_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"include") * elm(b' ') * include_method() + path().surround(seq(b"(\""), seq(b"\")")))
-    .map(|(method, path)| ConfigValue::Include(ConfigIncludeValue::new(method, format!("\"{}\"", path))))
+  let file_name = none_ref_of(b"\"\r\n")
+    .of_many1()
+    .collect()
+    .map_res(std::str::from_utf8)
+    .map(String::from);
+  (seq(b"include") * elm(b' ') * include_method() + file_name.surround(seq(b"(\""), seq(b"\")")))
+    .map(|(method, file_name)| ConfigValue::Include(ConfigIncludeValue::new(method, file_name)))
 }
 
 fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Option<String>)> {
@@ -309,7 +314,7 @@ fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
       vec![ConfigValue::Object(ConfigObjectValue::new(map))]
     })
     .attempt()
-    | include_config_value().of_many1().attempt()
+    | include_config_value().surround(space_or_comment(), space_or_comment()).of_many1().attempt()
     | (object_config_value().attempt() | array_config_value()).of_many0()
 }
 
-- 
2.43.0


From 25d5b812bf3e691a07e64fd577353873549f6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 39/52] fix: commas may separate HOCON properties at the top
 level as within braces

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 38978b0..a8f194c 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -298,7 +298,7 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
   property_config_value()
-    .of_many1()
+    .of_many1_sep(comma().opt())
     .map(|values: Vec<(String, ConfigValue)>| {
       let map = values.into_iter().fold(HashMap::new(), |mut key_values, (k, v)| {
         match key_values.get_mut(&k) {
-- 
2.43.0


From e283139f2123a965ae4dc23a4a85653f0dfad0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 40/52] fix: a displayed HOCON string or key must read back as
 itself

---
 hocon/src/model/config_object_value.rs |  6 ++++--
 hocon/src/model/config_value.rs        | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/hocon/src/model/config_object_value.rs b/hocon/src/model/config_object_value.rs
index de1c8f5..07d8147 100644
--- a/hocon/src/model/config_object_value.rs
+++ b/hocon/src/model/config_object_value.rs
@@ -1,4 +1,4 @@
-use crate::model::config_value::ConfigValue;
+use crate::model::config_value::{quote, ConfigValue};
 use crate::model::{ConfigMergeable, Monoid};
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
@@ -14,7 +14,9 @@ impl Display for ConfigObjectValue {
       if !s.is_empty() {
         s.push_str(", ");
       }
-      let line = format!("{} = {}", k, v);
+      let is_path_element = |k: &str| !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_".contains(&b));
+      let key = if is_path_element(k) { k.clone() } else { quote(k) };
+      let line = format!("{} = {}", key, v);
       s.push_str(&line);
     }
     write!(f, "{{ {} }}", s)
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index c2ac17d..3e74d95 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -42,7 +42,7 @@ impl Display for ConfigValue {
     let s = match self {
       ConfigValue::Null => "null".to_string(),
       ConfigValue::Bool(value) => value.to_string(),
-      ConfigValue::String(value) => format!("\"{}\"", value.to_string()),
+      ConfigValue::String(value) => quote(value),
       ConfigValue::Number(cnv) => cnv.to_string(),
       ConfigValue::Duration(cdv) => cdv.to_string(),
       ConfigValue::Array(cav) => cav.to_string(),
@@ -56,6 +56,21 @@ impl Display for ConfigValue {
   }
 }
 
+/// `text` as a quoted string that reads back as `text`.
+pub(crate) fn quote(text: &str) -> String {
+  let mut s = String::from("\"");
+  for c in text.chars() {
+    match c {
+      '"' | '\\' => s.extend(['\\', c]),
+      '\n' => s.push_str("\\n"),
+      '\r' => s.push_str("\\r"),
+      c => s.push(c),
+    }
+  }
+  s.push('"');
+  s
+}
+
 impl Monoid for ConfigValue {
   fn combine(&mut self, other: &Self) {
     match other {
-- 
2.43.0


From e9526f4b477a0637f57614c355ce0978c0d206fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 41/52] fix: combining a HOCON value with a single definition
 must append it

---
 hocon/src/model/config_value.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 3e74d95..7b55874 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -73,13 +73,8 @@ pub(crate) fn quote(text: &str) -> String {
 
 impl Monoid for ConfigValue {
   fn combine(&mut self, other: &Self) {
-    match other {
-      cv @ ConfigValue::Link(..) => {
-        for child_cv in cv.to_vec() {
-          self.push(child_cv);
-        }
-      }
-      _ => {}
+    for cv in other.to_vec() {
+      self.push(cv);
     }
   }
 }
-- 
2.43.0


From 88dd9cfe25f72ef9b92d99588788f9e8603ad4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 42/52] fix: bind the parameters of a called function

The bindings were inserted into a copy of the environment that was dropped.
---
 toys/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6b0621f..eb7245c 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -146,7 +146,7 @@ impl Interpreter {
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           let mut i = 0;
           for formal_param_name in formal_params {
-            let mut bindings = self.variable_environment.as_bindings().clone();
+            let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(formal_param_name.clone(), values[i].clone());
             i += 1;
           }
@@ -171,7 +171,7 @@ impl Interpreter {
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           for (param_name, param_value) in name_with_values {
-            let mut bindings = self.variable_environment.as_bindings().clone();
+            let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-- 
2.43.0


From 5fcb9a0e8eb1b1b3bd6aa245600d6f0fabcfdeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 43/52] fix: keep global variables

The value was inserted into a copy of the environment that was dropped.
---
 toys/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index eb7245c..41e95a2 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -33,8 +33,8 @@ impl Interpreter {
         for top_level in definitions {
           match &**top_level {
             Expr::GlobalVariableDefinition(name, expr) => {
-              let mut bindings = self.variable_environment.as_bindings().clone();
-              bindings.insert(name.clone(), self.interpret(expr.clone()));
+              let value = self.interpret(expr.clone());
+              self.variable_environment.as_bindings_mut().insert(name.clone(), value);
             }
             Expr::FunctionDefinition(name, ..) => {
               self.function_environment.insert(name.clone(), top_level.clone());
-- 
2.43.0


From f3e47a01f2e0f8d7e55531075d3c6354e62d51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 44/52] fix: an empty block evaluates like a missing else
 branch instead of panicking

---
 toys/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 41e95a2..6153e8f 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -106,7 +106,7 @@ impl Interpreter {
         for expr in exprs {
           value = Some(self.interpret(expr.clone()));
         }
-        value.unwrap()
+        value.unwrap_or(Value::Bool(true))
       }
       Expr::Println(args) => {
         let value = self.interpret(args.clone());
-- 
2.43.0


From 72dd84b268afda592b421888cc0b40ba816dec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 45/52] fix: evaluate boolean and array literals, which could
 be parsed but not interpreted

---
 toys/src/interpreter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6153e8f..9035804 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -78,6 +78,8 @@ impl Interpreter {
       }
       Expr::StringLiteral(value) => Value::String(value.clone()),
       Expr::IntegerLiteral(value) => Value::Int(*value),
+      Expr::BoolLiteral(value) => Value::Bool(*value),
+      Expr::ArrayLiteral(values) => Value::Array(values.iter().map(|value| self.interpret(value.clone())).collect()),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
         let bindings_opt = self.variable_environment.find_binding(name);
-- 
2.43.0


From 8f888d97672b2c11b58004c9b68580b88829acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 46/52] fix: assigning to a variable of an enclosing
 environment panicked

The assignment looked the name up along the whole chain but replaced it only in the
innermost bindings. It now replaces the binding it found, and a call hands the
caller's environment back as the callee left it.
---
 toys/src/environment.rs | 14 ++++++++++++++
 toys/src/interpreter.rs | 27 +++++++++++++++++----------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/toys/src/environment.rs b/toys/src/environment.rs
index 2ac3d6b..538d2ec 100644
--- a/toys/src/environment.rs
+++ b/toys/src/environment.rs
@@ -30,6 +30,20 @@ impl Environment {
     }
   }
 
+  /// Replaces the innermost binding of the name; tells whether there was one.
+  pub fn rebind(&mut self, name: &str, value: Value) -> bool {
+    match self.bindings.get_mut(name) {
+      Some(bound) => {
+        *bound = value;
+        true
+      }
+      None => match &mut self.next {
+        Some(next) => Rc::make_mut(next).rebind(name, value),
+        None => false,
+      },
+    }
+  }
+
   pub fn new(bindings: HashMap<String, Value>, next: Option<Rc<Environment>>) -> Environment {
     Self { bindings, next }
   }
diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 9035804..065e04c 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -55,6 +55,18 @@ impl Interpreter {
     }
   }
 
+  fn enter(&mut self) {
+    let empty = Environment::new(HashMap::new(), None);
+    let caller = std::mem::replace(&mut self.variable_environment, empty);
+    self.variable_environment.next = Some(Rc::new(caller));
+  }
+
+  fn leave(&mut self) {
+    if let Some(caller) = self.variable_environment.next.take() {
+      self.variable_environment = Rc::try_unwrap(caller).unwrap_or_else(|shared| (*shared).clone());
+    }
+  }
+
   pub fn interpret(&mut self, expr: Rc<Expr>) -> Value {
     match &*expr {
       Expr::Binary(op, lhs, rhs) => {
@@ -90,10 +102,7 @@ impl Interpreter {
         let bindings_opt = self.variable_environment.find_binding(name);
         if bindings_opt.is_some() {
           let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          let r = bindings.get_mut(name).unwrap();
-          *r = value.clone();
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
+          self.variable_environment.rebind(name, value.clone());
           value
         } else {
           let value = self.interpret(expr.clone());
@@ -144,8 +153,7 @@ impl Interpreter {
             .iter()
             .map(|actual_param| self.interpret(actual_param.clone()))
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          self.enter();
           let mut i = 0;
           for formal_param_name in formal_params {
             let bindings = self.variable_environment.as_bindings_mut();
@@ -153,7 +161,7 @@ impl Interpreter {
             i += 1;
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.leave();
           result
         } else {
           panic!("Function {} not defined", name);
@@ -170,14 +178,13 @@ impl Interpreter {
               )
             })
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          self.enter();
           for (param_name, param_value) in name_with_values {
             let bindings = self.variable_environment.as_bindings_mut();
             bindings.insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.leave();
           result
         } else {
           panic!("Function {} not defined", name);
-- 
2.43.0


From cc53590f54ac58a07f93b9e91329cc7f84042654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 47/52] fix: a name starting with true or false was read as the
 literal

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fb4d158..1416386 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -262,7 +262,7 @@ fn array_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let p = (tag("true").attempt() | tag("false")).map(|e| match e.as_str() {
+  let p = regex(r"(true|false)\b").map(|e| match e.as_str() {
     "true" => Expr::of_bool_literal(true),
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
-- 
2.43.0


From 205319a75d95ef3fec61cecf071e1adb9a7052c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 48/52] fix: a statement starting with a name like elsewhere
 was read as an else branch

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 1416386..0c1a0a9 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -133,7 +133,7 @@ fn r#for<'a>() -> Parser<'a, char, Rc<Expr>> {
 fn r#if<'a>() -> Parser<'a, char, Rc<Expr>> {
   let r#if = tag("if") - space();
   let condition = r#if * lparen() * expression() - rparen();
-  let r#else = space() * tag("else") - space();
+  let r#else = space() * regex(r"else\b") - space();
   let p = (condition + line() + (r#else * line()).opt()).map(|((p1, p2), p3)| Expr::of_if(p1, p2, p3));
   (space() * p - space()).attempt().name("if").cache()
 }
-- 
2.43.0


From ca8d938954052cab5ce20fec00282e880b418769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 49/52] fix: the rest of a program after a syntax error was
 silently ignored

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 0c1a0a9..a33992e 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -66,7 +66,7 @@ fn space<'a>() -> Parser<'a, char, ()> {
 }
 
 pub fn program<'a>() -> Parser<'a, char, Rc<Expr>> {
-  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new)
+  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new) - end()
 }
 
 fn top_level_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
-- 
2.43.0


From 0efc4849431a895c41f435a80dc2a535912b10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 50/52] fix: a string literal after white space was rejected
 where nothing before it skips it

A labelled argument written `name= "text"` failed; every other kind of literal skips
the white space around it.
---
 toys/src/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index a33992e..48c1605 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -297,8 +297,8 @@ fn string_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
   let string = (char_string | utf16_string)
     .of_many0()
     .surround(elm_ref('"'), elm_ref('"'));
-  string
-    .map(|strings| Expr::of_string_literal(strings.concat()))
+  let p = string.map(|strings| Expr::of_string_literal(strings.concat()));
+  (space() * p - space())
     .attempt()
     .name("string_literal")
     .cache()
-- 
2.43.0


From 4540b5e629ea218e6a865abdc96e73d7cf3498b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 51/52] fix: a path ending in a period was accepted

---
 hocon/src/parsers.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index a8f194c..704b585 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -226,8 +226,7 @@ fn path_element<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn path<'a>() -> Parser<'a, u8, String> {
-  path_element()
-    .of_many1_sep(elm(b'.'))
+  (path_element() + (elm(b'.') + path_element()).attempt().of_many0())
     .collect()
     .map_res(std::str::from_utf8)
     .map(String::from)
@@ -242,13 +241,7 @@ fn reference_right_bracket<'a>() -> Parser<'a, u8, Vec<u8>> {
 }
 
 fn reference<'a>() -> Parser<'a, u8, (bool, String)> {
-  (elm_ref(b'?').opt().map(|v| v.is_some())
-    + path_element()
-      .of_many1_sep(elm(b'.'))
-      .collect()
-      .map_res(std::str::from_utf8)
-      .map(String::from))
-  .surround(reference_left_bracket(), reference_right_bracket())
+  (elm_ref(b'?').opt().map(|v| v.is_some()) + path()).surround(reference_left_bracket(), reference_right_bracket())
 }
 
 fn object_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 1053bb4ed50e5735be8e548c9dcdaa3d5d9ca4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 52/52] fix: a quoted key with a period was split into several
 keys

---
 hocon/src/parsers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 704b585..82ae196 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -173,11 +173,19 @@ pub fn key<'a>() -> Parser<'a, u8, String> {
   (path().attempt() | string()).surround(space_or_comment(), space_or_comment())
 }
 
+/// The keys that the name of an entry stands for: a quoted name is a single key, whatever it holds.
+fn keys<'a>() -> Parser<'a, u8, Vec<String>> {
+  let quoted = (elm_of(b"\"'").peek() * string()).map(|key| vec![key]);
+  let unquoted = (path().attempt() | string()).map(|path| path.split('.').map(String::from).collect::<Vec<_>>());
+  (quoted.attempt() | unquoted.with_filter(|keys| !keys.iter().any(String::is_empty)))
+    .surround(space_or_comment(), space_or_comment())
+}
+
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  (key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())).map(
-    |(path, value)| {
+  (keys() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())).map(
+    |(keys, value)| {
       // `a.b.c = v` stands for `a { b { c = v } }`
-      let mut keys = path.split('.').map(String::from);
+      let mut keys = keys.into_iter();
       let head = keys.next().unwrap_or_default();
       let value = keys.rev().fold(value, |value, key| {
         ConfigValue::Object(ConfigObjectValue::from((key, value)))
-- 
2.43.0

