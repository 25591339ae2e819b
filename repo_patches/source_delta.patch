From 756f73a5d785a8edbc3767df0f72b7c16013c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 01/51] fix: anchor the whole pattern of regex() and consume
 characters, not bytes

---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..2af6ae5 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -81,11 +81,7 @@ impl ElementsParsers for ParsersImpl {
   }
 
   fn regex<'a>(pattern: &str) -> Self::P<'a, char, String> {
-    let pattern = if !pattern.starts_with("^") {
-      format!("^{}", pattern)
-    } else {
-      pattern.to_string()
-    };
+    let pattern = format!("^(?:{})", pattern);
     let regex = Regex::new(&pattern).unwrap();
     Parser::new(move |parse_state| {
       let input: &[char] = parse_state.input();
@@ -94,7 +90,7 @@ impl ElementsParsers for ParsersImpl {
       if let Some(captures) = regex.captures(&str).as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From 31dad499589b3c85f6a8cf5377b9741c894c7005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 02/51] fix: make the right-associative operator chains
 associate to the right over the whole chain

---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..6c8c9ed 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x))
   }
 
   #[inline]
@@ -104,10 +104,11 @@ impl OperatorParsers for ParsersImpl {
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
     let default_value = x.clone();
+    let op_rest = op.clone();
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        Self::map(Self::chain_right1(p.clone(), op_rest.clone()), move |y| f(default_value.clone(), y.clone()))
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From 365975d89f9d80772391bd2cd4f998158968af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 03/51] fix: bound repetition from the first item, give back a
 trailing separator and stop when it no longer advances

---
 .../parsers_impl/repeat_parsers_impl.rs       | 45 ++++++++++---------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..c11f901 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,37 +74,40 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      let has_room = |count: usize| match range.end() {
+        Bound::Included(&max_count) => count < max_count,
+        Bound::Excluded(&max_count) => count + 1 < max_count,
+        _ => true,
+      };
+      // An unbounded repetition that has its minimum and stopped advancing would never end.
+      let is_endless = |count: usize| match (range.start(), range.end()) {
+        (Bound::Included(&min_count), Bound::Unbounded) => count >= min_count,
+        (_, Bound::Unbounded) => true,
+        _ => false,
+      };
+
+      let first = if has_room(0) { Some((method)(parse_state)) } else { None };
+      if let Some(ParseResult::Success { value, length }) = first {
         let mut current_parse_state = parse_state.advance_by(length);
+        let mut advanced = length != 0 || separator_clone.is_some();
         items.push(value);
         all_length += length;
-        loop {
-          match range.end() {
-            Bound::Included(&max_count) => {
-              if items.len() >= max_count {
-                break;
-              }
-            }
-            Bound::Excluded(&max_count) => {
-              if items.len() + 1 >= max_count {
-                break;
-              }
-            }
-            _ => (),
-          }
-
+        while has_room(items.len()) && (advanced || !is_endless(items.len())) {
+          let mut step = 0;
           if let Some(sep) = &separator_clone {
             if let ParseResult::Success { length, .. } = (sep.method)(&current_parse_state) {
-              current_parse_state = current_parse_state.advance_by(length);
-              all_length += length;
+              step += length;
             } else {
               break;
             }
           }
-          if let ParseResult::Success { value, length } = (method)(&current_parse_state) {
-            current_parse_state = current_parse_state.advance_by(length);
+          // The separator is only consumed together with the item that follows it.
+          if let ParseResult::Success { value, length } = (method)(&current_parse_state.advance_by(step)) {
+            step += length;
+            current_parse_state = current_parse_state.advance_by(step);
             items.push(value);
-            all_length += length;
+            all_length += step;
+            advanced = step != 0;
           } else {
             break;
           }
-- 
2.43.0


From d16c5c46276ca26ec6021cde955850c8aa0cd0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 04/51] fix: key cached results by the input and position, and
 allow recursive cached grammars

---
 .../parsers_impl/cache_parsers_impl.rs        | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..31e0b6d 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,6 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -14,24 +13,19 @@ impl CacheParsers for ParsersImpl {
   where
     I: Clone + 'a,
     A: Clone + Debug + 'a, {
-    // FnvHashMapを使用してキャッシュを作成（キーは単純な文字列ではなくタプル）
+    // The remaining input (address and length) and the absolute offset identify a run.
     let caches = RefCell::new(FnvHashMap::<(usize, usize, usize), ParseResult<'a, I, A>>::default());
     let method = parser.method.clone();
     Parser::new(move |parser_state| {
-      // キーをタプルとして生成（文字列変換なし）
-      let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
-      );
-
-      // キャッシュから結果を取得または計算
-      let parse_result = caches
-        .borrow_mut()
-        .entry(key)
-        .or_insert_with(|| method(parser_state))
-        .clone();
+      let input = parser_state.input();
+      let key = (input.as_ptr() as usize, input.len(), parser_state.current_offset());
 
+      if let Some(parse_result) = caches.borrow().get(&key) {
+        return parse_result.clone();
+      }
+      // Not borrowed while computing: a recursive grammar may come back to this parser.
+      let parse_result = method(parser_state);
+      caches.borrow_mut().insert(key, parse_result.clone());
       parse_result
     })
   }
-- 
2.43.0


From f1efd77a53d177f3efd17ff7d8753981b2d2719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 05/51] fix: take_while parsers return one contiguous run and
 consume up to its end

---
 .../src/internal/parsers_impl/taken_parsers_impl.rs  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..4dbd134 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,11 +33,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::successful(parse_state.slice_with_len(0), 0),
       }
     })
@@ -59,11 +61,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -92,7 +98,7 @@ impl TakenParsers for ParsersImpl {
         Some(s) => {
           let str = &input[s..s + len];
           if n <= str.len() && str.len() <= m {
-            ParseResult::successful(str, len)
+            ParseResult::successful(str, s + len)
           } else {
             ParseResult::failed_with_uncommitted(ParseError::of_in_complete())
           }
-- 
2.43.0


From 77b2e918766adc8c5d00a32f9a0aa08a20595344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 06/51] fix: ParseError::input never slices outside the
 offending input

---
 parser/src/core/parse_error.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..6f9198b 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -89,12 +89,10 @@ impl<'a, I> ParseError<'a, I> {
   pub fn input(&self) -> Option<&'a [I]> {
     match self {
       ParseError::Incomplete => None,
-      ParseError::Mismatch {
-        input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
-      ParseError::Conversion {
-        input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      // `input` already starts at the position of the failure
+      ParseError::Mismatch { input, length, .. } => Some(&input[..(*length).min(input.len())]),
+      // `input` already starts at the position of the failure
+      ParseError::Conversion { input, length, .. } => Some(&input[..(*length).min(input.len())]),
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
-- 
2.43.0


From 7a6647c23846ff6165860ce94298b7c718ab4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 07/51] fix: is_ascii_digit_non_zero only accepts digits

---
 parser/src/core/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/core/element.rs b/parser/src/core/element.rs
index dfe138d..4b4809b 100644
--- a/parser/src/core/element.rs
+++ b/parser/src/core/element.rs
@@ -85,7 +85,7 @@ impl Element for u8 {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -155,7 +155,7 @@ impl Element for char {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -224,7 +224,7 @@ impl Element for char {
 //   }
 //
 //   fn is_ascii_digit_non_zero(&self) -> bool {
-//     !self.is_ascii_digit_zero()
+//     self.is_ascii_digit() && !self.is_ascii_digit_zero()
 //   }
 //
 //   fn is_ascii_alpha_digit(&self) -> bool {
-- 
2.43.0


From 6fbbe943715a4a80ace7ab35c7150c09586dff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 08/51] fix: the public parser facade keeps the parse error and
 filters without committing

---
 parser/src/core/parsers.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/parser/src/core/parsers.rs b/parser/src/core/parsers.rs
index 65a3b7c..fda15d1 100644
--- a/parser/src/core/parsers.rs
+++ b/parser/src/core/parsers.rs
@@ -73,10 +73,7 @@ impl Parsers for ParserParsers {
     A: 'a,
     'b: 'a, {
     use crate::core::parser_runner::ParserRunner;
-    parser
-      .parse(input)
-      .success()
-      .ok_or_else(|| ParseError::of_custom(0, None, "Parse failed".to_string()))
+    parser.parse(input).to_result()
   }
 
   fn successful<'a, I, A>(value: A) -> Self::P<'a, I, A>
@@ -115,17 +112,8 @@ impl Parsers for ParserParsers {
     F: Fn(&A) -> bool + 'a,
     I: Element,
     A: Clone + 'a, {
-    // 直接実装を使用
-    Self::flat_map(parser, move |a| {
-      if f(&a) {
-        Self::successful(a)
-      } else {
-        Self::failed(
-          ParseError::of_custom(0, None, "Filter predicate failed".to_string()),
-          CommittedStatus::Uncommitted,
-        )
-      }
-    })
+    use crate::core::parser_filter::ParserFilter;
+    parser.with_filter(f)
   }
 
   fn flat_map<'a, I, A, B, F>(parser: Self::P<'a, I, A>, f: F) -> Self::P<'a, I, B>
-- 
2.43.0


From 06f544ccc8056df886ed512dfbe756e0993b593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 09/51] fix: evaluate the weekday field against the weekday
 (SUN=1..SAT=7), not the minute

---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..3f4ba39 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.date().weekday().number_from_sunday() as u8, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From 4d5a5429a831feb0055d8e04bbe0a3acade3a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 10/51] fix: a step of 0 matches nothing instead of panicking

---
 crond/src/cron_evaluator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 3f4ba39..fe6bf20 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -51,7 +51,8 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         per_option,
       } => match per_option {
         box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,
-        box CronExpr::ValueExpr(per) => (*start as usize..=*end as usize)
+        // A step of 0 selects nothing.
+        box CronExpr::ValueExpr(per) if *per > 0 => (*start as usize..=*end as usize)
           .step_by(*per as usize)
           .into_iter()
           .any(|e| e == env.now as usize),
@@ -60,7 +61,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } => (0usize..=(env.max as usize))
+      } if *per > 0 => (0usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
-- 
2.43.0


From 3de04bcda799416e4ead281b39795df80c319f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 11/51] fix: count the steps of */n from the lowest value of
 the field (day, month and weekday start at 1)

---
 crond/src/cron_environment.rs | 8 +++++++-
 crond/src/cron_evaluator.rs   | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crond/src/cron_environment.rs b/crond/src/cron_environment.rs
index 9c91af5..af07099 100644
--- a/crond/src/cron_environment.rs
+++ b/crond/src/cron_environment.rs
@@ -1,10 +1,16 @@
 pub struct CronEnvironment {
   pub(crate) now: u8,
+  pub(crate) min: u8,
   pub(crate) max: u8,
 }
 
 impl CronEnvironment {
   pub fn new(now: u8, max: u8) -> Self {
-    Self { now, max }
+    Self { now, min: 0, max }
+  }
+
+  /// The lowest value of the field, from which the steps of `*/n` are counted.
+  pub(crate) fn with_min(self, min: u8) -> Self {
+    Self { min, ..self }
   }
 }
diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index fe6bf20..82cd8ee 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -25,12 +25,12 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         let fmins = self.visit(&CronEnvironment::new(self.instant.time().minute() as u8, 59), mins);
         let fhours = self.visit(&CronEnvironment::new(self.instant.time().hour() as u8, 23), hours);
         let fdays = self.visit(
-          &CronEnvironment::new(self.instant.date().day() as u8, last_day as u8),
+          &CronEnvironment::new(self.instant.date().day() as u8, last_day as u8).with_min(1),
           days,
         );
-        let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
+        let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12).with_min(1), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.date().weekday().number_from_sunday() as u8, 7),
+          &CronEnvironment::new(self.instant.date().weekday().number_from_sunday() as u8, 7).with_min(1),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
@@ -61,7 +61,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } if *per > 0 => (0usize..=(env.max as usize))
+      } if *per > 0 => (env.min as usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
-- 
2.43.0


From 8bedbba50e94ec6ad562c8f0e09410b824a862a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 12/51] fix: the schedule iterator stops at the end of its
 interval while searching for the next match

---
 crond/src/cron_interval_iterator.rs | 30 ++++++++---------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..e0318b8 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -32,22 +32,15 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
   type Item = DateTime<Tz>;
 
   fn next(&mut self) -> Option<Self::Item> {
-    self.curr = self.next.clone();
-    self.next = self.next.clone() + Duration::minutes(1);
-    match self.end_value() {
-      None => {
-        self.proceed_next();
-        let curr: DateTime<Tz> = self.curr.clone();
-        Some(curr)
+    let end = self.end_value();
+    loop {
+      if end.as_ref().map_or(false, |end| self.next > *end) {
+        return None;
       }
-      Some(end) => {
-        if end >= self.curr {
-          self.proceed_next();
-          let curr: DateTime<Tz> = self.curr.clone();
-          Some(curr)
-        } else {
-          None
-        }
+      self.curr = self.next.clone();
+      self.next = self.next.clone() + Duration::minutes(1);
+      if self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+        return Some(self.curr.clone());
       }
     }
   }
@@ -75,13 +68,6 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
       None
     }
   }
-
-  fn proceed_next(&mut self) {
-    while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
-      self.curr = self.next.clone();
-      self.next = self.next.clone() + Duration::minutes(1);
-    }
-  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9eb09f03f52d79c3e2caeb43d181f1f9221fda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 13/51] fix: Uri::parse accepts a text only as a whole instead
 of dropping its malformed rest

---
 uri/src/models/uri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/models/uri.rs b/uri/src/models/uri.rs
index 6c82be6..a2ad508 100644
--- a/uri/src/models/uri.rs
+++ b/uri/src/models/uri.rs
@@ -6,7 +6,7 @@ use crate::models::query::Query;
 use crate::models::scheme::Scheme;
 use crate::models::user_info::UserInfo;
 use crate::parsers::uri_parsers;
-use oni_comb_parser_rs::prelude::{ParseError, ParserRunner};
+use oni_comb_parser_rs::prelude::{end, ParseError, ParserRunner};
 use std::fmt::Formatter;
 
 pub type Fragment = String;
@@ -66,7 +66,7 @@ impl std::fmt::Display for Uri {
 
 impl Uri {
   pub fn parse(text: &str) -> Result<Uri, ParseError<u8>> {
-    uri_parsers::uri().parse(text.as_bytes()).to_result()
+    (uri_parsers::uri() - end()).parse(text.as_bytes()).to_result()
   }
 
   pub fn new(
-- 
2.43.0


From d8111ecc1cf83a162a3b08e23d244fc28fe114c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 14/51] fix: accept an IPv6 address of seven groups in front of
 the elision

---
 uri/src/parsers/ip_v6_address_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/ip_v6_address_parsers.rs b/uri/src/parsers/ip_v6_address_parsers.rs
index 3863da6..9249596 100644
--- a/uri/src/parsers/ip_v6_address_parsers.rs
+++ b/uri/src/parsers/ip_v6_address_parsers.rs
@@ -130,7 +130,7 @@ fn ip_v6_address8<'a>() -> Parser<'a, u8, Ipv6Addr> {
 
 //                / [ *6( h16 ":" ) h16 ] "::"
 fn ip_v6_address9<'a>() -> Parser<'a, u8, Ipv6Addr> {
-  (ip_v6_address_p1(5) + seq(b"::"))
+  (ip_v6_address_p1(6) + seq(b"::"))
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From de3c46b8b648473fff2289dfbf05f6739f2318b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 15/51] fix: a host that only begins like an IPv4 address is a
 registered name

---
 uri/src/parsers/host_parsers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f54984f..0647f83 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -7,7 +7,9 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 
 // host          = IP-literal / IPv4address / reg-name
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
-  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address().map(HostName::Ipv4Address).attempt() | reg_name())
+  // an IPv4 address that goes on with further name characters is a reg-name
+  let ip_v4 = || ip_v4_address() - reg_name_char().not();
+  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4().map(HostName::Ipv4Address).attempt() | reg_name())
     .name("host")
 }
 
@@ -30,9 +32,13 @@ pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
   .name("ipv-future")
 }
 
+fn reg_name_char<'a>() -> Parser<'a, u8, &'a [u8]> {
+  unreserved().attempt() | pct_encoded().attempt() | sub_delims()
+}
+
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
-  (unreserved().attempt() | pct_encoded().attempt() | sub_delims())
+  reg_name_char()
     .of_many1()
     .collect()
     .map(|e| e.to_vec())
-- 
2.43.0


From a8606fd4b3aa2ee8dc93338889a42c8bdb5672de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 16/51] fix: the host may be empty, so that file:///path has an
 authority and a path

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 0647f83..78420df 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -39,7 +39,7 @@ fn reg_name_char<'a>() -> Parser<'a, u8, &'a [u8]> {
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
   reg_name_char()
-    .of_many1()
+    .of_many0()
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 159126b271e1959c3afed56cde327a99f6555149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 17/51] fix: the password may be empty and may contain ':'

---
 uri/src/parsers/user_info_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/user_info_parsers.rs b/uri/src/parsers/user_info_parsers.rs
index f28bd89..cd8ac24 100644
--- a/uri/src/parsers/user_info_parsers.rs
+++ b/uri/src/parsers/user_info_parsers.rs
@@ -6,7 +6,7 @@ use oni_comb_parser_rs::prelude::*;
 pub fn user_info<'a>() -> Parser<'a, u8, UserInfo> {
   let p = || (unreserved().attempt() | pct_encoded().attempt() | sub_delims());
   (p().of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)
-    + (elm(b':') * p().of_many1().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
+    + (elm(b':') * (p() | elm_ref(b':').collect()).of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
   .map(|(user_name, password)| UserInfo::new(user_name, password))
   .name("user_info")
 }
-- 
2.43.0


From 65467271ab1eccdaf9c53dadb483d27c1e9e9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 18/51] fix: a query value may contain '='

---
 uri/src/parsers/query_parsers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/query_parsers.rs b/uri/src/parsers/query_parsers.rs
index 0dc80fd..1b6499d 100644
--- a/uri/src/parsers/query_parsers.rs
+++ b/uri/src/parsers/query_parsers.rs
@@ -11,7 +11,14 @@ pub fn query<'a>() -> Parser<'a, u8, Query> {
       .map(|e| e.to_vec())
       .map_res(String::from_utf8)
   };
-  let key_values = || (code_point() + (elm(b'=') * code_point()).opt());
+  let value = || {
+    (pchar_without_eq_amp() | elm_of(b"=/?").collect())
+      .of_many0()
+      .collect()
+      .map(|e| e.to_vec())
+      .map_res(String::from_utf8)
+  };
+  let key_values = || (code_point() + (elm(b'=') * value()).opt());
   (key_values() + (elm(b'&') * key_values()).of_many0()).map(|(a, b)| {
     let mut m = vec![a];
     m.extend(b);
-- 
2.43.0


From dfae47580978eb53cd03edae6c7be11bc73943bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 19/51] fix: the version flag of an IPvFuture literal is
 case-insensitive

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 78420df..00a280c 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -22,7 +22,7 @@ pub fn ip_literal<'a>() -> Parser<'a, u8, IpLiteral> {
 
 // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
 pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
-  (elm_ref(b'v')
+  (elm_ref_of(b"vV")
     + elm_hex_digit().of_many1()
     + elm(b'.')
     + (unreserved() | sub_delims() | elm_ref(b':').collect()).of_many1())
-- 
2.43.0


From 9a18dde50fe4d341a86e9a64b8658391e561821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 20/51] fix: accept a comma after the last member or element
 and between root members

---
 hocon/src/parsers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..5579c86 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -176,7 +176,7 @@ fn array_right_bracket<'a>() -> Parser<'a, u8, &'a u8> {
 }
 
 fn array<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
-  let elems = lazy(config_value).of_many0_sep(comma());
+  let elems = lazy(config_value).of_many0_sep(comma()) - comma().opt();
   elems.surround(array_left_bracket(), array_right_bracket())
 }
 
@@ -209,7 +209,7 @@ fn comma<'a>() -> Parser<'a, u8, &'a u8> {
 }
 
 fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
-  let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> = lazy(property).of_many0_sep(comma().opt());
+  let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> = lazy(property).of_many0_sep(comma().opt()) - comma().opt();
   let obj: Parser<'a, u8, Vec<(String, ConfigValue)>> =
     properties.surround(object_left_bracket(), object_right_bracket());
   obj.map(|properties| {
@@ -301,8 +301,7 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
-  property_config_value()
-    .of_many1()
+  (property_config_value().of_many1_sep(comma().opt()) - comma().opt())
     .map(|values: Vec<(String, ConfigValue)>| {
       let map = values.into_iter().fold(HashMap::new(), |mut key_values, (k, v)| {
         match key_values.get_mut(&k) {
-- 
2.43.0


From 8058a6a8af443b19892f961074547dc9ea25f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 21/51] fix: read the sign and the exponent of a number, and do
 not panic on a number out of range

---
 hocon/src/parsers.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5579c86..8aacaee 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -3,6 +3,7 @@ use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
 use oni_comb_parser_rs::prelude::*;
+use rust_decimal::Decimal;
 
 fn comment<'a>() -> Parser<'a, u8, &'a [u8]> {
   let head = seq(b"//").collect().attempt() | elm_ref(b'#').collect();
@@ -75,21 +76,21 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
+  number().map_res(|(s, i, f, e)| {
+    let mut text = String::new();
+    if s.is_some() {
+      text.push('-');
     }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
-      s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
-    }
-    _ => panic!("no match !!!"),
+    text.push_str(&i);
+    text.push_str(f.as_deref().unwrap_or(""));
+    let value = match e {
+      Some(e) => {
+        text.push_str(&e);
+        Decimal::from_scientific(&text)
+      }
+      None => Decimal::from_str_radix(&text, 10),
+    };
+    value.map(ConfigNumberValue::from)
   })
 }
 
-- 
2.43.0


From 0263dc8db6d4d0d0911c2ca516fdcada5a784545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 22/51] fix: try the long spellings of a time unit before the
 short ones they begin with

---
 hocon/src/parsers.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 8aacaee..a1ff74c 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -45,28 +45,28 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
-  let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
+  let ns = (seq(b"nanoseconds").attempt()
     | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
+    | seq(b"nanos").attempt()
+    | seq(b"nano").attempt()
+    | seq(b"ns"))
   .map(|_| TimeUnit::Nanoseconds);
-  let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
+  let us = (seq(b"microseconds").attempt()
     | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
+    | seq(b"micros").attempt()
+    | seq(b"micro").attempt()
+    | seq(b"us"))
   .map(|_| TimeUnit::Microseconds);
-  let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
+  let ms = (seq(b"milliseconds").attempt()
     | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
+    | seq(b"millis").attempt()
+    | seq(b"milli").attempt()
+    | seq(b"ms"))
   .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
+  let s = (seq(b"seconds").attempt() | seq(b"second").attempt() | seq(b"s")).map(|_| TimeUnit::Seconds);
+  let m = (seq(b"minutes").attempt() | seq(b"minute").attempt() | seq(b"m")).map(|_| TimeUnit::Minutes);
+  let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
+  let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
   number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
-- 
2.43.0


From 08ad34670515abc34266a48e3519e6eab40ea0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 23/51] fix: convert durations exactly, fractions included, and
 report an overflow instead of wrapping or panicking

---
 hocon/src/model/config_duration_value.rs | 48 ++++++++++++------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..52c4a97 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -4,6 +4,9 @@ use std::fmt::{Display, Formatter};
 use std::time::Duration;
 
 use anyhow::{bail, Result};
+use rust_decimal::Decimal;
+
+const NANOS_PER_SEC: i128 = 1_000_000_000;
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
@@ -36,35 +39,34 @@ impl ConfigDurationValue {
     Self { value, unit }
   }
 
-  pub fn to_std_duration(&self) -> Result<Duration> {
-    let value = match self.clone().value.to_u64() {
-      Some(v) => v,
-      None => bail!("Occurred convert error: {:?}", self.value),
+  fn to_nanos(&self) -> Result<i128> {
+    let nanos_per_unit: i64 = match self.unit {
+      TimeUnit::Nanoseconds => 1,
+      TimeUnit::Microseconds => 1_000,
+      TimeUnit::Milliseconds => 1_000_000,
+      TimeUnit::Seconds => 1_000_000_000,
+      TimeUnit::Minutes => 60 * 1_000_000_000,
+      TimeUnit::Hours => 60 * 60 * 1_000_000_000,
+      TimeUnit::Days => 24 * 60 * 60 * 1_000_000_000,
     };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
-      TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
-      TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
-      TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
+    match self.value.as_decimal().checked_mul(Decimal::from(nanos_per_unit)) {
+      Some(nanos) => Ok(nanos.trunc().mantissa()),
+      None => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 
+  pub fn to_std_duration(&self) -> Result<Duration> {
+    let nanos = self.to_nanos()?;
+    let secs = u64::try_from(nanos.div_euclid(NANOS_PER_SEC))?;
+    Ok(Duration::new(secs, nanos.rem_euclid(NANOS_PER_SEC) as u32))
+  }
+
   pub fn to_duration(&self) -> Result<chrono::Duration> {
-    let value = match self.clone().value.to_i64() {
-      Some(v) => v,
+    let nanos = self.to_nanos()?;
+    let secs = i64::try_from(nanos.div_euclid(NANOS_PER_SEC))?;
+    match chrono::Duration::new(secs, nanos.rem_euclid(NANOS_PER_SEC) as u32) {
+      Some(duration) => Ok(duration),
       None => bail!("Occurred convert error: {:?}", self.value),
-    };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
-      TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
     }
   }
 }
-- 
2.43.0


From c59507131bcb432273fb6ba04c7f9ea045a80552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 24/51] fix: a duration of more than 292 years converts instead
 of panicking

---
 hocon/src/model/config_duration_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index 52c4a97..36afe51 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -29,7 +29,8 @@ impl From<Duration> for ConfigDurationValue {
 
 impl From<chrono::Duration> for ConfigDurationValue {
   fn from(value: chrono::Duration) -> Self {
-    let config_number_value = ConfigNumberValue::from(value.num_nanoseconds().unwrap());
+    let nanos = value.num_seconds() as i128 * NANOS_PER_SEC + value.subsec_nanos() as i128;
+    let config_number_value = ConfigNumberValue::from(nanos);
     Self::new(config_number_value, TimeUnit::Nanoseconds)
   }
 }
-- 
2.43.0


From 22d58f64707013b2092e812c21de7d79870ea8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 25/51] fix: accept any number of comments and blank lines
 wherever whitespace is accepted

---
 hocon/src/parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index a1ff74c..6061aa5 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -16,7 +16,9 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  (comment().attempt() | elm_ref_of(b" \t\r\n").of_many1().collect())
+    .of_many0()
+    .discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 3e875e6588f77f267855f5203ee9e88658921c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 26/51] fix: quoted strings keep their leading blanks and may
 be empty or hold brackets and the other quote; unquoted strings end at a
 separator, a brace or a comment

---
 hocon/src/parsers.rs | 66 +++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 6061aa5..a0b42cf 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -96,26 +96,19 @@ fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
   })
 }
 
-fn string_double_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'"').surround(space_or_comment(), space_or_comment())
-}
-
-fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'\'').surround(space_or_comment(), space_or_comment())
-}
-
-fn string<'a>() -> Parser<'a, u8, String> {
+/// The characters of a string: everything that `char_parser` accepts, and escape sequences.
+fn string_char<'a>(char_parser: Parser<'a, u8, &'a u8>) -> Parser<'a, u8, String> {
   let special_char = elm_ref(b'\\')
     | elm_ref(b'/')
     | elm_ref(b'"')
+    | elm_ref(b'\'')
     | elm_ref(b'b').map(|_| &b'\x08')
     | elm_ref(b'f').map(|_| &b'\x0C')
     | elm_ref(b'n').map(|_| &b'\n')
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
+  let char_string = (char_parser | escape_sequence)
     .map(Clone::clone)
     .of_many1()
     .map_res(String::from_utf8);
@@ -129,41 +122,28 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  char_string.attempt() | utf16_string
 }
 
-fn string_zero<'a>() -> Parser<'a, u8, String> {
-  let special_char = elm_ref(b'\\')
-    | elm_ref(b'/')
-    | elm_ref(b'"')
-    | elm_ref(b'b').map(|_| &b'\x08')
-    | elm_ref(b'f').map(|_| &b'\x0C')
-    | elm_ref(b'n').map(|_| &b'\n')
-    | elm_ref(b'r').map(|_| &b'\r')
-    | elm_ref(b't').map(|_| &b'\t');
-  let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
+fn unquoted_char<'a>() -> Parser<'a, u8, &'a u8> {
+  let comment = elm_ref_of(b" \t").of_many1() + seq(b"//");
+  comment.attempt().not() * none_ref_of(b"{}[],#\r\n\\\"'")
+}
+
+fn string<'a>() -> Parser<'a, u8, String> {
+  let string_surround1 = string_char(none_ref_of(b"\r\n\\\""))
+    .of_many0()
+    .surround(elm_ref(b'"'), elm_ref(b'"'))
+    .map(|strings| strings.concat());
+  let string_surround2 = string_char(none_ref_of(b"\r\n\\'"))
+    .of_many0()
+    .surround(elm_ref(b'\''), elm_ref(b'\''))
+    .map(|strings| strings.concat());
+  let unquoted_string = string_char(unquoted_char())
     .of_many1()
-    .map_res(String::from_utf8);
-  let utf16_char = seq(b"\\u")
-    * elm_hex_digit()
-      .of_count(4)
-      .map_res(String::from_utf8)
-      .map_res(|digits| u16::from_str_radix(&digits, 16));
-  let utf16_string = utf16_char.of_many1().map(|chars| {
-    decode_utf16(chars)
-      .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-      .collect::<String>()
-  });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many0();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+    .map(|strings| strings.concat().trim_end().to_string());
+  (string_surround1.attempt() | string_surround2.attempt() | unquoted_string)
+    .surround(space_or_comment(), space_or_comment())
 }
 
 fn string_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 03aab5d1ce774ce913407c84f39dad0745f59c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 27/51] fix: a word that only begins with null, true or false
 is a string

---
 hocon/src/parsers.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index a0b42cf..1a7fc3a 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -264,10 +264,14 @@ fn enumeration_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
     })
 }
 
+fn keyword<'a>(name: &'static [u8]) -> Parser<'a, u8, Vec<u8>> {
+  seq(name) - none_ref_of(b" \t{}[],#\r\n\\\"'").not()
+}
+
 fn simple_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"null").map(|_| ConfigValue::Null).attempt()
-    | seq(b"true").map(|_| ConfigValue::Bool(true)).attempt()
-    | seq(b"false").map(|_| ConfigValue::Bool(false)).attempt()
+  (keyword(b"null").map(|_| ConfigValue::Null).attempt()
+    | keyword(b"true").map(|_| ConfigValue::Bool(true)).attempt()
+    | keyword(b"false").map(|_| ConfigValue::Bool(false)).attempt()
     | duration_value().attempt()
     | number_value().map(ConfigValue::Number).attempt()
     | string_config_value())
-- 
2.43.0


From 96c19a22b7cb308e5360bf68c13fda8ac12bc07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 28/51] fix: expand dotted keys and merge definitions in the
 order they are written, at every level, without losing keys

---
 hocon/src/model/config_value.rs | 44 +++---------------------------
 hocon/src/parsers.rs            | 47 ++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 64 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..0e18a8c 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -75,16 +75,11 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Object(l), ConfigValue::Object(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Array(l), ConfigValue::Array(r)) => {
-        l.merge_with(r);
-      }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
-      (l @ ConfigValue::Link(..), r) => {
-        let mut cv = l.get_value_link().unwrap().value.clone();
-        cv.merge_with(r);
-        l.push(cv);
+      (l, r) => {
+        for cv in r.to_vec() {
+          l.push(cv);
+        }
       }
-      (..) => {}
     }
   }
 }
@@ -123,37 +118,6 @@ impl ConfigResolver for ConfigValue {
           *cva = ConfigValue::Array(ConfigArrayValue::new(m));
         }
       }
-      (ConfigValue::Object(cov), None) => {
-        let mut new_key_values = HashMap::new();
-        for (key, cv) in &cov.0 {
-          if key.contains(".") {
-            let mut keys = key.split(".").collect::<Vec<_>>();
-            keys.reverse();
-            let mut leaf_map = HashMap::new();
-            let mut mcv = cv.clone();
-            mcv.resolve(None);
-            leaf_map.insert(keys[0].to_string(), mcv);
-            let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
-            for key in &keys[1..(keys.len() - 1)] {
-              let mut node_map = HashMap::new();
-              node_map.insert(key.to_string(), new_object.clone());
-              new_object = ConfigValue::Object(ConfigObjectValue::new(node_map));
-            }
-            let last_key = keys.last().unwrap().to_string();
-            match new_key_values.get_mut(&last_key) {
-              None => {
-                new_key_values.insert(last_key, new_object);
-              }
-              Some(entry) => {
-                entry.merge_with(new_object);
-              }
-            }
-          }
-        }
-        if !new_key_values.is_empty() {
-          *cov = ConfigObjectValue::new(new_key_values);
-        }
-      }
       (cvo @ ConfigValue::Object(..), Some(..)) => {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 1a7fc3a..5a8122b 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -195,18 +195,28 @@ fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
   let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> = lazy(property).of_many0_sep(comma().opt()) - comma().opt();
   let obj: Parser<'a, u8, Vec<(String, ConfigValue)>> =
     properties.surround(object_left_bracket(), object_right_bracket());
-  obj.map(|properties| {
-    let m: HashMap<String, ConfigValue> = HashMap::new();
-    properties.into_iter().fold(m, |mut r, e| {
-      match r.get_mut(&e.0) {
-        Some(v) => v.push(e.1),
-        None => {
-          r.insert(e.0, e.1);
-        }
-      };
-      r
-    })
-  })
+  obj.map(merge_properties)
+}
+
+/// Merges the properties in the order of their definition. A dotted key defines nested objects.
+fn merge_properties(properties: Vec<(String, ConfigValue)>) -> HashMap<String, ConfigValue> {
+  let mut key_values: HashMap<String, ConfigValue> = HashMap::new();
+  for (path, value) in properties {
+    let mut keys = path.split('.').rev().map(String::from).collect::<Vec<_>>();
+    let key = keys.pop().unwrap();
+    let value = keys.into_iter().fold(value, |value, key| {
+      ConfigValue::Object(ConfigObjectValue::from((key, value)))
+    });
+    match key_values.get_mut(&key) {
+      None => {
+        key_values.insert(key, value);
+      }
+      Some(cv) => {
+        cv.merge_with(value);
+      }
+    }
+  }
+  key_values
 }
 
 fn path_element<'a>() -> Parser<'a, u8, &'a [u8]> {
@@ -290,18 +300,7 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
   (property_config_value().of_many1_sep(comma().opt()) - comma().opt())
     .map(|values: Vec<(String, ConfigValue)>| {
-      let map = values.into_iter().fold(HashMap::new(), |mut key_values, (k, v)| {
-        match key_values.get_mut(&k) {
-          None => {
-            key_values.insert(k, v);
-          }
-          Some(cv) => {
-            cv.merge_with(v);
-          }
-        }
-        key_values
-      });
-      vec![ConfigValue::Object(ConfigObjectValue::new(map))]
+      vec![ConfigValue::Object(ConfigObjectValue::new(merge_properties(values)))]
     })
     .attempt()
     | include_config_value().of_many1().attempt()
-- 
2.43.0


From 2e42e47cba23b42375487e99fd572e688cca8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 29/51] fix: resolve references wherever they stand, follow
 chains, keep the latest previous value, and report an unresolvable or cyclic
 one as an error

---
 hocon/src/model.rs              |   5 +-
 hocon/src/model/config_value.rs | 244 ++++++++++++++++++--------------
 2 files changed, 138 insertions(+), 111 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..bd2e8a0 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -80,12 +80,15 @@ impl ConfigFactory {
       .to_result()
       .map(|config_values| Self::resolve_stage0(&config_values))
       .map(|config_value| Self::resolve_stage1(&config_value))
-      .map(|config_value| Config::new(config_value))
       .map_err(|pe| {
         let msg = pe.to_string();
         let input_string = pe.input_string();
         ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
       })
+      .and_then(|config_value| match config_value.unresolved_reference() {
+        Some(path) => Err(ConfigError::ParseError(format!("Cannot resolve the reference: {}", path))),
+        None => Ok(Config::new(config_value)),
+      })
   }
 
   fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 0e18a8c..496b949 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -94,94 +94,154 @@ impl ConfigResolver for ConfigValue {
           .unwrap();
         *cvi = c.to_config_value().clone();
       }
-      (cvl @ ConfigValue::Link(..), Some(..)) => {
-        let cvs = cvl.to_vec();
-        if !cvs.is_empty() {
-          let mut head = cvs[0].clone();
-          head.resolve(source);
-          for e in &cvs[1..] {
-            let mut ee = e.clone();
-            ee.resolve(source);
-            head.push(ee.clone());
-          }
-          *cvl = head;
-        }
+      (cv, Some(src)) => {
+        *cv = cv.resolved(src, &mut vec![]).unwrap_or(ConfigValue::Null);
       }
-      (cva @ ConfigValue::Array(..), Some(..)) => {
-        let av = cva.get_array_value().unwrap();
-        let mut m = vec![];
-        for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source);
-          m.push(cv);
-        }
-        if !av.0.is_empty() {
-          *cva = ConfigValue::Array(ConfigArrayValue::new(m));
+      _ => {}
+    }
+  }
+}
+
+impl ConfigValue {
+  /// The value without references, `None` if nothing but missing optional references defines it.
+  /// A reference that cannot be resolved is left as it is. `seen` holds the paths being looked up: a reference to
+  /// one of them means the value that was defined before it.
+  fn resolved(&self, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+    match self {
+      ConfigValue::Link(..) | ConfigValue::Reference { .. } => {
+        let mut result: Option<ConfigValue> = None;
+        for cv in self.effective_definitions() {
+          let value = match cv.ref_name() {
+            Some(path) if seen.contains(path) => {
+              result = result.or_else(|| cv.unresolved());
+              break;
+            }
+            Some(path) => cv.referred(path, source, seen),
+            None => cv.resolved(source, seen),
+          };
+          result = match (result, value) {
+            (Some(ConfigValue::Object(mut l)), Some(ConfigValue::Object(r))) => {
+              l.merge_with(r);
+              ConfigValue::Object(l).resolved(source, seen)
+            }
+            (result, None) => result,
+            (_, value) => value,
+          };
         }
+        result
       }
-      (cvo @ ConfigValue::Object(..), Some(..)) => {
-        let ov = cvo.get_object_value().unwrap();
-        let mut key_values = HashMap::new();
-        for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source);
-          key_values.insert(key, cv);
-        }
-        if !key_values.is_empty() {
-          *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
-        }
+      ConfigValue::Array(cav) => {
+        let values = cav.0.iter().filter_map(|cv| cv.resolved(source, seen)).collect();
+        Some(ConfigValue::Array(ConfigArrayValue::new(values)))
       }
-      (cvr @ ConfigValue::Enumeration { .. }, Some(_)) => match cvr {
-        ConfigValue::Enumeration { prev, values, .. } => {
-          let mut result = String::new();
-          for cv in &mut values.0 {
-            println!("cv = {:?}", cv);
-            cv.resolve(source);
-            println!("cv = {:?}", cv);
-            match cv {
-              ConfigValue::String(s) => {
-                println!("s = {}", s);
-                result.push_str(s);
-              }
-              _ => {}
-            }
-          }
-          if result.is_empty() {
-            *cvr = prev.clone().unwrap().prev_latest().clone();
-          } else {
-            *cvr = ConfigValue::String(result);
+      ConfigValue::Object(cov) => {
+        let mut key_values = HashMap::new();
+        for (key, cv) in &cov.0 {
+          if let Some(value) = cv.resolved(source, seen) {
+            key_values.insert(key.clone(), value);
           }
         }
-        _ => {}
-      },
-      (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
-        let mut ref_value = src
-          .get_value(cvr.ref_name().unwrap())
-          .cloned()
-          .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
-        match ref_value.as_mut() {
-          Some(ref_value_mut) => {
-            ref_value_mut.resolve(source);
+        Some(ConfigValue::Object(ConfigObjectValue::new(key_values)))
+      }
+      ConfigValue::Enumeration { prev, values } => {
+        let mut result = String::new();
+        for cv in &values.0 {
+          if let Some(ConfigValue::String(s)) = cv.resolved(source, seen) {
+            result.push_str(&s);
           }
-          _ => {}
         }
-        if cvr.ref_missing().unwrap() {
-          if ref_value.is_some() {
-            *cvr = ref_value.unwrap();
-          } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
-          }
+        if result.is_empty() {
+          prev.as_ref().and_then(|prev| prev.resolved(source, seen))
         } else {
-          if ref_value.is_none() {
-            panic!("Cannot resolve the reference: {}", cvr.ref_name().unwrap())
-          }
-          *cvr = ref_value.unwrap();
+          Some(ConfigValue::String(result))
         }
       }
-      _ => {}
+      cv => Some(cv.clone()),
+    }
+  }
+
+  /// The value a reference stands for.
+  fn referred(&self, path: &String, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+    seen.push(path.clone());
+    let value = source
+      .find(path, source, seen)
+      .and_then(|cv| cv.resolved(source, seen))
+      .or_else(|| env::var(path).ok().map(ConfigValue::String));
+    seen.pop();
+    value.or_else(|| self.unresolved())
+  }
+
+  /// The reference itself, unless it is an optional one.
+  fn unresolved(&self) -> Option<Self> {
+    match self {
+      ConfigValue::Reference { missing: true, .. } => None,
+      cv => Some(cv.clone()),
+    }
+  }
+
+  /// The definition at the path, where references have been followed on the way but not in the result.
+  fn find(&self, path: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+    let mut keys = path.split('.');
+    let first = self.as_object()?.get(keys.next()?)?.clone();
+    keys.try_fold(first, |cv, key| {
+      cv.container(source, seen)?.as_object()?.get(key).cloned()
+    })
+  }
+
+  /// The value with its members left unresolved.
+  fn container(&self, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+    let mut result: Option<ConfigValue> = None;
+    for cv in self.effective_definitions() {
+      let value = match cv.ref_name() {
+        Some(path) if seen.contains(path) => break,
+        Some(path) => {
+          seen.push(path.clone());
+          let value = source
+            .find(path, source, seen)
+            .and_then(|cv| cv.container(source, seen));
+          seen.pop();
+          value
+        }
+        None => Some(cv),
+      };
+      result = match (result, value) {
+        (Some(mut l @ ConfigValue::Object(..)), Some(r @ ConfigValue::Object(..))) => {
+          l.merge_with(r);
+          Some(l)
+        }
+        (result, None) => result,
+        (_, value) => value,
+      };
+    }
+    result
+  }
+
+  /// The definitions from the last one on that replaces those in front of it.
+  fn effective_definitions(&self) -> Vec<ConfigValue> {
+    let mut definitions = match self {
+      ConfigValue::Reference { prev: Some(prev), .. } => {
+        let mut definitions = prev.to_vec();
+        definitions.push(self.clone());
+        definitions
+      }
+      cv => cv.to_vec(),
+    };
+    let replacing = definitions
+      .iter()
+      .rposition(|cv| !matches!(cv, ConfigValue::Object(..) | ConfigValue::Reference { .. }));
+    definitions.split_off(replacing.unwrap_or(0))
+  }
+
+  /// The path of a reference that could not be resolved.
+  pub(crate) fn unresolved_reference(&self) -> Option<String> {
+    match self {
+      ConfigValue::Reference { path, .. } => Some(path.clone()),
+      ConfigValue::Array(cav) => cav.0.iter().find_map(|cv| cv.unresolved_reference()),
+      ConfigValue::Object(cov) => cov.0.values().find_map(|cv| cv.unresolved_reference()),
+      _ => None,
     }
   }
-}
 
-impl ConfigValue {
   pub fn of_reference(prev: Option<Rc<ConfigValue>>, path: String, missing: bool) -> Self {
     ConfigValue::Reference { prev, path, missing }
   }
@@ -300,7 +360,6 @@ impl ConfigValue {
   }
 
   pub fn prev_latest(&self) -> &Self {
-    println!("self = {:?}", self);
     match self {
       ConfigValue::Link(cv) => match &*(cv.prev) {
         ConfigValue::Link(prev_cv) => {
@@ -351,13 +410,6 @@ impl ConfigValue {
     *self = ConfigValue::Link(Rc::new(cvl))
   }
 
-  fn ref_prev(&self) -> &Option<Rc<ConfigValue>> {
-    match self {
-      ConfigValue::Reference { prev, .. } => prev,
-      _ => &None,
-    }
-  }
-
   fn ref_name(&self) -> Option<&String> {
     match self {
       ConfigValue::Reference { path: ref_name, .. } => Some(ref_name),
@@ -365,40 +417,12 @@ impl ConfigValue {
     }
   }
 
-  fn ref_missing(&self) -> Option<bool> {
-    match self {
-      ConfigValue::Reference { missing, .. } => Some(*missing),
-      _ => None,
-    }
-  }
-
   fn get_include_value(&self) -> Option<&ConfigIncludeValue> {
     match self {
       ConfigValue::Include(civ) => Some(civ),
       _ => None,
     }
   }
-
-  fn get_object_value(&self) -> Option<&ConfigObjectValue> {
-    match self {
-      ConfigValue::Object(cov) => Some(cov),
-      _ => None,
-    }
-  }
-
-  fn get_array_value(&self) -> Option<&ConfigArrayValue> {
-    match self {
-      ConfigValue::Array(cav) => Some(cav),
-      _ => None,
-    }
-  }
-
-  fn get_value_link(&self) -> Option<&ConfigValueLink> {
-    match self {
-      ConfigValue::Link(cvl) => Some(&*cvl),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3318c9214833e65ab48695975b37b5677a8d8a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 30/51] fix: load_from_file reports a file that cannot be read

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index bd2e8a0..65cf4a7 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -70,7 +70,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From b151a9e2f3b5848fbd81387ab797d18cb421bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 31/51] fix: an empty document is an empty configuration

---
 hocon/src/model.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 65cf4a7..3d2c281 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -98,12 +99,14 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
-    cur.resolve(None);
-    for cv in &config_values[1..] {
-      let mut t = cv.clone();
-      t.resolve(None);
-      cur.merge_with(t);
+    let mut values = config_values.iter().cloned().map(|mut cv| {
+      cv.resolve(None);
+      cv
+    });
+    let empty = ConfigValue::Object(ConfigObjectValue::new(HashMap::new()));
+    let mut cur = values.next().unwrap_or(empty);
+    for cv in values {
+      cur.merge_with(cv);
     }
     cur
   }
-- 
2.43.0


From 2be2394ce624f0c17120e5ea32bb660fbb4c4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 32/51] fix: include reads the named file instead of panicking;
 a missing file includes nothing, a broken or cyclic one is an error

---
 hocon/src/model.rs                      |  2 +-
 hocon/src/model/config_include_value.rs |  2 +-
 hocon/src/model/config_value.rs         | 36 +++++++++++++++++++------
 hocon/src/parsers.rs                    | 14 +++++++---
 4 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 3d2c281..14dc395 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -87,7 +87,7 @@ impl ConfigFactory {
         ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
       })
       .and_then(|config_value| match config_value.unresolved_reference() {
-        Some(path) => Err(ConfigError::ParseError(format!("Cannot resolve the reference: {}", path))),
+        Some(reference) => Err(ConfigError::ParseError(format!("Cannot resolve: {}", reference))),
         None => Ok(Config::new(config_value)),
       })
   }
diff --git a/hocon/src/model/config_include_value.rs b/hocon/src/model/config_include_value.rs
index f3414b4..ecf093e 100644
--- a/hocon/src/model/config_include_value.rs
+++ b/hocon/src/model/config_include_value.rs
@@ -8,7 +8,7 @@ pub struct ConfigIncludeValue {
 
 impl Display for ConfigIncludeValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-    write!(f, "include {}({})", self.method, self.file_name)
+    write!(f, "include {}(\"{}\")", self.method, self.file_name)
   }
 }
 
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 496b949..7092048 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -1,6 +1,7 @@
 use chrono::Duration;
 use oni_comb_parser_rs::prelude::ParserRunner;
 use rust_decimal::Decimal;
+use std::cell::RefCell;
 use std::collections::HashMap;
 use std::env;
 use std::fmt::{Display, Formatter};
@@ -12,9 +13,14 @@ use crate::model::config_include_value::ConfigIncludeValue;
 use crate::model::config_number_value::ConfigNumberValue;
 use crate::model::config_object_value::ConfigObjectValue;
 use crate::model::config_value_link::ConfigValueLink;
-use crate::model::{ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
+use crate::model::{ConfigError, ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
 use crate::parsers::key;
 
+thread_local! {
+  /// The files being included, so that a file that includes itself is noticed.
+  static INCLUDING: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub enum ConfigValue {
   Null,
@@ -88,11 +94,21 @@ impl ConfigResolver for ConfigValue {
   fn resolve(&mut self, source: Option<&Self>) {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => {
-        let mut config_factory = ConfigFactory::new();
-        let c = config_factory
-          .load_from_file(&cvi.get_include_value().unwrap().file_name)
-          .unwrap();
-        *cvi = c.to_config_value().clone();
+        let file_name = cvi.get_include_value().unwrap().file_name.clone();
+        let is_including = INCLUDING.with(|files| files.borrow().contains(&file_name));
+        if !is_including {
+          INCLUDING.with(|files| files.borrow_mut().push(file_name.clone()));
+          let config = ConfigFactory::new().load_from_file(&file_name);
+          INCLUDING.with(|files| files.borrow_mut().pop());
+          match config {
+            Ok(c) => *cvi = c.to_config_value().clone(),
+            // A file that is not there includes nothing.
+            Err(ConfigError::FileNotFoundError) => {
+              *cvi = ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))
+            }
+            Err(_) => {}
+          }
+        }
       }
       (cv, Some(src)) => {
         *cv = cv.resolved(src, &mut vec![]).unwrap_or(ConfigValue::Null);
@@ -232,10 +248,14 @@ impl ConfigValue {
     definitions.split_off(replacing.unwrap_or(0))
   }
 
-  /// The path of a reference that could not be resolved.
+  /// The reference that could not be resolved, or the file that could not be included.
   pub(crate) fn unresolved_reference(&self) -> Option<String> {
     match self {
-      ConfigValue::Reference { path, .. } => Some(path.clone()),
+      ConfigValue::Reference { .. } | ConfigValue::Include(..) => Some(self.to_string()),
+      ConfigValue::Link(cvl) => cvl
+        .prev
+        .unresolved_reference()
+        .or_else(|| cvl.value.unresolved_reference()),
       ConfigValue::Array(cav) => cav.0.iter().find_map(|cv| cv.unresolved_reference()),
       ConfigValue::Object(cov) => cov.0.values().find_map(|cv| cv.unresolved_reference()),
       _ => None,
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5a8122b..9f15034 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -29,8 +29,13 @@ fn include_method<'a>() -> Parser<'a, u8, String> {
 }
 
 fn include_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"include") * elm(b' ') * include_method() + path().surround(seq(b"(\""), seq(b"\")")))
-    .map(|(method, path)| ConfigValue::Include(ConfigIncludeValue::new(method, format!("\"{}\"", path))))
+  let file_name = none_ref_of(b"\"\r\n")
+    .of_many1()
+    .collect()
+    .map_res(std::str::from_utf8)
+    .map(String::from);
+  (seq(b"include") * elm(b' ') * include_method() + file_name.surround(seq(b"(\""), seq(b"\")")))
+    .map(|(method, file_name)| ConfigValue::Include(ConfigIncludeValue::new(method, file_name)))
 }
 
 fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Option<String>)> {
@@ -303,7 +308,10 @@ fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
       vec![ConfigValue::Object(ConfigObjectValue::new(merge_properties(values)))]
     })
     .attempt()
-    | include_config_value().of_many1().attempt()
+    | include_config_value()
+      .surround(space_or_comment(), space_or_comment())
+      .of_many1()
+      .attempt()
     | (object_config_value().attempt() | array_config_value()).of_many0()
 }
 
-- 
2.43.0


From c50f2d0cbfafb062ddc0dfb4ef53c67c23935865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 33/51] fix: print strings and keys so that the printed
 configuration loads back

---
 hocon/src/model/config_object_value.rs |  6 ++++--
 hocon/src/model/config_value.rs        | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/hocon/src/model/config_object_value.rs b/hocon/src/model/config_object_value.rs
index de1c8f5..7ad4dce 100644
--- a/hocon/src/model/config_object_value.rs
+++ b/hocon/src/model/config_object_value.rs
@@ -1,4 +1,4 @@
-use crate::model::config_value::ConfigValue;
+use crate::model::config_value::{quoted, ConfigValue};
 use crate::model::{ConfigMergeable, Monoid};
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
@@ -14,7 +14,9 @@ impl Display for ConfigObjectValue {
       if !s.is_empty() {
         s.push_str(", ");
       }
-      let line = format!("{} = {}", k, v);
+      let is_plain = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphabetic() || c == '-' || c == '_');
+      let key = if is_plain { k.clone() } else { quoted(k) };
+      let line = format!("{} = {}", key, v);
       s.push_str(&line);
     }
     write!(f, "{{ {} }}", s)
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 7092048..1cc9e64 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -43,12 +43,27 @@ pub enum ConfigValue {
   Link(Rc<ConfigValueLink>),
 }
 
+/// The text in double quotes, with escape sequences for what cannot stand there as it is.
+pub(crate) fn quoted(text: &str) -> String {
+  let mut result = String::from("\"");
+  for c in text.chars() {
+    match c {
+      '"' | '\\' => result.extend(['\\', c]),
+      '\n' => result.push_str("\\n"),
+      '\r' => result.push_str("\\r"),
+      c => result.push(c),
+    }
+  }
+  result.push('"');
+  result
+}
+
 impl Display for ConfigValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     let s = match self {
       ConfigValue::Null => "null".to_string(),
       ConfigValue::Bool(value) => value.to_string(),
-      ConfigValue::String(value) => format!("\"{}\"", value.to_string()),
+      ConfigValue::String(value) => quoted(value),
       ConfigValue::Number(cnv) => cnv.to_string(),
       ConfigValue::Duration(cdv) => cdv.to_string(),
       ConfigValue::Array(cav) => cav.to_string(),
-- 
2.43.0


From 68ce262099b43bfeaac6435f426d12a047902d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 34/51] fix: merging resolved objects does not follow their
 references again, and one broken include fails the document

---
 hocon/src/model.rs              | 43 +++++++++++++++------------------
 hocon/src/model/config_value.rs | 31 +++++++++++++++++-------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 14dc395..327c849 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -76,20 +76,16 @@ impl ConfigFactory {
   }
 
   pub fn parse_from_string(&self, text: &str) -> Result<Config, ConfigError> {
-    hocon()
-      .parse(text.as_bytes())
-      .to_result()
-      .map(|config_values| Self::resolve_stage0(&config_values))
-      .map(|config_value| Self::resolve_stage1(&config_value))
-      .map_err(|pe| {
-        let msg = pe.to_string();
-        let input_string = pe.input_string();
-        ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
-      })
-      .and_then(|config_value| match config_value.unresolved_reference() {
-        Some(reference) => Err(ConfigError::ParseError(format!("Cannot resolve: {}", reference))),
-        None => Ok(Config::new(config_value)),
-      })
+    let config_values = hocon().parse(text.as_bytes()).to_result().map_err(|pe| {
+      let msg = pe.to_string();
+      let input_string = pe.input_string();
+      ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
+    })?;
+    let config_value = Self::resolve_stage1(&Self::resolve_stage0(&config_values)?);
+    match config_value.unresolved_reference() {
+      Some(path) => Err(ConfigError::ParseError(format!("Cannot resolve the reference: {}", path))),
+      None => Ok(Config::new(config_value)),
+    }
   }
 
   fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
@@ -98,17 +94,18 @@ impl ConfigFactory {
     c
   }
 
-  fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut values = config_values.iter().cloned().map(|mut cv| {
+  fn resolve_stage0(config_values: &Vec<ConfigValue>) -> Result<ConfigValue, ConfigError> {
+    let mut result: Option<ConfigValue> = None;
+    for config_value in config_values {
+      let mut cv = config_value.clone();
       cv.resolve(None);
-      cv
-    });
-    let empty = ConfigValue::Object(ConfigObjectValue::new(HashMap::new()));
-    let mut cur = values.next().unwrap_or(empty);
-    for cv in values {
-      cur.merge_with(cv);
+      match (&mut result, cv) {
+        (_, ConfigValue::Include(civ)) => return Err(ConfigError::ParseError(format!("Cannot resolve: {}", civ))),
+        (None, cv) => result = Some(cv),
+        (Some(cur), cv) => cur.merge_with(cv),
+      }
     }
-    cur
+    Ok(result.unwrap_or_else(|| ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))))
   }
 }
 
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 1cc9e64..2e27a1c 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -151,9 +151,9 @@ impl ConfigValue {
             None => cv.resolved(source, seen),
           };
           result = match (result, value) {
-            (Some(ConfigValue::Object(mut l)), Some(ConfigValue::Object(r))) => {
-              l.merge_with(r);
-              ConfigValue::Object(l).resolved(source, seen)
+            (Some(mut l @ ConfigValue::Object(..)), Some(r @ ConfigValue::Object(..))) => {
+              l.override_with(r);
+              Some(l)
             }
             (result, None) => result,
             (_, value) => value,
@@ -191,6 +191,23 @@ impl ConfigValue {
     }
   }
 
+  /// Like `merge_with`, but what is overridden is gone.
+  fn override_with(&mut self, other: Self) {
+    match (self, other) {
+      (ConfigValue::Object(l), ConfigValue::Object(r)) => {
+        for (key, cv) in r.0 {
+          match l.0.get_mut(&key) {
+            None => {
+              l.0.insert(key, cv);
+            }
+            Some(entry) => entry.override_with(cv),
+          }
+        }
+      }
+      (l, r) => *l = r,
+    }
+  }
+
   /// The value a reference stands for.
   fn referred(&self, path: &String, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
     seen.push(path.clone());
@@ -263,14 +280,10 @@ impl ConfigValue {
     definitions.split_off(replacing.unwrap_or(0))
   }
 
-  /// The reference that could not be resolved, or the file that could not be included.
+  /// The path of a reference that could not be resolved.
   pub(crate) fn unresolved_reference(&self) -> Option<String> {
     match self {
-      ConfigValue::Reference { .. } | ConfigValue::Include(..) => Some(self.to_string()),
-      ConfigValue::Link(cvl) => cvl
-        .prev
-        .unresolved_reference()
-        .or_else(|| cvl.value.unresolved_reference()),
+      ConfigValue::Reference { path, .. } => Some(path.clone()),
       ConfigValue::Array(cav) => cav.0.iter().find_map(|cv| cv.unresolved_reference()),
       ConfigValue::Object(cov) => cov.0.values().find_map(|cv| cv.unresolved_reference()),
       _ => None,
-- 
2.43.0


From f4d251c1db104cc15cbdf268ff79c464b997ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 35/51] fix: a reference in progress is recognised by its
 place, so later definitions of a self-referring key are not lost

---
 hocon/src/model/config_value.rs | 98 ++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 2e27a1c..ae32739 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -43,6 +43,14 @@ pub enum ConfigValue {
   Link(Rc<ConfigValueLink>),
 }
 
+fn member_location(location: &str, key: &str) -> String {
+  if location.is_empty() {
+    key.to_string()
+  } else {
+    format!("{}.{}", location, key)
+  }
+}
+
 /// The text in double quotes, with escape sequences for what cannot stand there as it is.
 pub(crate) fn quoted(text: &str) -> String {
   let mut result = String::from("\"");
@@ -126,7 +134,7 @@ impl ConfigResolver for ConfigValue {
         }
       }
       (cv, Some(src)) => {
-        *cv = cv.resolved(src, &mut vec![]).unwrap_or(ConfigValue::Null);
+        *cv = cv.resolved("", src, &mut vec![]).unwrap_or(ConfigValue::Null);
       }
       _ => {}
     }
@@ -135,40 +143,49 @@ impl ConfigResolver for ConfigValue {
 
 impl ConfigValue {
   /// The value without references, `None` if nothing but missing optional references defines it.
-  /// A reference that cannot be resolved is left as it is. `seen` holds the paths being looked up: a reference to
-  /// one of them means the value that was defined before it.
-  fn resolved(&self, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+  /// A reference that cannot be resolved is left as it is. `seen` holds the references being followed, by their
+  /// location: where one of them is met again, the value is the one that was defined before it.
+  fn resolved(&self, location: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
     match self {
       ConfigValue::Link(..) | ConfigValue::Reference { .. } => {
         let mut result: Option<ConfigValue> = None;
-        for cv in self.effective_definitions() {
+        for (i, cv) in self.effective_definitions().into_iter().enumerate() {
           let value = match cv.ref_name() {
-            Some(path) if seen.contains(path) => {
-              result = result.or_else(|| cv.unresolved());
-              break;
+            Some(path) => {
+              let id = format!("{}#{}", location, i);
+              if seen.contains(&id) {
+                return result.or_else(|| cv.unresolved());
+              }
+              seen.push(id);
+              let value = source
+                .find(path, source, seen)
+                .and_then(|cv| cv.resolved(path, source, seen))
+                .or_else(|| env::var(path).ok().map(ConfigValue::String))
+                .or_else(|| cv.unresolved());
+              seen.pop();
+              value
             }
-            Some(path) => cv.referred(path, source, seen),
-            None => cv.resolved(source, seen),
-          };
-          result = match (result, value) {
-            (Some(mut l @ ConfigValue::Object(..)), Some(r @ ConfigValue::Object(..))) => {
-              l.override_with(r);
-              Some(l)
-            }
-            (result, None) => result,
-            (_, value) => value,
+            None => cv.resolved(location, source, seen),
           };
+          match (&mut result, value) {
+            (Some(l), Some(r)) => l.override_with(r),
+            (l, Some(r)) => *l = Some(r),
+            (_, None) => {}
+          }
         }
         result
       }
       ConfigValue::Array(cav) => {
-        let values = cav.0.iter().filter_map(|cv| cv.resolved(source, seen)).collect();
+        let mut values = vec![];
+        for (i, cv) in cav.0.iter().enumerate() {
+          values.extend(cv.resolved(&format!("{}.{}", location, i), source, seen));
+        }
         Some(ConfigValue::Array(ConfigArrayValue::new(values)))
       }
       ConfigValue::Object(cov) => {
         let mut key_values = HashMap::new();
         for (key, cv) in &cov.0 {
-          if let Some(value) = cv.resolved(source, seen) {
+          if let Some(value) = cv.resolved(&member_location(location, key), source, seen) {
             key_values.insert(key.clone(), value);
           }
         }
@@ -176,13 +193,13 @@ impl ConfigValue {
       }
       ConfigValue::Enumeration { prev, values } => {
         let mut result = String::new();
-        for cv in &values.0 {
-          if let Some(ConfigValue::String(s)) = cv.resolved(source, seen) {
+        for (i, cv) in values.0.iter().enumerate() {
+          if let Some(ConfigValue::String(s)) = cv.resolved(&format!("{}.{}", location, i), source, seen) {
             result.push_str(&s);
           }
         }
         if result.is_empty() {
-          prev.as_ref().and_then(|prev| prev.resolved(source, seen))
+          prev.as_ref().and_then(|prev| prev.resolved(location, source, seen))
         } else {
           Some(ConfigValue::String(result))
         }
@@ -208,17 +225,6 @@ impl ConfigValue {
     }
   }
 
-  /// The value a reference stands for.
-  fn referred(&self, path: &String, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
-    seen.push(path.clone());
-    let value = source
-      .find(path, source, seen)
-      .and_then(|cv| cv.resolved(source, seen))
-      .or_else(|| env::var(path).ok().map(ConfigValue::String));
-    seen.pop();
-    value.or_else(|| self.unresolved())
-  }
-
   /// The reference itself, unless it is an optional one.
   fn unresolved(&self) -> Option<Self> {
     match self {
@@ -230,23 +236,29 @@ impl ConfigValue {
   /// The definition at the path, where references have been followed on the way but not in the result.
   fn find(&self, path: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
     let mut keys = path.split('.');
-    let first = self.as_object()?.get(keys.next()?)?.clone();
-    keys.try_fold(first, |cv, key| {
-      cv.container(source, seen)?.as_object()?.get(key).cloned()
-    })
+    let mut location = keys.next()?.to_string();
+    let mut result = self.as_object()?.get(&location)?.clone();
+    for key in keys {
+      result = result.container(&location, source, seen)?.as_object()?.get(key)?.clone();
+      location = member_location(&location, key);
+    }
+    Some(result)
   }
 
   /// The value with its members left unresolved.
-  fn container(&self, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+  fn container(&self, location: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
     let mut result: Option<ConfigValue> = None;
-    for cv in self.effective_definitions() {
+    for (i, cv) in self.effective_definitions().into_iter().enumerate() {
       let value = match cv.ref_name() {
-        Some(path) if seen.contains(path) => break,
         Some(path) => {
-          seen.push(path.clone());
+          let id = format!("{}#{}", location, i);
+          if seen.contains(&id) {
+            return result;
+          }
+          seen.push(id);
           let value = source
             .find(path, source, seen)
-            .and_then(|cv| cv.container(source, seen));
+            .and_then(|cv| cv.container(path, source, seen));
           seen.pop();
           value
         }
-- 
2.43.0


From 4ea7b9dede603449125ff6e9ad8d9d78302faf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 36/51] fix: the unit of a duration stands on the same line as
 its number

---
 hocon/src/parsers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 9f15034..79d0217 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -46,9 +46,7 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), space_or_comment())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  number.map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
@@ -75,7 +73,9 @@ fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
   let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
   let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  // The unit stands on the same line: the next line may begin with a key like "d" or "max".
+  let blanks = elm_ref_of(b" \t").of_many0();
+  number_value() - blanks + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From e57e44b9dcba0baea9aa0671b605dab477fd0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 37/51] fix: a reference through an object sees an environment
 value that overrides it, and what other definitions of its key refer to

---
 hocon/src/model/config_value.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index ae32739..c0e3726 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -51,6 +51,12 @@ fn member_location(location: &str, key: &str) -> String {
   }
 }
 
+/// Identifies a reference by its location and path, and by how many of the definitions after it have the same path.
+fn reference_id(location: &str, path: &str, after: &[ConfigValue]) -> String {
+  let same = |cv: &&ConfigValue| cv.ref_name().is_some_and(|p| p == path);
+  format!("{}#{}#{}", location, path, after.iter().filter(same).count())
+}
+
 /// The text in double quotes, with escape sequences for what cannot stand there as it is.
 pub(crate) fn quoted(text: &str) -> String {
   let mut result = String::from("\"");
@@ -149,10 +155,11 @@ impl ConfigValue {
     match self {
       ConfigValue::Link(..) | ConfigValue::Reference { .. } => {
         let mut result: Option<ConfigValue> = None;
-        for (i, cv) in self.effective_definitions().into_iter().enumerate() {
+        let definitions = self.effective_definitions();
+        for (i, cv) in definitions.iter().enumerate() {
           let value = match cv.ref_name() {
             Some(path) => {
-              let id = format!("{}#{}", location, i);
+              let id = reference_id(location, path, &definitions[i + 1..]);
               if seen.contains(&id) {
                 return result.or_else(|| cv.unresolved());
               }
@@ -248,21 +255,23 @@ impl ConfigValue {
   /// The value with its members left unresolved.
   fn container(&self, location: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
     let mut result: Option<ConfigValue> = None;
-    for (i, cv) in self.effective_definitions().into_iter().enumerate() {
+    let definitions = self.effective_definitions();
+    for (i, cv) in definitions.iter().enumerate() {
       let value = match cv.ref_name() {
         Some(path) => {
-          let id = format!("{}#{}", location, i);
+          let id = reference_id(location, path, &definitions[i + 1..]);
           if seen.contains(&id) {
             return result;
           }
           seen.push(id);
           let value = source
             .find(path, source, seen)
-            .and_then(|cv| cv.container(path, source, seen));
+            .and_then(|cv| cv.container(path, source, seen))
+            .or_else(|| env::var(path).ok().map(ConfigValue::String));
           seen.pop();
           value
         }
-        None => Some(cv),
+        None => Some(cv.clone()),
       };
       result = match (result, value) {
         (Some(mut l @ ConfigValue::Object(..)), Some(r @ ConfigValue::Object(..))) => {
-- 
2.43.0


From aca0de4e1fe0b23d40b2e280b281225344133fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 38/51] fix: globals, parameters and assignments of the toy
 language are stored in their scope instead of in a copy of it

---
 toys/src/environment.rs | 44 ++++++++++++++++++++++++++---------------
 toys/src/interpreter.rs | 42 ++++++++++++---------------------------
 2 files changed, 41 insertions(+), 45 deletions(-)

diff --git a/toys/src/environment.rs b/toys/src/environment.rs
index 2ac3d6b..a7fbc69 100644
--- a/toys/src/environment.rs
+++ b/toys/src/environment.rs
@@ -1,36 +1,48 @@
 use crate::values::Value;
+use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
 
+/// A scope. Clones share their bindings.
 #[derive(Debug, Clone)]
 pub struct Environment {
-  bindings: HashMap<String, Value>,
+  bindings: Rc<RefCell<HashMap<String, Value>>>,
   pub(crate) next: Option<Rc<Environment>>,
 }
 
 impl Environment {
-  pub fn as_bindings_mut(&mut self) -> &mut HashMap<String, Value> {
-    &mut self.bindings
+  /// The value bound to the name in this scope or, failing that, in an outer one.
+  pub fn get(&self, name: &str) -> Option<Value> {
+    self.find_binding(name).and_then(|b| b.borrow().get(name).cloned())
   }
 
-  pub fn as_bindings(&self) -> &HashMap<String, Value> {
-    &self.bindings
+  /// Binds the name in this scope.
+  pub fn define(&self, name: String, value: Value) {
+    self.bindings.borrow_mut().insert(name, value);
   }
 
-  pub fn find_binding(&self, name: &str) -> Option<&HashMap<String, Value>> {
-    match self.bindings.get(name) {
-      Some(_) => Some(&self.bindings),
-      None => match &self.next {
-        Some(n) => {
-          let r = (*n).find_binding(name);
-          r
-        }
-        None => None,
-      },
+  /// Changes the value of the name where it is bound; a name that is not bound yet is bound in this scope.
+  pub fn assign(&self, name: String, value: Value) {
+    match self.find_binding(&name) {
+      Some(bindings) => {
+        bindings.borrow_mut().insert(name, value);
+      }
+      None => self.define(name, value),
+    }
+  }
+
+  pub fn find_binding(&self, name: &str) -> Option<&RefCell<HashMap<String, Value>>> {
+    if self.bindings.borrow().contains_key(name) {
+      Some(&self.bindings)
+    } else {
+      self.next.as_ref().and_then(|next| next.find_binding(name))
     }
   }
 
   pub fn new(bindings: HashMap<String, Value>, next: Option<Rc<Environment>>) -> Environment {
-    Self { bindings, next }
+    Self {
+      bindings: Rc::new(RefCell::new(bindings)),
+      next,
+    }
   }
 }
diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6b0621f..6c3bb24 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -23,8 +23,8 @@ impl Interpreter {
     self.function_environment.clear();
   }
 
-  pub fn get_value(&self, name: &str) -> &Value {
-    self.variable_environment.as_bindings().get(name).unwrap()
+  pub fn get_value(&self, name: &str) -> Value {
+    self.variable_environment.get(name).unwrap()
   }
 
   pub fn call_main(&mut self, expr: Rc<Expr>) -> Value {
@@ -33,8 +33,8 @@ impl Interpreter {
         for top_level in definitions {
           match &**top_level {
             Expr::GlobalVariableDefinition(name, expr) => {
-              let mut bindings = self.variable_environment.as_bindings().clone();
-              bindings.insert(name.clone(), self.interpret(expr.clone()));
+              let value = self.interpret(expr.clone());
+              self.variable_environment.define(name.clone(), value);
             }
             Expr::FunctionDefinition(name, ..) => {
               self.function_environment.insert(name.clone(), top_level.clone());
@@ -80,26 +80,12 @@ impl Interpreter {
       Expr::IntegerLiteral(value) => Value::Int(*value),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
-        let bindings_opt = self.variable_environment.find_binding(name);
-        let v = bindings_opt.unwrap().get(name).unwrap();
-        v.clone()
+        self.variable_environment.get(name).unwrap()
       }
       Expr::Assignment(name, expr) => {
-        let bindings_opt = self.variable_environment.find_binding(name);
-        if bindings_opt.is_some() {
-          let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          let r = bindings.get_mut(name).unwrap();
-          *r = value.clone();
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
-          value
-        } else {
-          let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          bindings.insert(name.clone(), value.clone());
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
-          value
-        }
+        let value = self.interpret(expr.clone());
+        self.variable_environment.assign(name.clone(), value.clone());
+        value
       }
       Expr::Block(exprs) => {
         let mut value = None;
@@ -144,11 +130,10 @@ impl Interpreter {
             .collect::<Vec<_>>();
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
-          let mut i = 0;
-          for formal_param_name in formal_params {
-            let mut bindings = self.variable_environment.as_bindings().clone();
-            bindings.insert(formal_param_name.clone(), values[i].clone());
-            i += 1;
+          for (i, formal_param_name) in formal_params.iter().enumerate() {
+            self
+              .variable_environment
+              .define(formal_param_name.clone(), values[i].clone());
           }
           let result = self.interpret(body.clone());
           self.variable_environment = backup.clone();
@@ -171,8 +156,7 @@ impl Interpreter {
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           for (param_name, param_value) in name_with_values {
-            let mut bindings = self.variable_environment.as_bindings().clone();
-            bindings.insert(param_name, param_value);
+            self.variable_environment.define(param_name, param_value);
           }
           let result = self.interpret(body.clone());
           self.variable_environment = backup.clone();
-- 
2.43.0


From ba11666a568a2a87a139a853a2cd9e612f62f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 39/51] fix: a function of the toy language does not see or
 change the variables of its caller

---
 toys/src/environment.rs |  8 ++++++++
 toys/src/interpreter.rs | 30 +++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/toys/src/environment.rs b/toys/src/environment.rs
index a7fbc69..65209f4 100644
--- a/toys/src/environment.rs
+++ b/toys/src/environment.rs
@@ -39,6 +39,14 @@ impl Environment {
     }
   }
 
+  /// The scope around all others, which holds the globals.
+  pub fn outermost(&self) -> Environment {
+    match &self.next {
+      Some(next) => next.outermost(),
+      None => self.clone(),
+    }
+  }
+
   pub fn new(bindings: HashMap<String, Value>, next: Option<Rc<Environment>>) -> Environment {
     Self {
       bindings: Rc::new(RefCell::new(bindings)),
diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6c3bb24..e2c1bff 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -42,10 +42,15 @@ impl Interpreter {
             _ => panic!("unexpected top level expression"),
           }
         }
-        let main_function = self.function_environment.get("main");
+        let main_function = self.function_environment.get("main").cloned();
         match main_function {
-          Some(mf) => match &**mf {
-            Expr::FunctionDefinition(_, _, body) => self.interpret(body.clone()),
+          Some(mf) => match &*mf {
+            Expr::FunctionDefinition(_, _, body) => {
+              let backup = self.enter_function();
+              let result = self.interpret(body.clone());
+              self.variable_environment = backup;
+              result
+            }
             _ => panic!("unexpected main function expression"),
           },
           None => panic!("No main function found"),
@@ -55,6 +60,15 @@ impl Interpreter {
     }
   }
 
+  /// Enters the scope of a function, which sees the globals but no names of its caller, and returns the scope left.
+  fn enter_function(&mut self) -> Environment {
+    let globals = self.variable_environment.outermost();
+    std::mem::replace(
+      &mut self.variable_environment,
+      Environment::new(HashMap::new(), Some(Rc::new(globals))),
+    )
+  }
+
   pub fn interpret(&mut self, expr: Rc<Expr>) -> Value {
     match &*expr {
       Expr::Binary(op, lhs, rhs) => {
@@ -128,15 +142,14 @@ impl Interpreter {
             .iter()
             .map(|actual_param| self.interpret(actual_param.clone()))
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          let backup = self.enter_function();
           for (i, formal_param_name) in formal_params.iter().enumerate() {
             self
               .variable_environment
               .define(formal_param_name.clone(), values[i].clone());
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.variable_environment = backup;
           result
         } else {
           panic!("Function {} not defined", name);
@@ -153,13 +166,12 @@ impl Interpreter {
               )
             })
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          let backup = self.enter_function();
           for (param_name, param_value) in name_with_values {
             self.variable_environment.define(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.variable_environment = backup;
           result
         } else {
           panic!("Function {} not defined", name);
-- 
2.43.0


From 357ac2b424561d0a12aaf221b596d8a1f62e9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 40/51] fix: an empty block of the toy language does not crash

---
 toys/src/interpreter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index e2c1bff..e3c8d80 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -102,11 +102,11 @@ impl Interpreter {
         value
       }
       Expr::Block(exprs) => {
-        let mut value = None;
+        let mut value = Value::Bool(true);
         for expr in exprs {
-          value = Some(self.interpret(expr.clone()));
+          value = self.interpret(expr.clone());
         }
-        value.unwrap()
+        value
       }
       Expr::Println(args) => {
         let value = self.interpret(args.clone());
-- 
2.43.0


From 00fdbfff7c3d1d13bde3af898764358724da4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 41/51] fix: boolean and array literals of the toy language
 have a value

---
 toys/src/interpreter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index e3c8d80..fa799a3 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -92,6 +92,8 @@ impl Interpreter {
       }
       Expr::StringLiteral(value) => Value::String(value.clone()),
       Expr::IntegerLiteral(value) => Value::Int(*value),
+      Expr::BoolLiteral(value) => Value::Bool(*value),
+      Expr::ArrayLiteral(values) => Value::Array(values.iter().map(|value| self.interpret(value.clone())).collect()),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
         self.variable_environment.get(name).unwrap()
-- 
2.43.0


From 495c362f94d5b5e7b31c78b82f062bc35e1f4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 42/51] fix: names of the toy language may begin with f or with
 a keyword

---
 toys/src/parsers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fb4d158..fa00580 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -61,6 +61,12 @@ fn semi_colon<'a>() -> Parser<'a, char, String> {
   space() * tag(";") - space()
 }
 
+/// The word, unless it is only the beginning of a longer one.
+fn keyword<'a>(word: &'a str) -> Parser<'a, char, String> {
+  let word_char = elm_pred(|c: &char| c.is_ascii_alphanumeric() || *c == '_');
+  (tag(word) - !word_char).attempt()
+}
+
 fn space<'a>() -> Parser<'a, char, ()> {
   elm_of(" \t\r\n").of_many0().discard()
 }
@@ -133,7 +139,7 @@ fn r#for<'a>() -> Parser<'a, char, Rc<Expr>> {
 fn r#if<'a>() -> Parser<'a, char, Rc<Expr>> {
   let r#if = tag("if") - space();
   let condition = r#if * lparen() * expression() - rparen();
-  let r#else = space() * tag("else") - space();
+  let r#else = space() * keyword("else") - space();
   let p = (condition + line() + (r#else * line()).opt()).map(|((p1, p2), p3)| Expr::of_if(p1, p2, p3));
   (space() * p - space()).attempt().name("if").cache()
 }
@@ -262,7 +268,7 @@ fn array_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let p = (tag("true").attempt() | tag("false")).map(|e| match e.as_str() {
+  let p = (keyword("true") | keyword("false")).map(|e| match e.as_str() {
     "true" => Expr::of_bool_literal(true),
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
-- 
2.43.0


From c6402dc293ad64ee04d0875dd8f0798afd87691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 43/51] fix: a text that is only in part a toy program is an
 error

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fa00580..b9a80b8 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -72,7 +72,7 @@ fn space<'a>() -> Parser<'a, char, ()> {
 }
 
 pub fn program<'a>() -> Parser<'a, char, Rc<Expr>> {
-  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new)
+  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new) - space() - end()
 }
 
 fn top_level_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
-- 
2.43.0


From e2aefdbe4a96cc41040ac3562a47623ad77ac67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 44/51] fix: a member that was overridden in an object does not
 come back when the object is merged with earlier ones

---
 hocon/src/model/config_value.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index c0e3726..d38975b 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -132,9 +132,7 @@ impl ConfigResolver for ConfigValue {
           match config {
             Ok(c) => *cvi = c.to_config_value().clone(),
             // A file that is not there includes nothing.
-            Err(ConfigError::FileNotFoundError) => {
-              *cvi = ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))
-            }
+            Err(ConfigError::FileNotFoundError) => *cvi = ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
             Err(_) => {}
           }
         }
@@ -152,9 +150,14 @@ impl ConfigValue {
   /// A reference that cannot be resolved is left as it is. `seen` holds the references being followed, by their
   /// location: where one of them is met again, the value is the one that was defined before it.
   fn resolved(&self, location: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
+    self.resolved_onto(None, location, source, seen)
+  }
+
+  /// Like `resolved`, for a value defined after the resolved `base`.
+  fn resolved_onto(&self, base: Option<Self>, location: &str, source: &Self, seen: &mut Vec<String>) -> Option<Self> {
     match self {
       ConfigValue::Link(..) | ConfigValue::Reference { .. } => {
-        let mut result: Option<ConfigValue> = None;
+        let mut result = base;
         let definitions = self.effective_definitions();
         for (i, cv) in definitions.iter().enumerate() {
           let value = match cv.ref_name() {
@@ -172,7 +175,10 @@ impl ConfigValue {
               seen.pop();
               value
             }
-            None => cv.resolved(location, source, seen),
+            None => {
+              result = cv.resolved_onto(result, location, source, seen);
+              continue;
+            }
           };
           match (&mut result, value) {
             (Some(l), Some(r)) => l.override_with(r),
@@ -190,9 +196,13 @@ impl ConfigValue {
         Some(ConfigValue::Array(ConfigArrayValue::new(values)))
       }
       ConfigValue::Object(cov) => {
-        let mut key_values = HashMap::new();
+        let mut key_values = match base {
+          Some(ConfigValue::Object(base)) => base.0,
+          _ => HashMap::new(),
+        };
         for (key, cv) in &cov.0 {
-          if let Some(value) = cv.resolved(&member_location(location, key), source, seen) {
+          let base = key_values.remove(key);
+          if let Some(value) = cv.resolved_onto(base, &member_location(location, key), source, seen) {
             key_values.insert(key.clone(), value);
           }
         }
@@ -246,7 +256,11 @@ impl ConfigValue {
     let mut location = keys.next()?.to_string();
     let mut result = self.as_object()?.get(&location)?.clone();
     for key in keys {
-      result = result.container(&location, source, seen)?.as_object()?.get(key)?.clone();
+      result = result
+        .container(&location, source, seen)?
+        .as_object()?
+        .get(key)?
+        .clone();
       location = member_location(&location, key);
     }
     Some(result)
-- 
2.43.0


From 8508d314850543851ddf475a7ec5523d04705dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 45/51] fix: keywords of the toy language are whole words
 (total is not to tal)

---
 toys/src/parsers.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index b9a80b8..07ab8a9 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -80,7 +80,7 @@ fn top_level_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn function_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let define = space() * tag("fn") * space() * ident() - space();
+  let define = space() * keyword("fn") * space() * ident() - space();
   let args = ident().of_many0_sep(comma()).surround(lparen(), rparen());
   let p =
     (define + args + block()).map(|((name, args), body)| Expr::of_function_definition(name.to_string(), args, body));
@@ -88,7 +88,7 @@ fn function_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn global_variable_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let global = space() * tag("global") - space();
+  let global = space() * keyword("global") - space();
   let global_indent = global * ident();
   let eq = space() * tag("=") - space();
   let p =
@@ -106,16 +106,16 @@ fn line<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn r#while<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let r#while = space() * tag("while") - space();
+  let r#while = space() * keyword("while") - space();
   let condition = r#while * lazy(expression).surround(lparen(), rparen());
   let p = (condition + lazy(line)).map(|(c, body)| Expr::of_while(c, body));
   (space() * p - space()).attempt().name("while").cache()
 }
 
 fn r#for<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let r#for = tag("for") - space();
-  let r#in = space() + tag("in") + space();
-  let to = space() * tag("to") - space();
+  let r#for = keyword("for") - space();
+  let r#in = space() + keyword("in") + space();
+  let to = space() * keyword("to") - space();
   let params = lparen() * ident() - r#in + expression() - to + expression() - space() - rparen();
   let p0 = r#for * params.debug("params") + lazy(line);
   let p = p0.map(|(((name, from), to), body)| {
@@ -137,7 +137,7 @@ fn r#for<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn r#if<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let r#if = tag("if") - space();
+  let r#if = keyword("if") - space();
   let condition = r#if * lparen() * expression() - rparen();
   let r#else = space() * keyword("else") - space();
   let p = (condition + line() + (r#else * line()).opt()).map(|((p1, p2), p3)| Expr::of_if(p1, p2, p3));
@@ -164,7 +164,7 @@ fn expression<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn println<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let r#println = tag("println");
+  let r#println = keyword("println");
   let p = (r#println * lazy(expression).surround(lparen(), rparen()) - semi_colon()).map(Expr::of_println);
   (space() * p - space()).attempt().name("println").cache()
 }
-- 
2.43.0


From 24bb23dcee6dd36b81774f633f382aabf74b92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 46/51] fix: resolve references after included files have been
 merged, not file by file

---
 hocon/src/model.rs              | 21 ++++++++++++++++-----
 hocon/src/model/config_value.rs |  4 ++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 327c849..6a6a018 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -75,17 +75,28 @@ impl ConfigFactory {
     self.parse_from_string(&text)
   }
 
+  /// The configuration in the file, its references left as they are.
+  pub(crate) fn load_unresolved(&mut self, filename: &str) -> Result<ConfigValue, ConfigError> {
+    let mut text = String::new();
+    self.file_reader.read_to_string(filename, &mut text)?;
+    Self::parse_unresolved(&text)
+  }
+
   pub fn parse_from_string(&self, text: &str) -> Result<Config, ConfigError> {
+    let config_value = Self::resolve_stage1(&Self::parse_unresolved(text)?);
+    match config_value.unresolved_reference() {
+      Some(path) => Err(ConfigError::ParseError(format!("Cannot resolve the reference: {}", path))),
+      None => Ok(Config::new(config_value)),
+    }
+  }
+
+  fn parse_unresolved(text: &str) -> Result<ConfigValue, ConfigError> {
     let config_values = hocon().parse(text.as_bytes()).to_result().map_err(|pe| {
       let msg = pe.to_string();
       let input_string = pe.input_string();
       ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
     })?;
-    let config_value = Self::resolve_stage1(&Self::resolve_stage0(&config_values)?);
-    match config_value.unresolved_reference() {
-      Some(path) => Err(ConfigError::ParseError(format!("Cannot resolve the reference: {}", path))),
-      None => Ok(Config::new(config_value)),
-    }
+    Self::resolve_stage0(&config_values)
   }
 
   fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index d38975b..6ce2f74 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -127,10 +127,10 @@ impl ConfigResolver for ConfigValue {
         let is_including = INCLUDING.with(|files| files.borrow().contains(&file_name));
         if !is_including {
           INCLUDING.with(|files| files.borrow_mut().push(file_name.clone()));
-          let config = ConfigFactory::new().load_from_file(&file_name);
+          let config = ConfigFactory::new().load_unresolved(&file_name);
           INCLUDING.with(|files| files.borrow_mut().pop());
           match config {
-            Ok(c) => *cvi = c.to_config_value().clone(),
+            Ok(cv) => *cvi = cv,
             // A file that is not there includes nothing.
             Err(ConfigError::FileNotFoundError) => *cvi = ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
             Err(_) => {}
-- 
2.43.0


From a2d49e7efbf8706963d6f2bc8128d00ba5fe98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 47/51] fix: a span that does not fit the duration type reads
 as no duration instead of a panic

---
 hocon/src/model/config_value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 6ce2f74..b416566 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -369,11 +369,11 @@ impl ConfigValue {
   }
 
   pub fn as_duration(&self) -> Option<Duration> {
-    self.as_config_duration_value().map(|e| e.to_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_duration().ok())
   }
 
   pub fn as_std_duration(&self) -> Option<std::time::Duration> {
-    self.as_config_duration_value().map(|e| e.to_std_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_std_duration().ok())
   }
 
   pub fn as_config_array_value(&self) -> Option<&ConfigArrayValue> {
-- 
2.43.0


From c3a6ed370318216936e91ba49ddd845db084376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 48/51] fix: a key that refers to itself many times is resolved
 without going back to its first definition each time

---
 hocon/src/model/config_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index b416566..4273780 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -161,6 +161,8 @@ impl ConfigValue {
         let definitions = self.effective_definitions();
         for (i, cv) in definitions.iter().enumerate() {
           let value = match cv.ref_name() {
+            // What the key itself was before is at hand already.
+            Some(path) if path == location && result.is_some() => continue,
             Some(path) => {
               let id = reference_id(location, path, &definitions[i + 1..]);
               if seen.contains(&id) {
@@ -272,6 +274,7 @@ impl ConfigValue {
     let definitions = self.effective_definitions();
     for (i, cv) in definitions.iter().enumerate() {
       let value = match cv.ref_name() {
+        Some(path) if path == location && result.is_some() => continue,
         Some(path) => {
           let id = reference_id(location, path, &definitions[i + 1..]);
           if seen.contains(&id) {
-- 
2.43.0


From 945344cfbc027a20f41d203761ad284c18563db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 49/51] fix: a dot within a quoted key is a part of the key

---
 hocon/src/model/config_value.rs |  4 +++-
 hocon/src/parsers.rs            | 31 ++++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 4273780..e46fd82 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -44,8 +44,10 @@ pub enum ConfigValue {
 }
 
 fn member_location(location: &str, key: &str) -> String {
+  // A key with a dot in it is not a path.
+  let key = if key.contains('.') { quoted(key) } else { key.to_string() };
   if location.is_empty() {
-    key.to_string()
+    key
   } else {
     format!("{}.{}", location, key)
   }
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 79d0217..d7c2f74 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -176,11 +176,20 @@ pub fn key<'a>() -> Parser<'a, u8, String> {
   (path().attempt() | string()).surround(space_or_comment(), space_or_comment())
 }
 
-fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
+/// The keys from the outermost object on. Within quotes, a dot is a part of the key.
+fn keys<'a>() -> Parser<'a, u8, Vec<String>> {
+  let quoted = space_or_comment() * elm_ref_of(b"\"'").exists();
+  (quoted.peek() + key()).map(|(is_quoted, key)| match is_quoted {
+    true => vec![key],
+    false => key.split('.').map(String::from).collect(),
+  })
+}
+
+fn property<'a>() -> Parser<'a, u8, (Vec<String>, ConfigValue)> {
+  keys() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
 }
 
-fn property_config_value<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
+fn property_config_value<'a>() -> Parser<'a, u8, (Vec<String>, ConfigValue)> {
   property().map(|(k, v)| (k, v))
 }
 
@@ -197,19 +206,19 @@ fn comma<'a>() -> Parser<'a, u8, &'a u8> {
 }
 
 fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
-  let properties: Parser<'a, u8, Vec<(String, ConfigValue)>> = lazy(property).of_many0_sep(comma().opt()) - comma().opt();
-  let obj: Parser<'a, u8, Vec<(String, ConfigValue)>> =
+  let properties: Parser<'a, u8, Vec<(Vec<String>, ConfigValue)>> =
+    lazy(property).of_many0_sep(comma().opt()) - comma().opt();
+  let obj: Parser<'a, u8, Vec<(Vec<String>, ConfigValue)>> =
     properties.surround(object_left_bracket(), object_right_bracket());
   obj.map(merge_properties)
 }
 
 /// Merges the properties in the order of their definition. A dotted key defines nested objects.
-fn merge_properties(properties: Vec<(String, ConfigValue)>) -> HashMap<String, ConfigValue> {
+fn merge_properties(properties: Vec<(Vec<String>, ConfigValue)>) -> HashMap<String, ConfigValue> {
   let mut key_values: HashMap<String, ConfigValue> = HashMap::new();
-  for (path, value) in properties {
-    let mut keys = path.split('.').rev().map(String::from).collect::<Vec<_>>();
-    let key = keys.pop().unwrap();
-    let value = keys.into_iter().fold(value, |value, key| {
+  for (mut keys, value) in properties {
+    let key = keys.remove(0);
+    let value = keys.into_iter().rev().fold(value, |value, key| {
       ConfigValue::Object(ConfigObjectValue::from((key, value)))
     });
     match key_values.get_mut(&key) {
@@ -304,7 +313,7 @@ fn config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 
 fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
   (property_config_value().of_many1_sep(comma().opt()) - comma().opt())
-    .map(|values: Vec<(String, ConfigValue)>| {
+    .map(|values: Vec<(Vec<String>, ConfigValue)>| {
       vec![ConfigValue::Object(ConfigObjectValue::new(merge_properties(values)))]
     })
     .attempt()
-- 
2.43.0


From 4bc29f7a5b0c80f69e6d2368c188f6caa71f641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 50/51] fix: evaluate and iterate up to the end of the calendar
 instead of panicking in its last month

---
 crond/src/cron_interval_iterator.rs | 16 +++++++++-------
 crond/src/lib.rs                    | 20 +++++++-------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index e0318b8..9a6de05 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -11,7 +11,7 @@ use crate::cron_specification::Specification;
 pub struct CronIntervalIterator<Tz: TimeZone, S: Specification<DateTime<Tz>>> {
   timezone: Tz,
   curr: DateTime<Tz>,
-  next: DateTime<Tz>,
+  next: Option<DateTime<Tz>>,
   cron_interval: Rc<CronInterval<Tz, S>>,
 }
 
@@ -22,7 +22,7 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
     Self {
       timezone,
       curr,
-      next,
+      next: Some(next),
       cron_interval,
     }
   }
@@ -33,16 +33,18 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
 
   fn next(&mut self) -> Option<Self::Item> {
     let end = self.end_value();
-    loop {
-      if end.as_ref().map_or(false, |end| self.next > *end) {
-        return None;
+    while let Some(next) = self.next.clone() {
+      if end.as_ref().map_or(false, |end| next > *end) {
+        break;
       }
-      self.curr = self.next.clone();
-      self.next = self.next.clone() + Duration::minutes(1);
+      // There is none after the last minute of the calendar.
+      self.next = next.clone().checked_add_signed(Duration::minutes(1));
+      self.curr = next;
       if self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
         return Some(self.curr.clone());
       }
     }
+    None
   }
 }
 
diff --git a/crond/src/lib.rs b/crond/src/lib.rs
index fd7e651..c34e249 100644
--- a/crond/src/lib.rs
+++ b/crond/src/lib.rs
@@ -21,17 +21,11 @@ mod cron_schedule;
 mod cron_specification;
 
 fn get_days_from_month(year: i32, month: u32) -> i64 {
-  NaiveDate::from_ymd(
-    match month {
-      12 => year + 1,
-      _ => year,
-    },
-    match month {
-      12 => 1,
-      _ => month + 1,
-    },
-    1,
-  )
-  .signed_duration_since(NaiveDate::from_ymd(year, month, 1))
-  .num_days()
+  match month {
+    // The next month may lie beyond the calendar.
+    12 => 31,
+    _ => NaiveDate::from_ymd(year, month + 1, 1)
+      .signed_duration_since(NaiveDate::from_ymd(year, month, 1))
+      .num_days(),
+  }
 }
-- 
2.43.0


From 0ea172491b76c0cdfa0ae7b01762e4934b209904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 51/51] fix: accept a regex() pattern that ends in a comment

---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index 2af6ae5..18102c5 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -81,13 +81,14 @@ impl ElementsParsers for ParsersImpl {
   }
 
   fn regex<'a>(pattern: &str) -> Self::P<'a, char, String> {
-    let pattern = format!("^(?:{})", pattern);
-    let regex = Regex::new(&pattern).unwrap();
+    let regex = Regex::new(pattern).unwrap();
     Parser::new(move |parse_state| {
       let input: &[char] = parse_state.input();
       log::debug!("regex: input = {:?}", input);
       let str = String::from_iter(input);
-      if let Some(captures) = regex.captures(&str).as_ref() {
+      // The leftmost match begins where the input does if any match does.
+      let captures = regex.captures(&str).filter(|c| c.get(0).is_some_and(|m| m.start() == 0));
+      if let Some(captures) = captures.as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
           ParseResult::successful(str.to_string(), str.chars().count())
-- 
2.43.0

