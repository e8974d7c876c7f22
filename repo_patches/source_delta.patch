From 046159dea7d985c3a329a716d0b62bf15a68668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 01/36] fix: take_while parsers stop at the end of the matching
 run

The loops kept counting matching elements after the first mismatch, so the
returned slice could contain elements that do not satisfy the predicate
(digits on "1b2" returned "1b"), and the elements skipped before the run
were not part of the consumed length.
---
 .../src/internal/parsers_impl/taken_parsers_impl.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..fc4382b 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,11 +33,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::successful(parse_state.slice_with_len(0), 0),
       }
     })
@@ -59,11 +61,13 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
       match start {
-        Some(s) => ParseResult::successful(&input[s..s + len], len),
+        Some(s) => ParseResult::successful(&input[s..s + len], s + len),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -92,11 +98,12 @@ impl TakenParsers for ParsersImpl {
         Some(s) => {
           let str = &input[s..s + len];
           if n <= str.len() && str.len() <= m {
-            ParseResult::successful(str, len)
+            ParseResult::successful(str, s + len)
           } else {
             ParseResult::failed_with_uncommitted(ParseError::of_in_complete())
           }
         }
+        None if n == 0 => ParseResult::successful(parse_state.slice_with_len(0), 0),
         None => ParseResult::failed_with_uncommitted(ParseError::of_in_complete()),
       }
     })
-- 
2.43.0


From 911720d6383363b0b9ee7c213323d748856ff212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 02/36] fix: repetition with an upper bound of zero takes no
 item

repeat(..=0), repeat(0..1), of_count(0) and of_many_n_m(0, 0) still took the
first item.
---
 .../internal/parsers_impl/repeat_parsers_impl.rs    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..940a475 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,7 +74,18 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      let takes_no_item = match range.end() {
+        Bound::Included(&max_count) => max_count == 0,
+        Bound::Excluded(&max_count) => max_count <= 1,
+        _ => false,
+      };
+      let first = if takes_no_item {
+        None
+      } else {
+        Some((method)(parse_state))
+      };
+
+      if let Some(ParseResult::Success { value, length }) = first {
         let mut current_parse_state = parse_state.advance_by(length);
         items.push(value);
         all_length += length;
-- 
2.43.0


From b4572996be57973392eedee0d00b1366be014d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 03/36] fix: ParseError::input never slices out of range

The offset recorded in an error is absolute while its input starts at the
failing position, so asking a failure for its input could panic.
---
 parser/src/core/parse_error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..a5db866 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -91,10 +91,10 @@ impl<'a, I> ParseError<'a, I> {
       ParseError::Incomplete => None,
       ParseError::Mismatch {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => input.get(*offset..).and_then(|rest| rest.get(..*length)),
       ParseError::Conversion {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => input.get(*offset..).and_then(|rest| rest.get(..*length)),
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
-- 
2.43.0


From a07ace92e1af7c03da7bf72161863647c7272159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 04/36] fix: cached parsers key results by the input position

The key was the address of the ParseState, a stack temporary, so a cached
parser returned stale results for a different input or position.
---
 parser/src/internal/parsers_impl/cache_parsers_impl.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..671c164 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,6 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -19,11 +18,8 @@ impl CacheParsers for ParsersImpl {
     let method = parser.method.clone();
     Parser::new(move |parser_state| {
       // キーをタプルとして生成（文字列変換なし）
-      let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
-      );
+      let input = parser_state.input();
+      let key = (input.as_ptr() as usize, input.len(), parser_state.current_offset());
 
       // キャッシュから結果を取得または計算
       let parse_result = caches
-- 
2.43.0


From fa68690099c20d1420c6a1c0240fff3b3ac00753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 05/36] fix: regex parser matches at the current position and
 consumes elements

A match further on in the input was taken as a prefix for alternations
("a|b" on "xb"), and the consumed length was counted in bytes instead of
characters.
---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..07ed120 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -91,10 +91,13 @@ impl ElementsParsers for ParsersImpl {
       let input: &[char] = parse_state.input();
       log::debug!("regex: input = {:?}", input);
       let str = String::from_iter(input);
-      if let Some(captures) = regex.captures(&str).as_ref() {
+      let captures = regex
+        .captures(&str)
+        .filter(|captures| captures.get(0).map_or(false, |m| m.start() == 0));
+      if let Some(captures) = captures.as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From f9cb66943e820d1a7103d6542d9fbc2990aed97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 06/36] fix: a non-zero digit is a digit

is_ascii_digit_non_zero accepted every element other than '0'.
---
 parser/src/core/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/element.rs b/parser/src/core/element.rs
index dfe138d..fdc547f 100644
--- a/parser/src/core/element.rs
+++ b/parser/src/core/element.rs
@@ -85,7 +85,7 @@ impl Element for u8 {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -155,7 +155,7 @@ impl Element for char {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
-- 
2.43.0


From 1ed8f179b45cbe2f236a254b1d8cd4b1a349a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 07/36] fix: chain_right1 and rest_right1 associate to the
 right

chain_right1 delegated to rest_left1 and rest_right1 applied the operator at
most once, so a - b - c was not parsed as a - (b - c).
---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..dd199ce 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x.clone()))
   }
 
   #[inline]
@@ -107,7 +107,9 @@ impl OperatorParsers for ParsersImpl {
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        Self::map(Self::chain_right1(p.clone(), op.clone()), move |y| {
+          f(default_value.clone(), y.clone())
+        })
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From 399a93b823069c2dabc10015ef02ae464b1c1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 08/36] fix: the day-of-week field is compared with the day of
 the week

It was compared with the minute. SUN..SAT parse to 1..7.
---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..3f4ba39 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.date().weekday().number_from_sunday() as u8, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From 901f1c6c753d574e5bc04858d5ad642bcd38b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 09/36] fix: a step of zero does not panic the evaluator

step_by(0) panics; */0 and a-b/0 now match nothing.
---
 crond/src/cron_evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 3f4ba39..08f07c7 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -51,7 +51,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         per_option,
       } => match per_option {
         box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,
-        box CronExpr::ValueExpr(per) => (*start as usize..=*end as usize)
+        box CronExpr::ValueExpr(per) if *per > 0 => (*start as usize..=*end as usize)
           .step_by(*per as usize)
           .into_iter()
           .any(|e| e == env.now as usize),
@@ -60,7 +60,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } => (0usize..=(env.max as usize))
+      } if *per > 0 => (0usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
-- 
2.43.0


From 9ed76c96efc7ce3fea0ac37b99a6d7900ee854f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 10/36] fix: an interval with an upper limit does not yield
 times after it

proceed_next stepped past the limit and the time found there was returned; for
a specification that is never satisfied it did not stop.
---
 crond/src/cron_interval_iterator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..f261f1e 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -43,6 +43,8 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
       Some(end) => {
         if end >= self.curr {
           self.proceed_next();
+        }
+        if end >= self.curr {
           let curr: DateTime<Tz> = self.curr.clone();
           Some(curr)
         } else {
@@ -77,7 +79,13 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
   }
 
   fn proceed_next(&mut self) {
+    let end = self.end_value();
     while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+      if let Some(end) = &end {
+        if self.curr > *end {
+          break;
+        }
+      }
       self.curr = self.next.clone();
       self.next = self.next.clone() + Duration::minutes(1);
     }
-- 
2.43.0


From 3c40193ddd779fe256d2dead33a261e67aa9cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 11/36] fix: IPv6 addresses with seven groups before "::" parse

The grammar comment allows [ *6( h16 ":" ) h16 ] "::"; only six groups were
accepted.
---
 uri/src/parsers/ip_v6_address_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/ip_v6_address_parsers.rs b/uri/src/parsers/ip_v6_address_parsers.rs
index 3863da6..9249596 100644
--- a/uri/src/parsers/ip_v6_address_parsers.rs
+++ b/uri/src/parsers/ip_v6_address_parsers.rs
@@ -130,7 +130,7 @@ fn ip_v6_address8<'a>() -> Parser<'a, u8, Ipv6Addr> {
 
 //                / [ *6( h16 ":" ) h16 ] "::"
 fn ip_v6_address9<'a>() -> Parser<'a, u8, Ipv6Addr> {
-  (ip_v6_address_p1(5) + seq(b"::"))
+  (ip_v6_address_p1(6) + seq(b"::"))
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From 0c7cb9e01fb4e56faf5c91634a3b2daa2e759c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 12/36] fix: a registered name that starts like an IPv4 address
 is not cut short

---
 uri/src/parsers/host_parsers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f54984f..f03461e 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -7,8 +7,10 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 
 // host          = IP-literal / IPv4address / reg-name
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
-  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address().map(HostName::Ipv4Address).attempt() | reg_name())
-    .name("host")
+  (ip_literal().map(HostName::IpLiteral).attempt()
+    | (ip_v4_address() - reg_name().not()).map(HostName::Ipv4Address).attempt()
+    | reg_name())
+  .name("host")
 }
 
 // IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"
-- 
2.43.0


From de4dc2554a341fb3355e2fec63178b977f10f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 13/36] fix: a password may be empty and may contain colons

---
 uri/src/parsers/user_info_parsers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/user_info_parsers.rs b/uri/src/parsers/user_info_parsers.rs
index f28bd89..eeb740d 100644
--- a/uri/src/parsers/user_info_parsers.rs
+++ b/uri/src/parsers/user_info_parsers.rs
@@ -6,7 +6,13 @@ use oni_comb_parser_rs::prelude::*;
 pub fn user_info<'a>() -> Parser<'a, u8, UserInfo> {
   let p = || (unreserved().attempt() | pct_encoded().attempt() | sub_delims());
   (p().of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)
-    + (elm(b':') * p().of_many1().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
+    + (elm(b':')
+      * (p() | elm_ref(b':').collect())
+        .of_many0()
+        .collect()
+        .map(|e| e.to_vec())
+        .map_res(String::from_utf8))
+    .opt())
   .map(|(user_name, password)| UserInfo::new(user_name, password))
   .name("user_info")
 }
-- 
2.43.0


From eaeaafe1ccb1425adf02b3a694027ad0e0ef2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 14/36] fix: an empty port does not discard the rest of the URI

---
 uri/src/parsers/authority_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/authority_parsers.rs b/uri/src/parsers/authority_parsers.rs
index cd635fd..2a1b78e 100644
--- a/uri/src/parsers/authority_parsers.rs
+++ b/uri/src/parsers/authority_parsers.rs
@@ -7,7 +7,7 @@ use crate::parsers::user_info_parsers::user_info;
 use oni_comb_parser_rs::prelude::*;
 
 pub fn authority<'a>() -> Parser<'a, u8, Authority> {
-  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port()).opt())
+  ((user_info() - elm_ref(b'@')).opt() + host() + (elm_ref(b':') * port().opt()).opt().map(Option::flatten))
     .map(|((user_info, host_name), port)| Authority::new(host_name, port, user_info))
 }
 
-- 
2.43.0


From 2f2d16e29e5e0d581be8945bd2dc1d319722370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 15/36] fix: a query value may contain an equals sign

---
 uri/src/parsers/query_parsers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/query_parsers.rs b/uri/src/parsers/query_parsers.rs
index 0dc80fd..6a93a56 100644
--- a/uri/src/parsers/query_parsers.rs
+++ b/uri/src/parsers/query_parsers.rs
@@ -11,7 +11,14 @@ pub fn query<'a>() -> Parser<'a, u8, Query> {
       .map(|e| e.to_vec())
       .map_res(String::from_utf8)
   };
-  let key_values = || (code_point() + (elm(b'=') * code_point()).opt());
+  let value = || {
+    (pchar_without_eq_amp() | elm_of(b"/?=").collect())
+      .of_many0()
+      .collect()
+      .map(|e| e.to_vec())
+      .map_res(String::from_utf8)
+  };
+  let key_values = || (code_point() + (elm(b'=') * value()).opt());
   (key_values() + (elm(b'&') * key_values()).of_many0()).map(|(a, b)| {
     let mut m = vec![a];
     m.extend(b);
-- 
2.43.0


From 1a436b1a2ad1587f0f4f41a525a436ac5b476cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 16/36] fix: a path without an authority does not start with
 two slashes

---
 uri/src/parsers/hier_part_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/hier_part_parsers.rs b/uri/src/parsers/hier_part_parsers.rs
index 95d6854..dd59bac 100644
--- a/uri/src/parsers/hier_part_parsers.rs
+++ b/uri/src/parsers/hier_part_parsers.rs
@@ -9,7 +9,7 @@ use oni_comb_parser_rs::prelude::*;
 //                / path-empty
 pub fn hier_part<'a>() -> Parser<'a, u8, Option<HierPart>> {
   let p1 = (seq(b"//") * authority() + path_abempty(false)).map(|(a, b)| HierPart::new(Some(a), b));
-  let p2 = (path_abempty(true).attempt() | path_rootless()).map(|e| HierPart::of_path(e));
+  let p2 = (seq(b"//").not() * (path_abempty(true).attempt() | path_rootless())).map(|e| HierPart::of_path(e));
   (p1.attempt() | p2).opt()
 }
 
-- 
2.43.0


From e3bbfc8c63170403ad7ff18d12834b1e3bf9983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 17/36] fix: an empty registered name is a valid host

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f03461e..cf5ea7e 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -9,7 +9,7 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
   (ip_literal().map(HostName::IpLiteral).attempt()
     | (ip_v4_address() - reg_name().not()).map(HostName::Ipv4Address).attempt()
-    | reg_name())
+    | reg_name().opt().map(Option::unwrap_or_default))
   .name("host")
 }
 
-- 
2.43.0


From 7bcf76111efae40e359110519bbf6be10f3e0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 18/36] fix: Uri::parse rejects text left over after the URI

---
 uri/src/models/uri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/models/uri.rs b/uri/src/models/uri.rs
index 6c82be6..a2ad508 100644
--- a/uri/src/models/uri.rs
+++ b/uri/src/models/uri.rs
@@ -6,7 +6,7 @@ use crate::models::query::Query;
 use crate::models::scheme::Scheme;
 use crate::models::user_info::UserInfo;
 use crate::parsers::uri_parsers;
-use oni_comb_parser_rs::prelude::{ParseError, ParserRunner};
+use oni_comb_parser_rs::prelude::{end, ParseError, ParserRunner};
 use std::fmt::Formatter;
 
 pub type Fragment = String;
@@ -66,7 +66,7 @@ impl std::fmt::Display for Uri {
 
 impl Uri {
   pub fn parse(text: &str) -> Result<Uri, ParseError<u8>> {
-    uri_parsers::uri().parse(text.as_bytes()).to_result()
+    (uri_parsers::uri() - end()).parse(text.as_bytes()).to_result()
   }
 
   pub fn new(
-- 
2.43.0


From f0993277c082d17d45e9caf41bce4be36f7a5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 19/36] fix: numbers keep their sign and their exponent

---
 hocon/src/parsers.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..1814019 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -3,6 +3,7 @@ use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
 use oni_comb_parser_rs::prelude::*;
+use rust_decimal::Decimal;
 
 fn comment<'a>() -> Parser<'a, u8, &'a [u8]> {
   let head = seq(b"//").collect().attempt() | elm_ref(b'#').collect();
@@ -75,21 +76,15 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
+  number().map_res(|(sign, integer, frac, exp)| {
+    let mut text = sign.map_or("", |_| "-").to_string();
+    text.push_str(&integer);
+    text.push_str(&frac.unwrap_or_default());
+    match exp {
+      None => Decimal::from_str_radix(&text, 10),
+      Some(exp) => Decimal::from_scientific(&format!("{}{}", text, exp)),
     }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
-      s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
-    }
-    _ => panic!("no match !!!"),
+    .map(ConfigNumberValue::new)
   })
 }
 
-- 
2.43.0


From 7b38edbbc900f42a30107ed8e6318be2ee3624d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 20/36] fix: long names of duration units parse

---
 hocon/src/parsers.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 1814019..bd491dc 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -46,27 +46,27 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
   let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
+    | seq(b"nanoseconds").attempt()
     | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
+    | seq(b"nanos").attempt()
+    | seq(b"nano"))
   .map(|_| TimeUnit::Nanoseconds);
   let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
+    | seq(b"microseconds").attempt()
     | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
+    | seq(b"micros").attempt()
+    | seq(b"micro"))
   .map(|_| TimeUnit::Microseconds);
   let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
+    | seq(b"milliseconds").attempt()
     | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
+    | seq(b"millis").attempt()
+    | seq(b"milli"))
   .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
+  let s = (seq(b"seconds").attempt() | seq(b"second").attempt() | seq(b"s")).map(|_| TimeUnit::Seconds);
+  let m = (seq(b"minutes").attempt() | seq(b"minute").attempt() | seq(b"m")).map(|_| TimeUnit::Minutes);
+  let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
+  let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
   number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
-- 
2.43.0


From eaf2fdc045abfe16c75367bafb4dc167d37947d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 21/36] fix: durations out of range are an error

---
 hocon/src/model/config_duration_value.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..4037d0c 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -3,7 +3,7 @@ use crate::model::time_unit::TimeUnit;
 use std::fmt::{Display, Formatter};
 use std::time::Duration;
 
-use anyhow::{bail, Result};
+use anyhow::{anyhow, bail, Result};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
@@ -41,14 +41,18 @@ impl ConfigDurationValue {
       Some(v) => v,
       None => bail!("Occurred convert error: {:?}", self.value),
     };
+    let from_secs = |unit: u64| {
+      let secs = value.checked_mul(unit);
+      secs.map(Duration::from_secs).ok_or_else(|| anyhow!("Occurred convert error: {:?}", self.value))
+    };
     match self.unit {
       TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
       TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
       TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
       TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
+      TimeUnit::Minutes => from_secs(60),
+      TimeUnit::Hours => from_secs(60 * 60),
+      TimeUnit::Days => from_secs(60 * 60 * 24),
     }
   }
 
@@ -57,14 +61,15 @@ impl ConfigDurationValue {
       Some(v) => v,
       None => bail!("Occurred convert error: {:?}", self.value),
     };
+    let out_of_range = || anyhow!("Occurred convert error: {:?}", self.value);
     match self.unit {
       TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
       TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
+      TimeUnit::Milliseconds => chrono::Duration::try_milliseconds(value).ok_or_else(out_of_range),
+      TimeUnit::Seconds => chrono::Duration::try_seconds(value).ok_or_else(out_of_range),
+      TimeUnit::Minutes => chrono::Duration::try_minutes(value).ok_or_else(out_of_range),
+      TimeUnit::Hours => chrono::Duration::try_hours(value).ok_or_else(out_of_range),
+      TimeUnit::Days => chrono::Duration::try_days(value).ok_or_else(out_of_range),
     }
   }
 }
-- 
2.43.0


From 6e10e916777c7600ccd34da28ff7e54879fc9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 22/36] fix: a configuration file that cannot be read is an
 error

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..238cf08 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -70,7 +70,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From 5aa3f140c908778c3a1528de6641d1321674e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 23/36] fix: an empty configuration does not panic

---
 hocon/src/model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 238cf08..0ba2b4a 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -95,9 +96,10 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
+    let empty = ConfigValue::Object(ConfigObjectValue::new(HashMap::new()));
+    let mut cur = config_values.first().cloned().unwrap_or(empty);
     cur.resolve(None);
-    for cv in &config_values[1..] {
+    for cv in config_values.iter().skip(1) {
       let mut t = cv.clone();
       t.resolve(None);
       cur.merge_with(t);
-- 
2.43.0


From 6390a79f03809be26f53466cfd002a199f93cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 24/36] fix: hocon number followed by a newline no longer
 swallows the next key as a duration unit

---
 hocon/src/parsers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index bd491dc..3c2956e 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -39,9 +39,7 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), space_or_comment())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  (space_or_comment() * number).map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
@@ -68,7 +66,8 @@ fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
   let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
   let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  let blanks = elm_ref_of(b" \t").of_many0();
+  number_value() - blanks + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 05593832f6b93324cac49c84d6faa75715f7e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 25/36] fix: hocon skips any run of comments and blanks between
 tokens

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 3c2956e..2188973 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -16,7 +16,7 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  comment().attempt().of_many0() * space().discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 1906a8cae42f1a8f9f930785542a558d57ef9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 26/36] fix: hocon quoted strings keep their text: empty,
 leading blanks, brackets, the other quote

---
 hocon/src/parsers.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 2188973..47aa423 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -105,11 +105,15 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
+  let char_string_of = |char: Parser<'a, u8, &'a u8>| {
+    (char | escape_sequence.clone())
+      .map(Clone::clone)
+      .of_many1()
+      .map_res(String::from_utf8)
+  };
+  let char_string = char_string_of(none_ref_of(b"[]\r\n\\\"'"));
+  let double_quoted = char_string_of(none_ref_of(b"\r\n\\\""));
+  let single_quoted = char_string_of(none_ref_of(b"\r\n\\'"));
   let utf16_char = seq(b"\\u")
     * elm_hex_digit()
       .of_count(4)
@@ -120,10 +124,16 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  let quoted = |text: Parser<'a, u8, String>, quote: u8| {
+    (text.attempt() | utf16_string.clone())
+      .of_many0()
+      .surround(elm_ref(quote), elm_ref(quote))
+      .surround(space_or_comment(), space_or_comment())
+  };
+  let string_surround = (char_string.attempt() | utf16_string.clone()).of_many1();
+  let string_surround1 = quoted(double_quoted, b'"');
+  let string_surround2 = quoted(single_quoted, b'\'');
+  (string_surround1.attempt() | string_surround2.attempt() | string_surround).map(|strings| strings.concat())
 }
 
 fn string_zero<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 9c96586c36aa0520f9c84a82a8fcd15ebdbb0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 27/36] fix: hocon merging keeps the later of two values that
 cannot be merged

---
 hocon/src/model/config_value.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..764ee4e 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -78,13 +78,22 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Array(l), ConfigValue::Array(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
+      (l, r @ ConfigValue::Link(..)) => {
+        for cv in r.to_vec() {
+          l.merge_with(cv);
+        }
+      }
       (l @ ConfigValue::Link(..), r) => {
         let mut cv = l.get_value_link().unwrap().value.clone();
-        cv.merge_with(r);
-        l.push(cv);
+        match (&cv, &r) {
+          (ConfigValue::Object(..), ConfigValue::Object(..)) | (ConfigValue::Array(..), ConfigValue::Array(..)) => {
+            cv.merge_with(r);
+            l.push(cv);
+          }
+          _ => l.push(r),
+        }
       }
-      (..) => {}
+      (l, r) => l.push(r),
     }
   }
 }
-- 
2.43.0


From 8cbcc30a094037ffd9ec214c1cb6aafb8c41b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 28/36] fix: hocon keeps the plain keys beside a dotted key

---
 hocon/src/model/config_value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 764ee4e..c7ec330 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -134,6 +134,11 @@ impl ConfigResolver for ConfigValue {
       }
       (ConfigValue::Object(cov), None) => {
         let mut new_key_values = HashMap::new();
+        for (key, cv) in cov.0.iter().filter(|(key, _)| !key.contains(".")) {
+          let mut mcv = cv.clone();
+          mcv.resolve(None);
+          new_key_values.insert(key.clone(), mcv);
+        }
         for (key, cv) in &cov.0 {
           if key.contains(".") {
             let mut keys = key.split(".").collect::<Vec<_>>();
-- 
2.43.0


From f9ae93382b99f1c5d23d42616039bdef0ef234a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 29/36] fix: hocon optional substitution falls back to the
 value given just before it

---
 hocon/src/model/config_value.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index c7ec330..90e6991 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -217,7 +217,9 @@ impl ConfigResolver for ConfigValue {
           if ref_value.is_some() {
             *cvr = ref_value.unwrap();
           } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
+            let mut prev = cvr.ref_prev().as_ref().map_or(ConfigValue::Null, |prev| prev.latest().clone());
+            prev.resolve(source);
+            *cvr = prev;
           }
         } else {
           if ref_value.is_none() {
-- 
2.43.0


From c07126c475b170808db27f4f924543beb7849950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 30/36] fix: hocon unquoted text ends at the characters that
 structure a document

---
 hocon/src/parsers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 47aa423..e89adbd 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -96,6 +96,10 @@ fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
 }
 
 fn string<'a>() -> Parser<'a, u8, String> {
+  quoted_or_unquoted(none_ref_of(b"{}[],#\r\n\\\"'"))
+}
+
+fn quoted_or_unquoted<'a>(unquoted_char: Parser<'a, u8, &'a u8>) -> Parser<'a, u8, String> {
   let special_char = elm_ref(b'\\')
     | elm_ref(b'/')
     | elm_ref(b'"')
@@ -111,7 +115,7 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .of_many1()
       .map_res(String::from_utf8)
   };
-  let char_string = char_string_of(none_ref_of(b"[]\r\n\\\"'"));
+  let char_string = char_string_of(unquoted_char);
   let double_quoted = char_string_of(none_ref_of(b"\r\n\\\""));
   let single_quoted = char_string_of(none_ref_of(b"\r\n\\'"));
   let utf16_char = seq(b"\\u")
@@ -189,7 +193,8 @@ fn kv<'a>() -> Parser<'a, u8, ()> {
 }
 
 pub fn key<'a>() -> Parser<'a, u8, String> {
-  (path().attempt() | string()).surround(space_or_comment(), space_or_comment())
+  let string = quoted_or_unquoted(none_ref_of(b"{}[],#=:\r\n\\\"'"));
+  (path().attempt() | string).surround(space_or_comment(), space_or_comment())
 }
 
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From d4fba3ea95e886d3350c9c53f4d1db906d57742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 31/36] fix: IPvFuture literals accept an upper-case V (RFC
 3986 literals are case-insensitive)

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index cf5ea7e..45230b8 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -22,7 +22,7 @@ pub fn ip_literal<'a>() -> Parser<'a, u8, IpLiteral> {
 
 // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
 pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
-  (elm_ref(b'v')
+  (elm_ref_of(b"vV")
     + elm_hex_digit().of_many1()
     + elm(b'.')
     + (unreserved() | sub_delims() | elm_ref(b':').collect()).of_many1())
-- 
2.43.0


From 50df049dd62e5488080a34753814d19496425827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 32/36] fix: toys binds call parameters, labelled parameters
 and globals in the environment

---
 toys/src/interpreter.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6b0621f..ec8b496 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -33,8 +33,8 @@ impl Interpreter {
         for top_level in definitions {
           match &**top_level {
             Expr::GlobalVariableDefinition(name, expr) => {
-              let mut bindings = self.variable_environment.as_bindings().clone();
-              bindings.insert(name.clone(), self.interpret(expr.clone()));
+              let value = self.interpret(expr.clone());
+              self.variable_environment.as_bindings_mut().insert(name.clone(), value);
             }
             Expr::FunctionDefinition(name, ..) => {
               self.function_environment.insert(name.clone(), top_level.clone());
@@ -146,8 +146,10 @@ impl Interpreter {
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           let mut i = 0;
           for formal_param_name in formal_params {
-            let mut bindings = self.variable_environment.as_bindings().clone();
-            bindings.insert(formal_param_name.clone(), values[i].clone());
+            self
+              .variable_environment
+              .as_bindings_mut()
+              .insert(formal_param_name.clone(), values[i].clone());
             i += 1;
           }
           let result = self.interpret(body.clone());
@@ -171,8 +173,10 @@ impl Interpreter {
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           for (param_name, param_value) in name_with_values {
-            let mut bindings = self.variable_environment.as_bindings().clone();
-            bindings.insert(param_name, param_value);
+            self
+              .variable_environment
+              .as_bindings_mut()
+              .insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
           self.variable_environment = backup.clone();
-- 
2.43.0


From 9ad2668deb60e44d857c32c1bede6284bbfca83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 33/36] fix: toys assigns to the frame that has the binding
 instead of panicking

---
 toys/src/environment.rs | 21 +++++++++++++++++++++
 toys/src/interpreter.rs | 33 +++++++++++++--------------------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/toys/src/environment.rs b/toys/src/environment.rs
index 2ac3d6b..320c51b 100644
--- a/toys/src/environment.rs
+++ b/toys/src/environment.rs
@@ -30,6 +30,27 @@ impl Environment {
     }
   }
 
+  /// Gives the nearest binding of `name` a new value. Returns false if there is no such binding.
+  pub fn assign(&mut self, name: &str, value: &Value) -> bool {
+    match self.bindings.get_mut(name) {
+      Some(r) => {
+        *r = value.clone();
+        true
+      }
+      None => match &mut self.next {
+        Some(n) => Rc::make_mut(n).assign(name, value),
+        None => false,
+      },
+    }
+  }
+
+  /// Drops the innermost frame and goes back to the one around it, as it is now.
+  pub fn leave(&mut self) {
+    if let Some(next) = self.next.take() {
+      *self = (*next).clone();
+    }
+  }
+
   pub fn new(bindings: HashMap<String, Value>, next: Option<Rc<Environment>>) -> Environment {
     Self { bindings, next }
   }
diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index ec8b496..63a1435 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -85,21 +85,14 @@ impl Interpreter {
         v.clone()
       }
       Expr::Assignment(name, expr) => {
-        let bindings_opt = self.variable_environment.find_binding(name);
-        if bindings_opt.is_some() {
-          let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          let r = bindings.get_mut(name).unwrap();
-          *r = value.clone();
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
-          value
-        } else {
-          let value = self.interpret(expr.clone());
-          let mut bindings = self.variable_environment.as_bindings().clone();
-          bindings.insert(name.clone(), value.clone());
-          self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
-          value
+        let value = self.interpret(expr.clone());
+        if !self.variable_environment.assign(name, &value) {
+          self
+            .variable_environment
+            .as_bindings_mut()
+            .insert(name.clone(), value.clone());
         }
+        value
       }
       Expr::Block(exprs) => {
         let mut value = None;
@@ -142,8 +135,8 @@ impl Interpreter {
             .iter()
             .map(|actual_param| self.interpret(actual_param.clone()))
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          let caller = self.variable_environment.clone();
+          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(caller)));
           let mut i = 0;
           for formal_param_name in formal_params {
             self
@@ -153,7 +146,7 @@ impl Interpreter {
             i += 1;
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.variable_environment.leave();
           result
         } else {
           panic!("Function {} not defined", name);
@@ -170,8 +163,8 @@ impl Interpreter {
               )
             })
             .collect::<Vec<_>>();
-          let backup = self.variable_environment.clone();
-          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
+          let caller = self.variable_environment.clone();
+          self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(caller)));
           for (param_name, param_value) in name_with_values {
             self
               .variable_environment
@@ -179,7 +172,7 @@ impl Interpreter {
               .insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
-          self.variable_environment = backup.clone();
+          self.variable_environment.leave();
           result
         } else {
           panic!("Function {} not defined", name);
-- 
2.43.0


From d0f51db35cc9c12c3d651e14ed1bf91a1089ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 34/36] fix: toys evaluates boolean and array literals

---
 toys/src/interpreter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 63a1435..fe23eca 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -78,6 +78,8 @@ impl Interpreter {
       }
       Expr::StringLiteral(value) => Value::String(value.clone()),
       Expr::IntegerLiteral(value) => Value::Int(*value),
+      Expr::BoolLiteral(value) => Value::Bool(*value),
+      Expr::ArrayLiteral(values) => Value::Array(values.iter().map(|e| self.interpret(e.clone())).collect()),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
         let bindings_opt = self.variable_environment.find_binding(name);
-- 
2.43.0


From e434f033abcc80f73a8b7c76bf31f949167370f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 35/36] fix: toys accepts blanks after the = of a labelled
 parameter

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fb4d158..bc25b20 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -247,7 +247,7 @@ fn function_call<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn labelled_call<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let param = (ident() - elm_ref('=') + lazy(expression)).map(|(label, param)| LabelledParameter::new(label, param));
+  let param = (ident() - elm_ref('=') - space() + lazy(expression)).map(|(label, param)| LabelledParameter::new(label, param));
   let p = (ident() + param.of_many1_sep(comma()).surround(lbracket(), rbracket()))
     .map(|(name, params)| Expr::of_labelled_call(name.to_string(), params));
   (space() * p - space()).attempt().name("labelled_call").cache()
-- 
2.43.0


From 4974def9b61b6d2f7daaa8b226433e653c129bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 36/36] fix: toys reads variables whose name begins with f

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index bc25b20..4a01f9e 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -262,7 +262,7 @@ fn array_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let p = (tag("true").attempt() | tag("false")).map(|e| match e.as_str() {
+  let p = (tag("true").attempt() | tag("false").attempt()).map(|e| match e.as_str() {
     "true" => Expr::of_bool_literal(true),
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
-- 
2.43.0

