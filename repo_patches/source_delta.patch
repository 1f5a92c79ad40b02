From 94cbedbd5d465c51886d5e60f467e7ca21b5e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:16 +0000
Subject: [PATCH 01/25] fix: Not unit reports the minimum length of what it
 matches, not of its inner unit

---
 src/neu/op_not.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..57c33bc 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -109,7 +109,8 @@ where
     }
 
     fn min_length(&self) -> usize {
-        self.unit.min_length()
+        // the value that not match `unit` may be shorter than the value match it
+        1
     }
 }
 
-- 
2.43.0


From 2332850f819c91a1f85e878eea8c70a3cdc18be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:16 +0000
Subject: [PATCH 02/25] fix: Repeat2 and Separate2 stop matching once N
 elements are collected

---
 src/ctor/repeat2.rs | 4 ++--
 src/ctor/sep.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From 05b9ccb7cd4fd7a164ae19b6651bb7ca84e75f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:16 +0000
Subject: [PATCH 03/25] fix: longest token alternatives leave the offset at the
 end of the chosen match

---
 src/ctor.rs  | 4 +++-
 src/regex.rs | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..d6a683f 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // continue from the end of longest match, or restore offset if no match
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..4e1beb6 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -809,6 +809,7 @@ where
     move |slice: &[T], ctx: &mut C| {
         let beg = ctx.offset();
         let mut longest = None;
+        let mut end = beg;
 
         for item in slice.iter() {
             // reset offset for every regex
@@ -819,8 +820,11 @@ where
                 && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
             {
                 longest = Some(span);
+                end = ctx.offset();
             }
         }
+        // continue from the end of longest match, or restore offset if no match
+        ctx.set_offset(end);
         longest.ok_or(err)
     }
 }
-- 
2.43.0


From 6bc25379cb6bd636b0b17bc79e91508ed3319865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 04/25] fix: SepCollect stops after the element which is not
 followed by a separator

---
 src/ctor/sep.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..3b33829 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -1099,20 +1099,22 @@ where
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
+                // don't match any more after delimiter failed
+                if end {
+                    return None;
+                }
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
+                    if s_span.is_err() {
+                        end = true;
+                    }
+                    // The current value is captured only
+                    // when the current delimiter matches successfully
+                    // or the skip flag is true.
+                    if s_span.is_ok() || self.skip {
+                        cnt += 1;
+                        return Some(ret);
                     }
                     None
                 })
-- 
2.43.0


From 81c7c6c2fcb9d1735c9e0e5d04dca9494b623141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:28 +0000
Subject: [PATCH 05/25] fix: with_skip(false) gives back the trailing element
 which is not part of the result

---
 src/ctor/sep.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 3b33829..b582e55 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -508,15 +508,21 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
+            let mut beg = offset;
+
             while let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
                     vals.push(val);
+                } else {
+                    // give back the element not followed by separator
+                    ctx.set_offset(beg);
                 }
                 if s_span.is_err() {
                     break;
                 }
+                beg = ctx.offset();
             }
             let ret = if vals.len() >= self.min {
                 Ok(vals)
@@ -546,6 +552,8 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_regex_beg!("Separate", range, offset);
+            let mut beg = offset;
+
             while let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -555,10 +563,14 @@ mod alloc_sep {
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                } else {
+                    // give back the element not followed by separator
+                    ctx.set_offset(beg);
                 }
                 if s_span.is_err() {
                     break;
                 }
+                beg = ctx.offset();
             }
             let ret = if cnt >= self.min {
                 Ok(total)
@@ -790,12 +802,17 @@ where
 
         debug_ctor_beg!("Separate2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
                     vals[cnt] = Some(val);
                     cnt += 1;
+                } else {
+                    // give back the element not followed by separator
+                    ctx.set_offset(beg);
                 }
                 if s_span.is_err() {
                     break;
@@ -833,6 +850,8 @@ where
 
         debug_regex_beg!("Separate2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -842,6 +861,9 @@ where
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                } else {
+                    // give back the element not followed by separator
+                    ctx.set_offset(beg);
                 }
                 if s_span.is_err() {
                     break;
@@ -1103,6 +1125,8 @@ where
                 if end {
                     return None;
                 }
+                let beg = ctx.offset();
+
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
@@ -1116,6 +1140,8 @@ where
                         cnt += 1;
                         return Some(ret);
                     }
+                    // give back the element not followed by separator
+                    ctx.set_offset(beg);
                     None
                 })
             }))
@@ -1148,6 +1174,8 @@ where
         let range: CRange<usize> = (self.min..).into();
 
         debug_regex_beg!("SepCollect", range, offset);
+        let mut beg = offset;
+
         while let Ok(p_span) = ctx.try_mat(&self.pat) {
             let s_span = ctx.try_mat(&self.sep);
 
@@ -1157,10 +1185,14 @@ where
                 if let Ok(sep_ret) = s_span {
                     total.add_assign(sep_ret);
                 }
+            } else {
+                // give back the element not followed by separator
+                ctx.set_offset(beg);
             }
             if s_span.is_err() {
                 break;
             }
+            beg = ctx.offset();
         }
         let ret = if cnt >= self.min {
             Ok(total)
-- 
2.43.0


From 5c33dffec6be9a61198cd479cae44c65f8b27af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 06/25] fix: repetitions end after the last accepted element
 when an element's value is rejected

---
 src/ctor/collect.rs |  8 +++++++-
 src/ctor/repeat.rs  |  7 ++++++-
 src/ctor/repeat2.rs |  7 ++++++-
 src/ctor/sep.rs     | 16 +++++++++++++---
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..796d1c3 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -169,7 +169,13 @@ where
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
+                let beg = ctx.offset();
+                let ret = self.pat.construct(ctx, func).inspect_err(|_| {
+                    // the handler or mapper may fail after match
+                    ctx.set_offset(beg);
+                });
+
+                ret.ok().inspect(|_| {
                     cnt += 1;
                 })
             }))
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..700bc05 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -218,7 +218,12 @@ where
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
-            if let Ok(val) = self.pat.construct(ctx, handler) {
+            let beg = ctx.offset();
+
+            if let Ok(val) = self.pat.construct(ctx, handler).inspect_err(|_| {
+                // the handler or mapper may fail after match
+                ctx.set_offset(beg);
+            }) {
                 vals.push(val);
                 cnt += 1;
             } else {
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..96139a6 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -166,7 +166,12 @@ where
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
         while cnt < N {
-            if let Ok(val) = self.pat.construct(ctx, handler) {
+            let beg = ctx.offset();
+
+            if let Ok(val) = self.pat.construct(ctx, handler).inspect_err(|_| {
+                // the handler or mapper may fail after match
+                ctx.set_offset(beg);
+            }) {
                 vals[cnt] = Some(val);
                 cnt += 1;
             } else {
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index b582e55..cbc036c 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -510,7 +510,10 @@ mod alloc_sep {
             debug_ctor_beg!("Separate", range, offset);
             let mut beg = offset;
 
-            while let Ok(val) = self.pat.construct(ctx, func) {
+            while let Ok(val) = self.pat.construct(ctx, func).inspect_err(|_| {
+                // the handler or mapper may fail after match
+                ctx.set_offset(beg);
+            }) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
@@ -804,7 +807,10 @@ where
         while cnt < N {
             let beg = ctx.offset();
 
-            if let Ok(val) = self.pat.construct(ctx, func) {
+            if let Ok(val) = self.pat.construct(ctx, func).inspect_err(|_| {
+                // the handler or mapper may fail after match
+                ctx.set_offset(beg);
+            }) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
@@ -1126,8 +1132,12 @@ where
                     return None;
                 }
                 let beg = ctx.offset();
+                let ret = self.pat.construct(ctx, func).inspect_err(|_| {
+                    // the handler or mapper may fail after match
+                    ctx.set_offset(beg);
+                });
 
-                self.pat.construct(ctx, func).ok().and_then(|ret| {
+                ret.ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
                     if s_span.is_err() {
-- 
2.43.0


From 0383ee249a5212cbbf5ad964bec622daa854b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 07/25] fix: report OutOfBound instead of panic when the offset
 or a span is outside the data

---
 src/ctx.rs           |  4 +++-
 src/ctx/regex.rs     | 12 ++++++------
 src/neu/opt.rs       |  4 ++--
 src/regex/consume.rs |  2 +-
 src/regex/literal.rs |  2 +-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..b3c07d6 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..6f77f47 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -373,9 +373,9 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
@@ -425,9 +425,9 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
diff --git a/src/neu/opt.rs b/src/neu/opt.rs
index b314d48..b584f19 100644
--- a/src/neu/opt.rs
+++ b/src/neu/opt.rs
@@ -195,7 +195,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Opt", ctx.offset());
         if let Ok(mut iter) = ctx.peek()
@@ -393,7 +393,7 @@ where
         let mut beg = None;
         let mut end = None;
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Many0", ctx.offset());
         if let Ok(mut iter) = ctx.peek() {
diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 2ccc65e..70c9c81 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -77,7 +77,7 @@ where
         let length = self.0;
 
         debug_regex_beg!("Consume", length, ctx.offset());
-        let ret = if ctx.len() - ctx.offset() >= length {
+        let ret = if ctx.len().saturating_sub(ctx.offset()) >= length {
             Ok(new_span_inc(ctx, length))
         } else {
             Err(Error::Consume)
diff --git a/src/regex/literal.rs b/src/regex/literal.rs
index 1ca067d..a680086 100644
--- a/src/regex/literal.rs
+++ b/src/regex/literal.rs
@@ -104,7 +104,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::Literal);
         let slice_len = self.literal.length();
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Literal", ctx.offset());
         if remaining_len >= slice_len && self.literal.prefix_of(&ctx.orig()?) {
-- 
2.43.0


From b1ef89ddc10a8541327b22980e0b578d7c9929ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:22 +0000
Subject: [PATCH 08/25] fix: minimum length of a bounded repetition no longer
 overflows

---
 src/neu/times.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neu/times.rs b/src/neu/times.rs
index fda70ea..b8d8a7d 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -231,7 +231,7 @@ where
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
-        if remaining_len >= M * self.unit.min_length() {
+        if remaining_len >= M.saturating_mul(self.unit.min_length()) {
             while cnt < N {
                 if let Some(pair) = iter.next() {
                     if self.unit.is_match(&pair.1) && self.cond.check(ctx, &pair)? {
@@ -447,8 +447,10 @@ where
         });
 
         let min_length = || match self.range.start_bound() {
-            core::ops::Bound::Included(max) => max * self.unit.min_length(),
-            core::ops::Bound::Excluded(max) => max.saturating_sub(1) * self.unit.min_length(),
+            core::ops::Bound::Included(max) => max.saturating_mul(self.unit.min_length()),
+            core::ops::Bound::Excluded(max) => {
+                max.saturating_sub(1).saturating_mul(self.unit.min_length())
+            }
             core::ops::Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From 8013e793e0186a6e4944aed86785b8acfcb20f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:22 +0000
Subject: [PATCH 09/25] fix: LongestTokenMatch continues from the end of the
 chosen match when a policy skipped input before it

---
 src/ctor/longest.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..a5bb79a 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -242,21 +242,31 @@ where
         debug_regex_beg!("LongestTokenMatch", offset);
 
         let l = debug_regex_stage!("LongestTokenMatch", "l", ctx.try_mat(&self.left));
+        let off_l = ctx.offset();
 
         // reset offset
         ctx.set_offset(offset);
 
         let r = debug_regex_stage!("LongestTokenMatch", "r", ctx.try_mat(&self.right));
+        let off_r = ctx.offset();
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
-            (Ok(l), Err(_)) => Ok(l),
-            (Err(_), Ok(r)) => Ok(r),
+            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() {
+                (off_l, l)
+            } else {
+                (off_r, r)
+            }),
+            (Ok(l), Err(_)) => Ok((off_l, l)),
+            (Err(_), Ok(r)) => Ok((off_r, r)),
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        // set offset
+        ctx.set_offset(ret.as_ref().map(|v| v.0).unwrap_or(offset));
+
+        let ret = ret.map(|v| v.1);
+
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From 52104e7fdf4447696cc28502b7a624e5e3c6f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:57 +0000
Subject: [PATCH 10/25] fix: dynamic builders restore the offset when the
 builder function fails

---
 src/ctor/dthen.rs    | 4 +++-
 src/regex/builder.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..57e06bb 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -227,11 +227,13 @@ where
             )
         };
         let l = ctx.process_ret(l)?;
+        let r = (self.func)(ctx.ctx(), &l);
+        let r = ctx.process_ret(r)?;
         let r = {
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                r.construct(ctx.ctx(), func)
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From 16e0e7df3ec443a4ff420db6016a26c83e9e5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:57 +0000
Subject: [PATCH 11/25] fix: a failed match in PolicyCtx gives back the input
 skipped by the policy

---
 src/ctx/policy.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..426e2f8 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -155,8 +155,16 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let offset = self.offset();
+        let ret = match self.regex.try_parse(&mut self.inner) {
+            Ok(_) => pat.try_parse(self),
+            Err(e) => Err(e),
+        };
+
+        // also give back the input skipped by policy regex
+        ret.inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
-- 
2.43.0


From c30e54cf96f75c2e23c7395b28996248564ae06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:57 +0000
Subject: [PATCH 12/25] fix: find and find_all never move the offset past the
 end of the input

---
 src/ctx.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index b3c07d6..ec5e336 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -503,7 +503,9 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                if ctx.offset() < ctx.len() {
+                    ctx.inc(1);
+                }
                 None
             }
         };
@@ -583,7 +585,9 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                if ctx.offset() < ctx.len() {
+                    ctx.inc(1);
+                }
                 None
             }
         };
-- 
2.43.0


From a091724e4e71b5995ad463448e03f80489c4bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:57 +0000
Subject: [PATCH 13/25] fix: CtxGuard::inc returns the span which is advanced
 over

---
 src/ctx/guard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctx/guard.rs b/src/ctx/guard.rs
index 3c83bf8..ddf2770 100644
--- a/src/ctx/guard.rs
+++ b/src/ctx/guard.rs
@@ -62,7 +62,7 @@ where
 
     /// Advances the context by `len` bytes and returns the corresponding [`Span`].
     pub fn inc(&mut self, len: usize) -> Span {
-        let span = Span::new(self.beg(), len);
+        let span = Span::new(self.end(), len);
 
         self.ctx.inc(len);
         span
-- 
2.43.0


From 3d4327f2f987d712cf2f5f00cb68a1ce13ec3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:57 +0000
Subject: [PATCH 14/25] fix: size_hint of span iterators does not underflow
 after the iterator is exhausted

---
 src/iter/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..48003c3 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -43,7 +43,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
@@ -115,7 +115,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
-- 
2.43.0


From ff5bfd44d7145fdc7aac6a67047f3e316a07559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 15/25] fix: rec_parser_sync no longer deadlocks when the
 parser is entered recursively

---
 src/ctor.rs      | 7 +++++++
 src/lib.rs       | 1 +
 src/regex.rs     | 7 +++++++
 src/regex/rec.rs | 9 +++++----
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index d6a683f..4d7f433 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index 4e1beb6..e422a5c 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..50db4d4 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,12 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        // the parser is never locked while parsing, it may be entered recursively
+        let _ = r_ctor.set(Adapter::dyn_box_sync(ctor));
         r_ctor
     }
 
-- 
2.43.0


From e8f5ab6bc67a9b7c5c38bdc3453eb4d03fd5a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 16/25] fix: bounded reports Error::Bounded for a value out of
 bound

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index d6ce9d9..511a9be 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -670,7 +670,7 @@ where
         if self.min <= val && val < self.max {
             Ok(val)
         } else {
-            Err(Error::SelectEq)
+            Err(Error::Bounded)
         }
     }
 }
-- 
2.43.0


From 39a482ecb08c23dfc9a79acae27c82c2e2abc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 17/25] fix: iterators over an ArrayStorer group skip empty
 places instead of ending there

---
 src/iter/span.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 48003c3..fcca920 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -105,17 +105,23 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        // skip the places which hold no span
+        while let Some(span) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = span {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len().saturating_sub(self.cur);
+        let size = self
+            .spans
+            .iter()
+            .skip(self.cur)
+            .filter(|v| v.is_some())
+            .count();
 
         (size, Some(size))
     }
@@ -140,13 +146,13 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        // skip the places which hold no span
+        while let Some(span) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if span.is_some() {
+                return *span;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From 19fcc55323814e542f9a2b754af6ceede38d55cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 18/25] fix: ArrayStorer::spans returns None for a group
 without spans

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index de15bb5..ce4c4cd 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -398,7 +398,7 @@ impl<const M: usize, const N: usize> ArrayStorer<M, N> {
     /// - The group exists but contains no spans
     pub fn spans(&self, id: usize) -> Option<&[Option<Span>]> {
         self.spans.get(id).and_then(|v| {
-            if v.is_empty() {
+            if v.iter().all(|v| v.is_none()) {
                 None
             } else {
                 Some(v.as_slice())
-- 
2.43.0


From 8be4426d1cd043437c8829c6f4573819f97c4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 19/25] fix: get_by_span with an overflowing span returns None
 instead of panic

---
 src/iter/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 4c7715a..22d01b2 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -19,7 +19,7 @@ impl IndexBySpan for str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -27,7 +27,7 @@ impl IndexBySpan for &'_ str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -35,7 +35,7 @@ impl IndexBySpan for [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -43,7 +43,7 @@ impl IndexBySpan for &'_ [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -52,7 +52,7 @@ impl IndexBySpan for crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -61,6 +61,6 @@ impl IndexBySpan for &'_ crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
-- 
2.43.0


From cfe192e5d7e3ef2a3926fb4740d0be9bf831c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 20/25] fix: neu!() expands to the whitespace unit

---
 src/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.rs b/src/macro.rs
index bfeeb28..8f5d123 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -261,7 +261,7 @@ macro_rules! neu {
         $crate::neu::equal($ch)
     };
     () => {
-        $crate::neu::space()
+        $crate::neu::whitespace()
     };
 }
 
-- 
2.43.0


From 84dfa51061951f08c0a39f5724322e8c7b6debae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:37 +0000
Subject: [PATCH 21/25] fix: try_mat_policy restores the offset when one of its
 parts fails

---
 src/ctx/policy.rs | 15 +++++++++++----
 src/ctx/regex.rs  | 17 ++++++++++++-----
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 426e2f8..ba8f40f 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -184,11 +184,18 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let offset = self.offset();
+        let ret = before.try_parse(self).and_then(|_| {
+            let ret = pat.try_parse(self)?;
+
+            after.try_parse(self)?;
+            Ok(ret)
+        });
 
-        after.try_parse(self)?;
-        Ok(ret)
+        // also give back the input consumed by `before` and `pat`
+        ret.inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 6f77f47..dfc1230 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -459,11 +459,18 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = self.offset();
+        let ret = before.try_parse(self).and_then(|_| {
+            let ret = pat.try_parse(self)?;
+
+            after.try_parse(self)?;
+            Ok(ret)
+        });
+
+        // also give back the input consumed by `before` and `pat`
+        ret.inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
-- 
2.43.0


From a534844d055c5d918b51f3f651400ad242a7aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 22/25] fix: matching chooses the longest alternative by the
 position it reaches, like constructing

---
 src/ctor/longest.rs | 2 +-
 src/regex.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index a5bb79a..45870d2 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -252,7 +252,7 @@ where
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() {
+            (Ok(l), Ok(r)) => Ok(if off_l >= off_r {
                 (off_l, l)
             } else {
                 (off_r, r)
diff --git a/src/regex.rs b/src/regex.rs
index e422a5c..f7eb232 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -824,7 +824,7 @@ where
 
             // match regex
             if let Ok(span) = ctx.try_mat(t2p(item))
-                && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
+                && (longest.is_none() || ctx.offset() > end)
             {
                 longest = Some(span);
                 end = ctx.offset();
-- 
2.43.0


From aa9868e5e9ee3ff59d4bf3f4870695eca0d9b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:47 +0000
Subject: [PATCH 23/25] fix: repeat and sep do not reserve memory for more
 elements than the input can hold

---
 src/ctor/repeat.rs | 4 +++-
 src/ctor/sep.rs    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 700bc05..44fe66a 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -214,7 +214,9 @@ where
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
         let offset = ctx.offset();
         let mut cnt = 0;
-        let mut vals = crate::alloc::Vec::with_capacity(self.capacity);
+        // never reserve more than the remaining input can fill
+        let capacity = self.capacity.min(ctx.len().saturating_sub(offset));
+        let mut vals = crate::alloc::Vec::with_capacity(capacity);
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index cbc036c..1d3eb77 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -504,7 +504,10 @@ mod alloc_sep {
         #[inline(always)]
         fn construct(&self, ctx: &mut C, func: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
             let offset: usize = ctx.offset();
-            let mut vals = crate::alloc::Vec::with_capacity(self.capacity.max(self.min));
+            // never reserve more than the remaining input can fill
+            let capacity = self.capacity.max(self.min);
+            let capacity = capacity.min(ctx.len().saturating_sub(offset));
+            let mut vals = crate::alloc::Vec::with_capacity(capacity);
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
-- 
2.43.0


From f09fca9bbe7914ab32983bafbcf995568dea6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:42 +0000
Subject: [PATCH 24/25] fix: find and find_all step over whole characters

After a failed or empty match the search advanced by one byte, so in text
it tried the pattern inside of a multi-byte character and could report a
span that does not begin on a character boundary.
---
 src/ctx.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index ec5e336..54a3088 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -503,9 +503,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                if ctx.offset() < ctx.len() {
-                    ctx.inc(1);
-                }
+                inc_one(ctx);
                 None
             }
         };
@@ -585,9 +583,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                if ctx.offset() < ctx.len() {
-                    ctx.inc(1);
-                }
+                inc_one(ctx);
                 None
             }
         };
@@ -681,6 +677,16 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
 
 impl<'a, T> MatchMulti<'a> for T where Self: Sized + Match<'a> {}
 
+// step over one item, never stop inside of it
+fn inc_one<'a>(ctx: &mut impl Context<'a>) {
+    while ctx.offset() < ctx.len() {
+        ctx.inc(1);
+        if ctx.peek().is_ok() {
+            break;
+        }
+    }
+}
+
 // make new span [offset, offset + len) and increment offset
 pub(crate) fn new_span_inc<'a>(ctx: &mut impl Context<'a>, len: usize) -> Span {
     let span = Span::new(ctx.offset(), len);
-- 
2.43.0


From 54347d22e043e9acfccc49d95aadb49696570c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 25/25] fix: logging a constructed value does not underflow
 when a built parser moved back

A parser built while constructing may set the context to a position before
the one the enclosing parser began at.  With the log or tracing feature
enabled and recording, the length reported for the value was computed with a
plain subtraction and panicked.
---
 src/log.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 5227dab..3bf5789 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -161,7 +161,7 @@ mod macro_for_log {
                 "{}(Ctor) beg = {}, len = {} -> {:?}",
                 $name,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
@@ -171,7 +171,7 @@ mod macro_for_log {
                 $name,
                 $val,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
-- 
2.43.0

