From 2627236ad2901afee4b292b82313cb8d5045e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 01/53] verif hook: small block size under --cfg nd_verif

---
 src/params.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/params.rs b/src/params.rs
index e01189d..52bf15d 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -4,7 +4,14 @@
 #[cfg(test)]
 pub const BLOCK_SIZE: usize = 29 * 5;
 
-#[cfg(not(test))]
+// verification builds (`--cfg nd_verif`) use the small block size of the unit tests,
+// so that every block-boundary path is reached with small inputs
+#[allow(unexpected_cfgs)]
+#[cfg(all(nd_verif, not(test)))]
+pub const BLOCK_SIZE: usize = 29 * 5;
+
+#[allow(unexpected_cfgs)]
+#[cfg(not(any(test, nd_verif)))]
 pub const BLOCK_SIZE: usize = 2 * 1024 * 1024;
 
 pub const MARGIN_SIZE: usize = 256;
-- 
2.43.0


From d07a9dae5980ad84a4dae93b92bca245ca892b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 02/53] fix: walk slicer: report bad spans and indices as
 errors, handle chunks that cross the buffer end or the end of the stream

---
 src/segment/walk.rs | 126 +++++++++++++++++++++++---------------------
 1 file changed, 67 insertions(+), 59 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..a41dc58 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -5,7 +5,7 @@ use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::eval::{Rpn, VarAttr};
 use crate::params::BLOCK_SIZE;
-use anyhow::Result;
+use anyhow::{anyhow, Context, Result};
 use std::collections::HashMap;
 
 struct SpanFetcher {
@@ -31,48 +31,58 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut dyn ByteStream, filled: &mut (bool, usize)) -> Result<i64> {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
-        if index < 0 {
-            panic!("slice index being negative (got: {index}).");
-        }
-
-        let offset = skip + index as usize * elem_size;
-        let min_fill_bytes = offset + elem_size;
+        let index = usize::try_from(index).map_err(|_| anyhow!("array index being negative (got: {index})"))?;
+        let offset = index.checked_mul(elem_size).and_then(|x| x.checked_add(skip));
+        let tail = offset.and_then(|x| x.checked_add(elem_size));
+        let (offset, tail) = match (offset, tail) {
+            (Some(offset), Some(tail)) => (offset, tail),
+            _ => return Ok(0), // always out of the stream
+        };
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
-        if bytes < min_fill_bytes {
-            return 0;
+        if tail > filled.1 && !filled.0 {
+            *filled = src.fill_buf(tail)?;
+        }
+        if tail > filled.1 {
+            return Ok(0);
         }
 
         // always in the little endian for now
         // FIXME: explicit big / little endian with "bb", "hb", "wb", ..., and "bl", "hl", "wl", ...
-        let stream = src.as_slice();
-        let stream = &stream[offset..offset + 8];
+        let mut elem = [0u8; 8];
+        elem[..elem_size].copy_from_slice(&src.as_slice()[offset..tail]);
 
-        // leave the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
-        let val = i64::from_le_bytes(stream.try_into().unwrap());
+        // sign-extend the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
+        let val = i64::from_le_bytes(elem);
         let shift = 64 - 8 * elem_size;
-        (val << shift) >> shift
+        Ok((val << shift) >> shift)
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
-        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
+    fn get_next_span(&self, skip: usize, src: &mut dyn ByteStream, filled: &mut (bool, usize)) -> Result<usize> {
+        let mut error = None;
+        let getter = |id: usize, val: i64| -> i64 {
+            Self::get_array_element(skip, id, val, src, filled).unwrap_or_else(|e| {
+                error.get_or_insert(e);
+                0
+            })
+        };
 
         let val = self.rpn.evaluate(getter);
-        if val.is_err() {
-            panic!("failed on evaluating expression: {:?}", &self.expr);
+        if let Some(e) = error {
+            return Err(e.context(format!("failed on evaluating expression: {:?}", &self.expr)));
         }
 
-        let val = val.unwrap();
+        let val = val.with_context(|| format!("failed on evaluating expression: {:?}", &self.expr))?;
         if val <= 0 {
-            panic!(
-                "slice span being non-positive on evaluating expression: {:?} (got: {}).",
-                &self.expr, val
-            );
+            return Err(anyhow!(
+                "slice span being non-positive on evaluating expression: {:?} (got: {})",
+                &self.expr,
+                val
+            ));
         }
-        val as usize
+        Ok(val as usize)
     }
 }
 
@@ -105,22 +115,30 @@ impl WalkSlicer {
         })
     }
 
-    fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+    fn calc_next_chunk_len(&mut self, filled: &mut (bool, usize)) -> Result<usize> {
+        let mut chunk_len = 0usize;
         for (i, f) in self.fetchers.iter().enumerate() {
-            let span = f.get_next_span(self.pos, &mut self.src);
+            let span = f.get_next_span(self.pos, &mut *self.src, filled)?;
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
-        chunk_len
+        Ok(chunk_len)
     }
 
-    fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+    fn extend_segment_buf(&mut self, chunk_len: usize, filled: &mut (bool, usize)) -> Result<()> {
+        let chunk_tail = self.pos.saturating_add(chunk_len);
+        if chunk_tail > filled.1 && !filled.0 {
+            *filled = self.src.fill_buf(chunk_tail)?;
+        }
+
+        let bytes = filled.1;
+        if bytes < chunk_tail {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            eprintln!(
+                "chunk clipped (request = {chunk_len}, remaining bytes = {}).",
+                bytes - self.pos
+            );
         }
 
         for span in &self.spans {
@@ -128,44 +146,34 @@ impl WalkSlicer {
                 break;
             }
 
-            let len = std::cmp::min(self.pos + span, bytes) - self.pos;
+            let len = std::cmp::min(*span, bytes - self.pos);
             if len < *span {
                 eprintln!("slice clipped (span = {span}, remaining bytes = {len}).");
             }
 
             self.segments.push(Segment { pos: self.pos, len });
-            self.pos += span;
+            self.pos += len;
         }
-        Ok((is_eof, bytes))
+        Ok(())
     }
 }
 
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
-
-        if is_eof && self.pos >= bytes {
-            let count = self.segments.len();
-            let max_consume = std::cmp::min(bytes, self.pos);
-            return Ok((is_eof, bytes, count, max_consume));
+        let mut filled = self.src.fill_buf(request)?;
+
+        // walk over the bytes already in the buffer. the last chunk may go across the
+        // end of the buffer, in which case the buffer is extended to have the whole chunk.
+        let limit = filled.1;
+        while self.pos < limit {
+            let chunk_len = self.calc_next_chunk_len(&mut filled)?;
+            self.extend_segment_buf(chunk_len, &mut filled)?;
         }
 
-        let (is_eof, bytes) = loop {
-            let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
-            }
-
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
-            }
-        };
-
-        let count = self.segments.len();
-        let max_consume = std::cmp::min(bytes, self.pos);
-        Ok((is_eof, bytes, count, max_consume))
+        let (is_eof, bytes) = filled;
+        let is_eof = is_eof && self.pos >= bytes;
+        Ok((is_eof, bytes, self.segments.len(), self.pos))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
-- 
2.43.0


From 9775627d5ff4f1c2ba4c8f4e916da4e6c7996f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 03/53] fix: eval: do not apply the rewriting rules for
 additions and variables to other operators, array elements, and comparisons

---
 src/eval.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..19259be 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -491,10 +491,7 @@ fn is_comm_1(op: char) -> bool {
 }
 
 fn is_comm_2(op1: char, op2: char) -> bool {
-    if is_addsub(op1) && is_addsub(op2) {
-        return true;
-    }
-    is_comm_1(op1) && op1 == op2
+    is_addsub(op1) && is_addsub(op2)
 }
 
 // fn is_comm_3(op1: char, op2: char, op3: char) -> bool {
@@ -687,7 +684,7 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(op1), llhs);
                 return Some((true, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (tokens[lhs - 1].0, y) {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs - 1], tokens[root - 1]) {
                 if x == y {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
@@ -706,8 +703,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(swap_op_hands(op)), ylen + 1);
                 return Some((false, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (x, y) {
-                if x == y {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs], tokens[root - 1]) {
+                if x == y && is_addsub(op) {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
                     return Some((false, lhs));
@@ -789,7 +786,7 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), _), x, Op(op)) if is_addsub(op) => {
+        ((Var(_, 0), 0), x, Op(op)) if is_addsub(op) && tokens[root - 1].1 == 0 => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
@@ -855,7 +852,7 @@ fn remove_prefix_unary(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     match (tokens[lhs], tokens[root].0) {
         ((Prefix(s1), llhs), Prefix(s2)) => {
-            if s1 == s2 {
+            if s1 == s2 && s1 != 'G' {
                 // x ! ! => x
                 remove_prefix_unary(&mut tokens[..lhs - llhs + 1])
             } else if is_addsub(s1) && is_addsub(s2) {
@@ -911,14 +908,14 @@ fn remove_prefix_binary(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         (x, y, Op(op)) if is_addsub(op) => {
             let (s1, lhs, root) = match x {
-                (Prefix(s1), llhs) => {
+                (Prefix(s1 @ ('+' | '-')), llhs) => {
                     tokens[lhs - llhs + 1..].rotate_left(llhs);
                     (s1, lhs - llhs, root - llhs)
                 }
                 _ => ('+', lhs, root),
             };
             let (s2, root) = match y {
-                Prefix(s2) => (s2, root - 1),
+                Prefix(s2 @ ('+' | '-')) => (s2, root - 1),
                 _ => ('+', root),
             };
             save_and_flip(tokens, root, Op(gather_sign2(s1, op, s2)), root - lhs);
-- 
2.43.0


From 2bad06f9bec0d0197a062ca5fd88a14034fb15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 04/53] fix: eval: give comparisons and bitwise operators the
 same precedence as in C

---
 src/eval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 19259be..cb214a6 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -62,8 +62,11 @@ fn latter_precedes(former: &Token, latter: &Token) -> bool {
             } else if is_pow(former) || is_pow(latter) {
                 return is_pow(latter);
             }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
-            false
+            // comparison > '&' > '^' > '|', the same as in C
+            let rank = |op: char| "|^&".find(op).unwrap_or(3);
+            debug_assert!(rank(former) < 3 || is_cmp(former));
+            debug_assert!(rank(latter) < 3 || is_cmp(latter));
+            rank(former) < rank(latter)
         }
         _ => true,
     }
-- 
2.43.0


From 4911ffa00d41b84e85f036ff903a71ecad454098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 05/53] fix: eval: accept unary operators after a unary
 operator or an opening bracket

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index cb214a6..ae16cf8 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -312,7 +312,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
         let (former, latter) = tokens.split_at_mut(1);
         match (former[0], latter[0]) {
             // fixup unary op
-            (Op(_) | Paren('('), Op(y)) if is_unary(y) => {
+            (Op(_) | Prefix(_) | Paren('(' | '['), Op(y)) if is_unary(y) => {
                 latter[0] = Prefix(if y == '~' { '!' } else { y });
             }
             // prefix followed by an expression
-- 
2.43.0


From 166a66845bda1d2572fc4ed7c48ac430f6313f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 06/53] fix: eval: parse constants of any length and the E and
 Ei prefixes, report overflows

---
 src/eval.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index ae16cf8..0291da2 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -180,7 +180,7 @@ where
         prefix_base = 1024;
     };
 
-    Some(prefix_base.pow(n))
+    prefix_base.checked_pow(n)
 }
 
 fn parse_val<I>(first: char, it: &mut Peekable<I>) -> Option<Token>
@@ -208,52 +208,51 @@ where
         }
     };
 
-    let mut skip_mask = 1u64;
+    let (mut prev_skip, mut contiguous_skip) = (true, false);
     let mut push_skip_mask = |skip: bool| {
-        skip_mask = (skip_mask << 1) | (skip as u64);
+        contiguous_skip |= prev_skip && skip;
+        prev_skip = skip;
     };
 
-    let mut i = 0;
-    let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
+    let mut val = 0u64;
+    let mut push_digit = |digit: i64| -> Option<()> {
+        if digit >= num_base {
+            return None;
+        }
+        val = val.checked_mul(num_base as u64)?.checked_add(digit as u64)?;
+        Some(())
     };
 
     let (skip, digit) = parse_char(first)?;
     push_skip_mask(skip);
-    push_digit(digit);
+    push_digit(digit)?;
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
+        if num_base <= 10 && digit == 14 {
+            break; // 'e' and 'E' are not digits but SI prefixes
+        }
         push_skip_mask(skip);
         if !skip {
-            push_digit(digit);
+            push_digit(digit)?;
         }
         it.next()?;
     }
 
     // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
-    if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
+    if contiguous_skip || prev_skip {
         return None;
     }
-    let mut val = 0;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
-            return None;
-        }
-        val = val * num_base + digit as i64;
-    }
 
     let scaler = match it.peek() {
         Some(&x) if tolower(x) == 'k' => parse_prefix(1, it)?,
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val((val as i64).checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From 88a895f3dce8c24e1c2dd427094f052e2be481d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 07/53] fix: eval: report division by zero as an error

---
 src/eval.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 0291da2..d2e1ce3 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -451,6 +451,10 @@ fn apply_prefix(c: char, x: i64) -> i64 {
     }
 }
 
+fn is_undefined(c: char, x: i64, y: i64) -> bool {
+    (c == '/' || c == '%') && (y == 0 || (x == i64::MIN && y == -1))
+}
+
 fn apply_op(c: char, x: i64, y: i64) -> i64 {
     match c {
         '+' => x + y,
@@ -731,7 +735,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
     let lhs = root - tokens[root].1;
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
         // 2 + 3 => 5 (leaf)
-        (Val(x), Val(y), Op(op)) => {
+        (Val(x), Val(y), Op(op)) if !is_undefined(op, x, y) => {
             tokens[lhs].0 = Val(apply_op(op, x, y));
             Some(lhs)
         }
@@ -1172,6 +1176,9 @@ where
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
+                if is_undefined(op, *x, y) {
+                    return Err(anyhow!("division by zero or overflow: {} {} {}", *x, op, y));
+                }
                 *x = apply_op(op, *x, y);
             }
             (Var(id, c), lhs) => {
-- 
2.43.0


From e02ebd6821f92130a964b9a43544d31f8ea91a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 08/53] fix: mapper: avoid an underflow for ranges like e-5..0

---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..44a767a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,7 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
+            (EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),
             _ => usize::MAX,
         }
     }
-- 
2.43.0


From 2521e77f3b63742329e38dd7eaad2eed18095a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 09/53] fix: scatter: do not skip or renumber slices that come
 after ones kept in the buffer

---
 src/drain/scatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..41af5f7 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From db93f57942923a82e9beca2332cffc513b682b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 10/53] fix: scatter: truncate the output file, as is done for
 the templated ones

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 41af5f7..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From 83b33428cc4ed286e2d5233169da76745696d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 11/53] fix: report a parse error of the first record, instead
 of panicking

---
 src/byte/patch.rs | 12 ++++++++----
 src/byte/text.rs  | 14 +++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..2ffc1d9 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -64,6 +64,7 @@ impl PatchFeeder {
 pub struct PatchStream {
     src: Box<dyn ByteStream>,
     patch: PatchFeeder,
+    is_primed: bool, // true if the first patch record has been read
     buf: StreamBuf,
     skip: usize,
     offset: usize,
@@ -71,12 +72,10 @@ pub struct PatchStream {
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
+            is_primed: false,
             buf: StreamBuf::new(),
             skip: 0,
             offset: 0,
@@ -86,6 +85,11 @@ impl PatchStream {
 
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        if !self.is_primed {
+            self.patch.fill_buf()?;
+            self.is_primed = true;
+        }
+
         self.buf.fill_buf(request, |_, buf| {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..5911dd3 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -81,18 +81,16 @@ impl TextFeeder {
 
 pub struct TextStream {
     line: TextFeeder,
+    is_primed: bool, // true if the first line has been read
     buf: StreamBuf,
     offset: usize,
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
+            is_primed: false,
             buf: StreamBuf::new_with_align(align, filler),
             offset: 0,
         }
@@ -101,6 +99,12 @@ impl TextStream {
 
 impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        // read the first line
+        if !self.is_primed {
+            self.line.fill_buf()?;
+            self.is_primed = true;
+        }
+
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
             if self.line.offset == usize::MAX {
-- 
2.43.0


From d6a49b0bf682564bda7245e3eb0a2c5c2c5e7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 12/53] fix: pipeline: do not pad the input text to the word
 size before parsing it

---
 src/pipeline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..2069c26 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,10 +330,13 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
         if self.in_format.is_binary() {
-            source
-        } else if self.in_format.is_gapless() {
+            return Box::new(RawStream::new(source, self.word_size, self.filler));
+        }
+
+        // the alignment and filler are for the parsed stream, not for the text
+        let source = Box::new(RawStream::new(source, 1, 0));
+        if self.in_format.is_gapless() {
             Box::new(GaplessTextStream::new(source, self.word_size, self.filler, &self.in_format))
         } else {
             Box::new(TextStream::new(source, self.word_size, self.filler, &self.in_format))
-- 
2.43.0


From 01022bcb1e530ae2e71118b63688f340ae4bac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 13/53] fix: patch: apply records at the end of the stream

---
 src/byte/patch.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 2ffc1d9..28eaebd 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -94,7 +94,7 @@ impl ByteStream for PatchStream {
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
                 if is_eof && len == 0 {
-                    return Ok(true);
+                    break;
                 }
 
                 let consume_len = std::cmp::min(self.skip, len);
@@ -103,14 +103,21 @@ impl ByteStream for PatchStream {
             }
 
             let (_, len) = self.src.fill_buf(BLOCK_SIZE)?;
+            if len == 0 {
+                // no more stream to be patched; put the array if the next record is right at the tail
+                if self.skip > 0 || self.patch.offset != self.offset {
+                    return Ok(true);
+                }
+
+                self.skip = self.patch.feed(self.offset, buf)?;
+                self.offset += self.skip;
+                return Ok(false);
+            }
+
             let mut rem_len = len;
             let mut stream = self.src.as_slice();
 
-            let is_eof = loop {
-                if rem_len == 0 {
-                    break true;
-                }
-
+            loop {
                 // region where we keep the original stream
                 let next_offset = std::cmp::min(self.offset + rem_len, self.patch.offset);
                 let fwd_len = next_offset - self.offset;
@@ -124,7 +131,7 @@ impl ByteStream for PatchStream {
                 // if there is no remaining patch line, rem_len always becomes 0
                 // note: patch.offset == usize::MAX there
                 if rem_len == 0 {
-                    break false;
+                    break;
                 }
                 debug_assert!(self.patch.offset != usize::MAX);
 
@@ -136,7 +143,7 @@ impl ByteStream for PatchStream {
                 if patch_span >= rem_len {
                     self.offset += patch_span;
                     self.skip = patch_span - rem_len;
-                    break false;
+                    break;
                 }
 
                 // otherwise forward the original stream
@@ -145,10 +152,10 @@ impl ByteStream for PatchStream {
 
                 let (_, rem_stream) = rem_stream.split_at(patch_span);
                 stream = rem_stream;
-            };
+            }
 
             self.src.consume(len);
-            Ok(is_eof)
+            Ok(false)
         })
     }
 
-- 
2.43.0


From 58b96d9301dffc81a9e70f1408c76b6d8e33f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 14/53] fix: tee: always append to the cache, wherever the
 reader left the file pointer

---
 src/byte/tee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..a841e8b 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -63,6 +63,8 @@ impl ByteStream for TeeStream {
 
         match self.cache.lock() {
             Ok(mut cache) => {
+                // the reader may have left the pointer in the middle of the file
+                cache.file.seek(SeekFrom::End(0)).unwrap();
                 cache.file.write_all(&stream[..bytes]).unwrap();
                 cache.clear_eof = true; // increment semaphore
             }
-- 
2.43.0


From f6301689113363fe972c372f9ba69d5515f2042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 15/53] fix: patch-back: do not truncate the stream, do not
 panic on commands that leave input unread, format slices only once in
 --out-format, and report errors

---
 src/drain/patch.rs | 158 +++++++++++++++++++++++++++++++++++----------
 src/pipeline.rs    |   3 +-
 2 files changed, 127 insertions(+), 34 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..0f2539e 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -5,9 +5,10 @@ use crate::byte::{ByteStream, PatchStream, RawStream};
 use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
-use anyhow::Result;
-use std::io::Write;
+use anyhow::{anyhow, Context, Result};
+use std::io::{ErrorKind, Read, Write};
 use std::process::{Child, ChildStdin, Command, Stdio};
+use std::sync::mpsc::{channel, Receiver};
 use std::thread::JoinHandle;
 
 struct BashPipe {
@@ -19,19 +20,40 @@ struct BashPipeWriter {
 }
 
 impl BashPipe {
-    fn new(command: &str) -> Self {
+    fn new(command: &str) -> Result<Self> {
         let child = Command::new("bash")
             .args(["-c", command])
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
             .spawn()
-            .unwrap();
-        BashPipe { child }
+            .with_context(|| format!("failed to run {command:?}"))?;
+        Ok(BashPipe { child })
     }
 
     fn spawn_reader(&mut self) -> RawStream {
-        let output = self.child.stdout.take().unwrap();
-        RawStream::new(Box::new(output), 1, 0)
+        let mut output = self.child.stdout.take().unwrap();
+
+        // always keep reading the output. otherwise the command (and then the writer of its input)
+        // could block while the consumer of the patches is waiting for the original stream.
+        let (sender, chunks) = channel();
+        std::thread::spawn(move || loop {
+            let mut buf = vec![0; 65536];
+            let chunk = match output.read(&mut buf) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                x => x.map(|len| {
+                    buf.truncate(len);
+                    buf
+                }),
+            };
+
+            let is_last = !matches!(&chunk, Ok(chunk) if !chunk.is_empty());
+            if sender.send(chunk).is_err() || is_last {
+                break;
+            }
+        });
+
+        let chunk = std::io::Cursor::new(Vec::new());
+        RawStream::new(Box::new(ChunkReader { chunks, chunk }), 1, 0)
     }
 
     fn spawn_writer(&mut self) -> BashPipeWriter {
@@ -41,9 +63,16 @@ impl BashPipe {
 }
 
 impl BashPipeWriter {
-    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        self.input.as_ref().unwrap().write_all(buf)?;
-        Ok(buf.len())
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        let ret = self.input.as_ref().map_or(Ok(()), |mut input| input.write_all(buf));
+        match ret {
+            Err(e) if e.kind() == ErrorKind::BrokenPipe => {
+                // the command doesn't need the rest of the slices
+                self.close();
+                Ok(())
+            }
+            x => x,
+        }
     }
 
     fn close(&mut self) {
@@ -51,53 +80,117 @@ impl BashPipeWriter {
     }
 }
 
+struct ChunkReader {
+    chunks: Receiver<std::io::Result<Vec<u8>>>,
+    chunk: std::io::Cursor<Vec<u8>>,
+}
+
+impl Read for ChunkReader {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if self.chunk.position() as usize >= self.chunk.get_ref().len() {
+            match self.chunks.recv() {
+                Ok(chunk) => self.chunk = std::io::Cursor::new(chunk?),
+                _ => return Ok(0),
+            }
+        }
+        self.chunk.read(buf)
+    }
+}
+
+// the cache of the original stream, being filled by the thread that feeds slices to the command
+struct OriginalStream {
+    cache: Box<dyn ByteStream>,
+    progress: Receiver<()>, // closed when the thread consumed all of the original stream
+    is_complete: bool,
+}
+
+impl ByteStream for OriginalStream {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
+        loop {
+            let (is_eof, bytes) = self.cache.fill_buf(request)?;
+            if !is_eof || self.is_complete {
+                return Ok((is_eof, bytes));
+            }
+
+            // EOF of the cache doesn't mean EOF of the original stream. wait for the next bytes
+            self.is_complete = self.progress.recv().is_err();
+        }
+    }
+
+    fn as_slice(&self) -> &[u8] {
+        self.cache.as_slice()
+    }
+
+    fn consume(&mut self, amount: usize) {
+        self.cache.consume(amount)
+    }
+}
+
 pub struct PatchDrain {
     patch: PatchStream,
-    prev_bytes: usize,
     pipe: BashPipe,
-    thread: Option<JoinHandle<()>>,
+    thread: Option<JoinHandle<Result<()>>>,
 }
 
 impl PatchDrain {
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
-        let mut pipe = BashPipe::new(command);
+    pub fn new(
+        slices: Box<dyn SegmentStream>,
+        original: Box<dyn ByteStream>,
+        command: &str,
+        out_format: &InoutFormat,
+        patch_format: &InoutFormat,
+    ) -> Result<Self> {
+        let mut pipe = BashPipe::new(command)?;
         let mut writer = pipe.spawn_writer();
-        let formatter = TextFormatter::new(format, (0, 0));
+        let formatter = TextFormatter::new(out_format, (0, 0));
+        let (sender, progress) = channel();
 
-        let thread = std::thread::spawn(move || {
-            let mut patch = patch;
+        let thread = std::thread::spawn(move || -> Result<()> {
+            let sender = sender; // dropped at the end of the thread
+            let mut slices = slices;
             let mut buf = Vec::new();
             let mut offset = 0;
+            let mut formatted = 0; // #slices already formatted and remaining in the buffer
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, count, max_consume) = slices.fill_segment_buf()?;
                 if is_eof && bytes == 0 {
                     break;
                 }
 
-                let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                let (stream, segments) = slices.as_slices();
+                formatter.format_segments(offset, stream, &segments[formatted..count], &mut buf);
+                formatted = count;
+
+                let (bytes, count) = slices.consume(max_consume)?;
+                offset += bytes;
+                formatted -= count;
+                let _ = sender.send(());
 
                 if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf).unwrap();
+                    writer.write_all(&buf)?;
                     buf.clear();
                 }
             }
 
-            writer.write_all(&buf).unwrap();
+            writer.write_all(&buf)?;
             writer.close();
+            Ok(())
         });
 
+        let original = Box::new(OriginalStream {
+            cache: original,
+            progress,
+            is_complete: false,
+        });
         let reader = pipe.spawn_reader();
-        let patch = PatchStream::new(original, Box::new(reader), format);
+        let patch = PatchStream::new(original, Box::new(reader), patch_format);
 
-        PatchDrain {
+        Ok(PatchDrain {
             patch,
-            prev_bytes: 0,
             pipe,
             thread: Some(thread),
-        }
+        })
     }
 }
 
@@ -105,15 +198,14 @@ impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         let (is_eof, bytes) = self.patch.fill_buf(request)?;
 
-        if is_eof && bytes == self.prev_bytes {
+        if is_eof {
             if let Some(thread) = self.thread.take() {
-                thread.join().unwrap();
+                thread
+                    .join()
+                    .map_err(|_| anyhow!("failed to feed slices to the command (internal error)"))??;
+                self.pipe.child.wait()?;
             }
-
-            self.pipe.child.wait().unwrap();
         }
-
-        self.prev_bytes = bytes;
         Ok((is_eof, bytes))
     }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 2069c26..8f36a6d 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -423,7 +423,8 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format));
+                    let next = PatchDrain::new(prev, cache.unwrap(), command, &self.out_format, &self.patch_format)?;
+                    let next = Box::new(next);
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From 24344a9eddfd9a9932d9998638b8e418ab49bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 16/53] fix: parser: handle records that cross the end of the
 buffer at a middle of a column

---
 src/text/parser/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..6668149 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -390,7 +390,7 @@ impl TextParser {
         Some((fwd1 + fwd2 + 1, offset as usize, span as usize))
     }
 
-    fn read_body(&self, stream: &[u8], len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
+    fn read_body(&self, stream: &[u8], is_eof: bool, len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
         debug_assert!(stream.len() >= len + MARGIN_SIZE);
 
         let mut stream = stream;
@@ -428,6 +428,13 @@ impl TextParser {
                 return Some((keep * 3, false, false, true));
             }
 
+            if !is_eof && !is_in_tail && parsed == rem_len && rem_len % 3 != 0 {
+                // the last column is split at the end of the buffer; leave it for the next iteration
+                let partial = rem_len % 3;
+                buf.truncate(buf.len() + (rem_len - partial) / 3 - ret.1);
+                return Some((len - partial, false, false, true));
+            }
+
             debug_assert!(!is_in_tail || parsed == 0);
             is_in_tail = parsed < rem_len;
 
@@ -447,7 +454,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, is_eof, rem_len, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
             rem_len -= fwd;
             is_in_tail = delim_found;
@@ -508,7 +515,7 @@ impl TextParser {
         let mut is_in_tail = false;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, is_eof, rem_len, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
 
             rem_len -= fwd;
-- 
2.43.0


From eda8f0f93ca17cceda813cff9c92879bc5b759b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 17/53] fix: guided slicer: clip slices at the end of the
 stream, report unsorted records, do not expose a slice twice

---
 src/segment/guided.rs | 88 ++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..4fe4bf5 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,7 +6,7 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
@@ -31,49 +31,69 @@ impl GuidedSlicer {
         }
     }
 
+    fn read_guide(&mut self) -> Result<Option<Segment>> {
+        // read the next guide to the buffer
+        self.buf.clear();
+
+        let (offset, span) = match self.guide.read_line(&mut self.buf)? {
+            Some(x) => x,
+            _ => return Ok(None),
+        };
+
+        // convert to the relative offset
+        let last_pos = self.segments.last().map_or(0, |x| x.pos);
+        match offset.checked_sub(self.src_consumed) {
+            Some(pos) if pos >= last_pos => Ok(Some(Segment {
+                pos,
+                len: std::cmp::min(span, usize::MAX - pos),
+            })),
+            _ => Err(anyhow!(
+                "guide records must be sorted by their offsets ({})",
+                &self.guide.format_cache(true)
+            )),
+        }
+    }
+
+    fn clip_last_segment(&mut self, bytes: usize) {
+        while self.segments.last().map_or(false, |x| x.pos >= bytes) {
+            self.segments.pop();
+        }
+        if let Some(last) = self.segments.last_mut() {
+            last.len = std::cmp::min(last.len, bytes - last.pos);
+        }
+    }
+
     fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
-
-        // first update max_consume to the end of the current chunk of the stream
-        // (may be shortened in the loop)
-        self.max_consume = bytes;
-
-        let tail = self.src_consumed + bytes; // in absolute offset
-        loop {
-            // read the next guide to the buffer
-            self.buf.clear();
-
-            let ret = self.guide.read_line(&mut self.buf)?;
-            if ret.is_none() {
-                // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
-                break;
-            }
-            let (offset, span) = ret.unwrap();
-
-            // slice the stream out by the guide
-            let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
+        // slices can't go beyond the end of the stream
+        if is_eof {
+            self.clip_last_segment(bytes);
+        }
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
-                break;
+        // read guides until we find one that is not covered by the current chunk of the stream
+        let is_covered = |x: &Segment| x.pos < bytes && x.tail() <= bytes;
+        while self.segments.last().map_or(true, is_covered) {
+            match self.read_guide()? {
+                Some(segment) => self.segments.push(segment),
+                _ => break, // the guide stream reached EOF
+            }
+            if is_eof {
+                self.clip_last_segment(bytes);
             }
         }
+
+        // do not expose the last segment if it's not covered
+        let pending = self.segments.last().filter(|x| !is_covered(x));
+        self.max_consume = pending.map_or(bytes, |x| std::cmp::min(bytes, x.pos));
+        self.guide_consumed = self.segments.len() - pending.is_some() as usize;
         Ok(())
     }
 }
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let request = std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| x.tail()));
+        // we need the whole body of the last segment if its head is already (or will soon be) in the chunk
+        let pending = self.segments.last().filter(|x| x.pos < BLOCK_SIZE);
+        let request = std::cmp::max(BLOCK_SIZE, pending.map_or(0, |x| x.tail()));
         let (is_eof, bytes) = self.src.fill_buf(request)?;
 
         self.extend_segment_buf(is_eof, bytes)?;
-- 
2.43.0


From aeb5391f0c2441acbe43f07009eb3410c612da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 18/53] fix: exact match slicer: do not find matches
 overlapping the previous one, avoid an underflow

---
 src/segment/exact.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..e57ab22 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -58,7 +58,13 @@ impl SegmentStream for ExactMatchSlicer {
             });
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // matches don't overlap each other; resume from the end of the last match
+        let last_tail = self.segments.last().map_or(0, |x| x.tail());
+        self.scanned = if is_eof {
+            bytes
+        } else {
+            std::cmp::max((bytes + 1).saturating_sub(len), std::cmp::max(self.scanned, last_tail))
+        };
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 82e95307b28e2f7ecd1bf8321ad745e58e198d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 19/53] fix: regex, bridge and extend slicers: expose segments
 only when closed and in order, do not skip the source segments

---
 src/segment/bridge.rs | 74 +++++++++++++---------------------
 src/segment/extend.rs | 92 +++++++++----------------------------------
 src/segment/mod.rs    |  1 +
 src/segment/regex.rs  | 54 +++++++++++++------------
 src/segment/sorter.rs | 64 ++++++++++++++++++++++++++++++
 5 files changed, 139 insertions(+), 146 deletions(-)
 create mode 100644 src/segment/sorter.rs

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..2325fa5 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -1,6 +1,7 @@
 // @file bridge.rs
 // @author Hajime Suzuki
 
+use super::sorter::SegmentSorter;
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
@@ -9,6 +10,10 @@ pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // sorter; needed to reorder the segments when there are multiple mappers or the start
+    // positions of the mapped segments are derived from the end positions of the gaps
+    sorter: SegmentSorter,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -37,6 +42,7 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            sorter: SegmentSorter::new(),
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -44,44 +50,16 @@ impl BridgeStream {
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize) {
-        if is_eof {
-            self.max_consume = bytes;
-            return;
-        }
-
+    // the lower limit of the start positions of the segments that are not mapped yet
+    fn next_bound(&self) -> usize {
         let phantom = [self.last_end, self.last_end + 1];
 
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let eval_phantom = |m: &SegmentMapper| m.evaluate(&phantom, &phantom).0;
+        let bound = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
+        std::cmp::max(0, bound) as usize
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
-        let map_segment = |m: &SegmentMapper, gap: &[isize; 2]| -> Option<Segment> {
-            let (start, end) = m.evaluate(gap, gap);
-
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
-
-            // record the segment
-            if start < end {
-                Some(Segment {
-                    pos: start,
-                    len: end - start,
-                })
-            } else {
-                None
-            }
-        };
-
+    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize, max_consume: usize) {
         let (_, segments) = self.src.as_slices();
 
         // first map all the source segment pairs with `mappers`
@@ -96,11 +74,11 @@ impl BridgeStream {
                     continue;
                 }
 
-                // map the gap then clip
+                // map the gap
                 for mapper in &self.mappers {
-                    if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
-                        self.segments.push(s);
-                    }
+                    let gap = [prev_end, curr_start];
+                    let (start, end) = mapper.evaluate(&gap, &gap);
+                    self.sorter.push(start, end);
                 }
                 prev_end = std::cmp::max(prev_end, curr_end);
             }
@@ -111,9 +89,9 @@ impl BridgeStream {
             let bytes = bytes as isize;
 
             for mapper in &self.mappers {
-                if let Some(s) = map_segment(mapper, &[prev_end, bytes]) {
-                    self.segments.push(s);
-                }
+                let gap = [prev_end, bytes];
+                let (start, end) = mapper.evaluate(&gap, &gap);
+                self.sorter.push(start, end);
             }
             prev_end = bytes;
         }
@@ -121,19 +99,20 @@ impl BridgeStream {
         // all source segments are mapped; save the source-scanning states
         self.last_end = prev_end;
         self.src_scanned = count;
+
+        // then sort the mapped segments into `self.segments` array, and update max_consume
+        let bound = self.next_bound();
+        let max_fwd = self.sorter.pop_until(is_eof, bytes, bound, &mut self.segments);
+        self.max_consume = std::cmp::min(max_fwd, max_consume);
     }
 }
 
 impl SegmentStream for BridgeStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
-
-        // update max_consume
-        self.update_max_consume(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.extend_segment_buf(is_eof, count, bytes, max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -155,6 +134,7 @@ impl SegmentStream for BridgeStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.sorter.consume(bytes);
         self.last_end -= bytes as isize;
         self.max_consume -= bytes;
 
diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..c94b7d3 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -1,27 +1,10 @@
 // @file extend.rs
 // @author Hajime Suzuki
 
+use super::sorter::SegmentSorter;
 use super::{Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
@@ -29,14 +12,14 @@ pub struct ExtendStream {
 
     // sorter; needed to reorder the segments when the start positions of the mapped
     // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    sorter: SegmentSorter,
 
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
 
     // the number of bytes that can be consumed at most in this slicer. is computed
-    // from the `last_end` so that the next any segment overlaps with the cosumable range
+    // so that neither the next segment nor ones in the sorter starts in the consumable range
     max_consume: usize,
 
     mappers: Vec<SegmentMapper>,
@@ -56,63 +39,33 @@ impl ExtendStream {
         Ok(ExtendStream {
             src,
             segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            sorter: SegmentSorter::new(),
             src_scanned: 0,
             max_consume: 0,
             mappers,
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, max_consume: usize) {
-        if is_eof {
-            self.max_consume = bytes;
-            return;
-        }
-
+    // the lower limit of the start positions of the segments that are not mapped yet
+    fn next_bound(&self, max_consume: usize) -> usize {
         let max_consume = max_consume as isize;
         let phantom = [max_consume, max_consume + 1];
 
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
-
-        self.max_consume = max_consume;
+        let eval_phantom = |m: &SegmentMapper| m.evaluate(&phantom, &phantom).0;
+        let bound = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
+        std::cmp::max(0, bound) as usize
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
-        let tail = if is_eof { bytes } else { usize::MAX };
-
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
-            let s = [segment.pos as isize, segment.tail() as isize];
-            let (start, end) = m.evaluate(&s, &s);
-
-            let start = (start.max(0) as usize).min(tail);
-            let end = (end.max(0) as usize).min(tail);
-
-            // record the segment
-            if start < end {
-                Some(SorterElement {
-                    pos: start,
-                    len: end - start,
-                    original_end: segment.tail(),
-                })
-            } else {
-                None
-            }
-        };
-
+    fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize, max_consume: usize) {
         let (_, segments) = self.src.as_slices();
 
         // first map all the source segment pairs with `mappers`
         debug_assert!(count >= self.src_scanned);
         for next in &segments[self.src_scanned..count] {
+            let s = [next.pos as isize, next.tail() as isize];
             for mapper in &self.mappers {
-                if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
-                }
+                let (start, end) = mapper.evaluate(&s, &s);
+                self.sorter.push(start, end);
             }
         }
 
@@ -120,26 +73,18 @@ impl ExtendStream {
         self.src_scanned = count;
 
         // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
-
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
-        }
+        let bound = self.next_bound(max_consume);
+        let max_fwd = self.sorter.pop_until(is_eof, bytes, bound, &mut self.segments);
+        self.max_consume = std::cmp::min(max_fwd, max_consume);
     }
 }
 
 impl SegmentStream for ExtendStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
-
-        // update max_consume
-        self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.extend_segment_buf(is_eof, count, bytes, max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -161,6 +106,7 @@ impl SegmentStream for ExtendStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.sorter.consume(bytes);
         self.max_consume -= bytes;
 
         Ok((bytes, from))
diff --git a/src/segment/mod.rs b/src/segment/mod.rs
index 9bd0c73..9ed0ae2 100644
--- a/src/segment/mod.rs
+++ b/src/segment/mod.rs
@@ -10,6 +10,7 @@ mod guided;
 mod merge;
 mod range;
 mod regex;
+mod sorter;
 mod stride;
 mod walk;
 
diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..811e106 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -2,26 +2,34 @@
 // @author Hajime Suzuki
 // @brief regex slicer
 
+use super::sorter::SegmentSorter;
 use super::{Segment, SegmentStream};
 use anyhow::Result;
-use regex::bytes::{Match, Regex};
+use regex::bytes::Regex;
 
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+
+    // needed to reorder the matches when the source segments overlap
+    sorter: SegmentSorter,
+
+    // #segments that are not consumed in the source but already scanned
+    src_scanned: usize,
+    max_consume: usize,
     re: Regex,
 }
 
 impl RegexSlicer {
     pub fn new(src: Box<dyn SegmentStream>, pattern: &str) -> Result<Self> {
-        let matches = Vec::new();
         let re = Regex::new(pattern)?;
 
         Ok(RegexSlicer {
             src,
-            matches,
-            scanned: 0,
+            matches: Vec::new(),
+            sorter: SegmentSorter::new(),
+            src_scanned: 0,
+            max_consume: 0,
             re,
         })
     }
@@ -29,28 +37,22 @@ impl RegexSlicer {
 
 impl SegmentStream for RegexSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let to_segment = |m: Match, pos: usize| -> Segment {
-            Segment {
-                pos: pos + m.start(),
-                len: m.range().len(),
-            }
-        };
-
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
+        if count > self.src_scanned {
+            for s in &segments[self.src_scanned..count] {
+                for m in self.re.find_iter(&stream[s.as_range()]) {
+                    self.sorter.push((s.pos + m.start()) as isize, (s.pos + m.end()) as isize);
+                }
             }
-
-            self.matches
-                .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
+        self.src_scanned = count;
 
-        self.scanned += bytes;
+        // the source segments not scanned yet don't start before `max_consume`
+        self.max_consume = self.sorter.pop_until(is_eof, bytes, max_consume, &mut self.matches);
 
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        Ok((is_eof, bytes, self.matches.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -59,12 +61,11 @@ impl SegmentStream for RegexSlicer {
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
-        if bytes == 0 {
-            return Ok((0, 0));
-        }
+        let bytes = std::cmp::min(bytes, self.max_consume);
+        let (bytes, src_count) = self.src.consume(bytes)?;
+        self.src_scanned -= src_count;
 
-        // determine how many bytes to consume...
+        // determine how many matches to consume...
         let from = self.matches.partition_point(|x| x.pos < bytes);
         let to = self.matches.len();
 
@@ -75,7 +76,8 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.sorter.consume(bytes);
+        self.max_consume -= bytes;
 
         Ok((bytes, from))
     }
diff --git a/src/segment/sorter.rs b/src/segment/sorter.rs
new file mode 100644
index 0000000..4324b27
--- /dev/null
+++ b/src/segment/sorter.rs
@@ -0,0 +1,64 @@
+// @file sorter.rs
+// @brief reorders segments that are not generated in the order of their positions
+
+use super::Segment;
+use std::cmp::Reverse;
+use std::collections::BinaryHeap;
+
+// keeps segments until they are closed, and until it turns out that no segment precedes them
+pub struct SegmentSorter {
+    heap: BinaryHeap<Reverse<(usize, usize)>>, // (absolute start, absolute end)
+    offset: usize,                             // #bytes consumed so far
+}
+
+impl SegmentSorter {
+    pub fn new() -> Self {
+        SegmentSorter {
+            heap: BinaryHeap::new(),
+            offset: 0,
+        }
+    }
+
+    // both ends are relative to the head of the current buffer. ones before the head are clipped
+    pub fn push(&mut self, start: isize, end: isize) {
+        let (start, end) = (start.max(0) as usize, end.max(0) as usize);
+        if start < end {
+            let start = start.saturating_add(self.offset);
+            let end = end.saturating_add(self.offset);
+            self.heap.push(Reverse((start, end)));
+        }
+    }
+
+    // moves segments that start before `bound` to `v`, where `bound` is the lower limit of the
+    // start positions of the segments that are not pushed yet. returns the number of bytes that
+    // can be consumed without losing the segments that remain in the sorter
+    pub fn pop_until(&mut self, is_eof: bool, bytes: usize, bound: usize, v: &mut Vec<Segment>) -> usize {
+        let tail = bytes + self.offset;
+
+        if is_eof {
+            // no more bytes come; close all the remaining segments
+            let clip = |Reverse((start, end)): Reverse<(usize, usize)>| (start, end.min(tail));
+            let mut rem: Vec<_> = self.heap.drain().map(clip).filter(|(start, end)| start < end).collect();
+            rem.sort_unstable();
+
+            v.extend(rem.iter().map(|&(start, end)| Segment::from(start - self.offset..end - self.offset)));
+            return bytes;
+        }
+
+        let bound = bound.saturating_add(self.offset);
+        while let Some(&Reverse((start, end))) = self.heap.peek() {
+            if start >= bound || end > tail {
+                return std::cmp::min(start, bound) - self.offset;
+            }
+            v.push(Segment::from(start - self.offset..end - self.offset));
+            self.heap.pop();
+        }
+        bound - self.offset
+    }
+
+    pub fn consume(&mut self, bytes: usize) {
+        self.offset += bytes;
+    }
+}
+
+// end of sorter.rs
-- 
2.43.0


From 0a6e76c6321d34a973b705bc79e3c93d85c35146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 20/53] fix: range slicer: do not drop the bytes after the last
 slice when they are needed downstream

---
 src/pipeline.rs      |  6 ++++--
 src/segment/range.rs | 15 +++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 8f36a6d..10eba62 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -387,8 +387,10 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
-                    (cache, NodeInstance::Segment(next))
+                    let next = RangeSlicer::new(prev, exprs)?;
+                    let needs_all = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = if needs_all { next.without_early_exit() } else { next };
+                    (cache, NodeInstance::Segment(Box::new(next)))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
                     let next = Box::new(GuidedSlicer::new(prev, self.open_file(file)?));
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..bc85bd3 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,7 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    early_exit: bool, // if the stream ends at the last segment
 }
 
 impl RangeSlicer {
@@ -115,8 +116,15 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            early_exit: true,
         })
     }
+
+    // for nodes that need the bytes after the last segment
+    pub fn without_early_exit(mut self) -> Self {
+        self.early_exit = false;
+        self
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,10 +132,9 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            let max_consume = std::cmp::min(bytes, max_consume);
-            (true, bytes, max_consume)
+        let (is_eof, bytes, max_consume) = if !is_eof && self.early_exit && self.cutter.is_empty() {
+            let bytes = self.segments.iter().map(|x| x.tail()).max().unwrap_or(self.max_consume);
+            (true, bytes, bytes)
         } else {
             (is_eof, bytes, max_consume)
         };
-- 
2.43.0


From d9bf2275632871ee49ce0e3ade3211580877a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 21/53] fix: stride slicer: make the state simple, fix lost or
 extra slices and an underflow with mapped slices, reject zero-byte slices

---
 src/segment/stride.rs | 322 +++++++++++-------------------------------
 1 file changed, 79 insertions(+), 243 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..e6935ec 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -17,6 +17,9 @@ pub struct ConstSlicerParams {
 
 impl ConstSlicerParams {
     pub fn from_raw(pitch: usize, expr: Option<&str>) -> Result<Self> {
+        if pitch == 0 {
+            return Err(anyhow!("zero-byte slicer is not allowed"));
+        }
         let pitch = pitch as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
@@ -40,11 +43,9 @@ impl ConstSlicerParams {
         let head_margin = if start >= 0 {
             start
         } else {
-            let mut margin = -start;
-            while margin >= span {
-                margin -= pitch;
-            }
-            -margin
+            // skip slices that are completely before the head of the stream
+            let skip = if end <= 0 { -end / pitch + 1 } else { 0 };
+            start + skip * pitch
         };
 
         let tail_margin = if end < 1 { 1 - end } else { std::cmp::max(1 - end, 1 - span) };
@@ -91,23 +92,17 @@ fn test_const_slicer_params() {
     // FIXME: we need another parameter to handle tail clipping properly
 }
 
-struct InitState {
-    phase_offset: usize,
-    min_bytes_to_escape: usize,
-}
-
-struct Phase {
-    curr: usize,
-    prev: usize,
-}
-
 struct ConstSegments {
     segments: Vec<Segment>, // precalculated segment array
-    init_state: InitState,  // (phase_offset, min_bytes_to_escape)
-    phase: Phase,           // (curr_phase, prev_phase)
+
+    // start position of the first segment in the array (it's negative if the segment is clipped at
+    // the head of the stream). the following ones start at `next + pitch`, `next + 2 * pitch`, ...
+    next: isize,
+
+    is_head: bool,
     is_eof: bool,
     in_lend: (usize, usize), // (len, count)
-    tail_offset_margin: usize,
+    tail_margin: isize,
     tail_reserved_bytes: usize,
     open_ended: (bool, bool),
     pitch: usize,
@@ -115,47 +110,6 @@ struct ConstSegments {
 }
 
 impl ConstSegments {
-    // case 1. the first segment is clipped at the head (margin.0 < 0):
-    //
-    // segments:
-    //
-    //        <-- pitch --><-- pitch --><-- pitch --><-- pitch -->...
-    //        <-- -margin.0 -->
-    // [0]:   .................<--->
-    // [1]:                ....<---------------->
-    // [2]:                             <------- span ------->
-    // [3]:                                          <------- span ------->
-    //                                                            ...
-    //       ------------------------------------------------------------------------------------------>
-    //                         ^    ^
-    //                         0    offset_margin.0 (tail of the first segment)
-    //
-    // initial states:
-    //                                 phase.curr (== #bytes to eat until the head of the next segment)
-    //                                   (phase.curr is always in 0..pitch, setting the first
-    //                                   `prev_phase >= pitch` makes it the head sentinel)
-    //                                /
-    //                         <------->
-    //         <----------------------->
-    //                                \
-    //                                 phase_offset is for include clipped segments in #segments to consume
-    //                                   (it also includes the phase, that's to be subtracted from #bytes
-    //                                   requested to consume)
-    //
-    // on counting segments to consume:
-    //
-    //                         <--------------- bytes --------------->
-    //                         <-------> - phase.curr
-    //         <-----------------------> - phase_offset
-    //         <-- pitch --><-- pitch --><-- pitch --><-- pitch -->
-    //
-    //                                 #segments to consume (4 in this example) is calculated as
-    //                                 `(bytes - phase.curr + phase_offset) / pitch`
-    //
-    //
-    //
-    // case 2. the first segment is offset (margin.0 > 0):
-    //
     // segments:
     //
     //        <-- margin.0 --><-- pitch --><-- pitch --><-- pitch -->...
@@ -163,235 +117,117 @@ impl ConstSegments {
     // [1]:                                <------- span ------->
     // [2]:                                             <------- span ------->
     //                                                               ...
-    //       ------------------------------------------------------------------------------------------>
-    //        ^                                     ^
-    //        0                                     offset_margin.0 (tail of the first segment)
-    //
-    // initial states:
-    //        <- phase.curr ->
-    //
-    // on counting segments to consume:
     //
-    //         <------------------------ bytes ------------------------>
-    //         <-------------> - phase.curr
-    //                        <-- pitch --><-- pitch --><-- pitch -->
-    //
-    //          (phase_offset is set zero for this case, as `(bytes - phase.curr) / pitch` gives #segments)
+    // margin.0 can be negative, where the segments are clipped at the head of the stream. there
+    // must be at least one byte left in the first segment (i.e., margin.0 + span > 0).
     //
+    // the last segment is one that satisfies `tail + margin.1 <= stream length`. margin.1 can be
+    // negative as well, and the segments are clipped at the tail of the stream. there must be at
+    // least one byte left in the last segment (i.e., margin.1 + span > 0).
 
     fn new(margin: (isize, isize), open_ended: (bool, bool), pitch: usize, span: usize) -> Self {
-        // margin.0 is the head of the first segment. convert it to the tail of that.
-        // TODO: use saturating_add_signed
-        let offset_margin = (margin.0 + span as isize, margin.1 + span as isize);
-        assert!(offset_margin.0 > 0 && offset_margin.1 > 0);
-
-        let offset_margin = (offset_margin.0 as usize, offset_margin.1 as usize);
-        let (curr_phase, phase_offset, min_bytes_to_escape) = if margin.0 < 0 {
-            let phase = margin.0.rem_euclid(pitch as isize);
-            (phase as usize, (phase - margin.0) as usize, offset_margin.0)
-        } else {
-            let head_margin = margin.0 as usize;
-            (head_margin, 0, head_margin + 1)
-        };
+        assert!(margin.0 + span as isize > 0 && margin.1 + span as isize > 0);
+
+        // we need to see one more segment if we're going to extend the last one
+        let extra = if open_ended.1 { pitch } else { 0 };
 
         ConstSegments {
             segments: Vec::new(),
-            init_state: InitState {
-                phase_offset,
-                min_bytes_to_escape,
-            },
-            phase: Phase {
-                curr: curr_phase,
-                prev: usize::MAX,
-            },
+            next: margin.0,
+            is_head: true,
             is_eof: false,
             in_lend: (0, 0),
-            tail_offset_margin: offset_margin.1,
-            tail_reserved_bytes: offset_margin.1.saturating_sub(span) + pitch,
+            tail_margin: margin.1,
+            tail_reserved_bytes: std::cmp::max(margin.1, 0) as usize + extra,
             open_ended,
             pitch,
             span,
         }
     }
 
-    fn count_segments(&self, len: usize) -> usize {
-        (len + self.pitch - 1) / self.pitch
-    }
-
     fn min_fill_len(&self) -> usize {
-        std::cmp::max(self.span, self.init_state.min_bytes_to_escape) + self.tail_reserved_bytes + 1
+        self.span + self.tail_reserved_bytes
     }
 
-    fn get_next_tail(&mut self) -> usize {
-        if let Some(x) = self.segments.last() {
-            x.tail() + self.pitch
-        } else {
-            self.phase.curr + self.span - self.init_state.phase_offset
-        }
+    fn get_next_tail(&self) -> isize {
+        self.next + (self.segments.len() * self.pitch + self.span) as isize
     }
 
-    fn update_lend_state(&mut self, next_tail: usize, len: usize, count: usize) -> Result<(usize, usize)> {
-        // "maximum forwardable length" won't overlap with the next (truncated) segment
-        let max_fwd = next_tail.saturating_sub(self.span);
-
-        // and also clipped by the source stream
-        let max_fwd = std::cmp::min(max_fwd, len);
-
-        self.in_lend = (max_fwd, count);
-        Ok(self.in_lend)
-    }
-
-    fn patch_head(&mut self) {
-        // if the `self.segment` has the first segment at [0] and `open_ended == true`,
-        // we extend the first segment to the start of the stream
-        //
-        // note: `self.init_state.min_bytes_to_escape` is non-zero until the first non-zero-byte consume
-        if self.init_state.min_bytes_to_escape == 0 || !self.open_ended.0 || self.segments.is_empty() {
-            return;
-        }
-
-        let first = self.segments.first_mut().unwrap();
-        first.len += first.pos;
-        first.pos = 0;
-    }
-
-    fn patch_tail(&mut self, len: usize) {
-        // if the `self.segment` has the last segment and `open_ended == true`,
-        // we extend the last segment to the end of the stream
-        //
-        // note: this method is called only from extend_segments_with_clip, which is called
-        // only when the EOF found in the source stream
-        if !self.open_ended.1 || self.segments.is_empty() {
-            return;
-        }
-
-        let last = self.segments.last_mut().unwrap();
-        last.len = len - last.pos;
-    }
-
-    fn extend_segments_with_clip(&mut self, len: usize) -> Result<(usize, usize)> {
-        let mut next_tail = self.get_next_tail();
-
-        while next_tail + self.tail_offset_margin <= len + self.span {
-            let pos = next_tail.saturating_sub(self.span);
-            let len = std::cmp::min(next_tail, len) - pos;
-            self.segments.push(Segment { pos, len });
-
-            next_tail += self.pitch;
-        }
-
-        self.patch_head();
-        self.patch_tail(len);
-
-        self.in_lend = (len, self.segments.len());
-        Ok(self.in_lend)
-    }
-
-    fn extend_segments(&mut self, next_tail: usize, len: usize) -> Result<(usize, usize)> {
-        let mut next_tail = next_tail;
-
-        while next_tail + self.tail_reserved_bytes <= len {
-            let pos = next_tail.saturating_sub(self.span);
-            let len = next_tail - pos;
-            self.segments.push(Segment { pos, len });
-
-            next_tail += self.pitch;
-        }
-
-        self.patch_head();
-        self.update_lend_state(next_tail, len, self.segments.len())
+    fn push_segment(&mut self, tail: isize, len: usize) {
+        let pos = std::cmp::max(tail - self.span as isize, 0) as usize;
+        let tail = std::cmp::min(tail as usize, len);
+        self.segments.push(Segment { pos, len: tail - pos });
     }
 
     fn fill_segment_buf(&mut self, is_eof: bool, len: usize) -> Result<(usize, usize)> {
-        if is_eof {
+        let reserved = if is_eof {
+            // the last one may have been clipped or extended
             self.is_eof = true;
-            self.init_state.min_bytes_to_escape = std::cmp::min(len, self.init_state.min_bytes_to_escape);
-            self.segments.clear(); // TODO: we don't need to remove all
-            return self.extend_segments_with_clip(len);
-        }
+            self.segments.clear();
+            self.tail_margin
+        } else {
+            self.tail_reserved_bytes as isize
+        };
 
-        let next_tail = self.get_next_tail();
-        if next_tail + self.tail_reserved_bytes <= len {
-            return self.extend_segments(next_tail, len);
+        let mut next_tail = self.get_next_tail();
+        while next_tail + reserved <= len as isize {
+            self.push_segment(next_tail, len);
+            next_tail += self.pitch as isize;
         }
 
-        if next_tail + self.tail_reserved_bytes <= len + self.pitch {
-            return self.update_lend_state(next_tail, len, self.segments.len());
+        // if the array has the first segment and it's open-ended, we extend it to the start of the stream
+        if self.is_head && self.open_ended.0 {
+            if let Some(first) = self.segments.first_mut() {
+                first.len += first.pos;
+                first.pos = 0;
+            }
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
-
-        let next_tail = next_tail - n_extra * self.pitch;
-        let count = self.segments.len() - n_extra;
-
-        self.update_lend_state(next_tail, len, count)
-    }
-
-    fn as_slice(&self) -> &[Segment] {
-        &self.segments[..self.in_lend.1]
-    }
-
-    fn update_phase(&mut self, bytes: usize, count: usize, phase_offset: usize) -> (usize, usize) {
-        if count == 0 && bytes < self.phase.curr {
-            // the pitch is too large and the pointer is between two segments
-            self.phase.curr -= bytes;
-            return (bytes, count);
+        // if the array has the last segment and it's open-ended, we extend it to the end of the stream
+        if is_eof && self.open_ended.1 {
+            if let Some(last) = self.segments.last_mut() {
+                last.len = len - last.pos;
+            }
         }
 
-        let phase = if bytes <= self.phase.curr {
-            self.phase.curr - bytes
+        let max_fwd = if is_eof {
+            len
+        } else if self.is_head && self.open_ended.0 && self.segments.is_empty() {
+            // the first segment is to be extended
+            0
         } else {
-            // here at least one segment consumed (i.e, pointer crosses at least one pitch boundary)
-            let shift = (bytes - self.phase.curr) % self.pitch;
-            if shift == 0 {
-                0
-            } else {
-                self.pitch - shift
-            }
+            // can be forwarded up to the start of the next segment
+            let next = std::cmp::max(next_tail - self.span as isize, 0) as usize;
+            std::cmp::min(next, len)
         };
 
-        if count < 16 {
-            self.phase.curr = phase;
-            return (bytes, count);
-        }
+        self.in_lend = (max_fwd, self.segments.len());
+        Ok(self.in_lend)
+    }
 
-        // long enough; we don't shift the phase. truncate the last segment
-        self.phase.curr = 0;
-        let count = if phase == 0 { count } else { count - 1 };
-        let bytes = count * self.pitch + self.phase.prev - phase_offset;
-        (bytes, count)
+    fn as_slice(&self) -> &[Segment] {
+        &self.segments[..self.in_lend.1]
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        if bytes < self.init_state.min_bytes_to_escape {
-            // still in the head
+        // the start pos of the next segment is the limit
+        let bytes = std::cmp::min(bytes, self.in_lend.0);
+        if bytes == 0 {
             return Ok((0, 0));
         }
 
-        // got out of the head. forward the state
-        if self.init_state.min_bytes_to_escape > 0 {
-            self.init_state.min_bytes_to_escape = 0;
-            self.segments.clear();
-        }
-
-        // clear the phase offset
-        let phase_offset = std::mem::replace(&mut self.init_state.phase_offset, 0);
-        self.phase.prev = self.phase.curr;
-
-        // maximum consume length is clipped by the start pos of the next segment
-        if self.is_eof && bytes >= self.in_lend.0 {
-            return Ok(self.in_lend);
-        }
+        let count = self.segments.partition_point(|x| x.pos < bytes);
+        self.next += (count * self.pitch) as isize - bytes as isize;
 
-        let count = self.count_segments((bytes + phase_offset).saturating_sub(self.phase.curr));
-        let count = std::cmp::min(count, self.in_lend.1);
-        let (bytes, count) = self.update_phase(bytes, count, phase_offset);
-
-        if self.phase.prev != self.phase.curr {
+        // the array can be reused if the phase is not changed, and none of the segments is clipped or extended
+        if count * self.pitch == bytes && !self.is_head && !self.is_eof {
+            self.segments.truncate(self.segments.len() - count);
+        } else {
             self.segments.clear();
         }
 
+        self.is_head = false;
+        self.in_lend = (self.in_lend.0 - bytes, self.segments.len());
         Ok((bytes, count))
     }
 }
-- 
2.43.0


From 88d1283f4ad87bfe544eec5d497fec388279a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 22/53] fix: merge: do not report an invalid max_consume when
 the source can't be consumed

---
 src/segment/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index e142127..128381c 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -139,7 +139,8 @@ impl MergeStream {
             return;
         }
         if max_consume <= self.acc.furthest_margable_pos() {
-            self.max_consume = self.acc.start;
+            // note: the accumulator may be empty, or its start may be beyond the limit of the source
+            self.max_consume = std::cmp::min(self.acc.start, max_consume);
             return;
         }
 
-- 
2.43.0


From 496b1d93d2b9373214b9cd480617ea3fcc762acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 23/53] fix: streambuf: collect as many bytes as requested
 after the current pointer

---
 src/streambuf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..c7b9b43 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -92,11 +92,12 @@ impl StreamBuf {
 
         // calculate target buffer length
         // debug_assert!(self.target_len > self.len);
-        let target_len = std::cmp::max(self.target_len, request);
+        // note: `request` is the number of bytes after the current pointer
+        let target_len = std::cmp::max(self.target_len, self.pos.saturating_add(request));
 
         // collect into the buffer without margin
         loop {
-            let request = target_len.saturating_sub(self.buf.len()) + 1;
+            let request = target_len.saturating_sub(self.buf.len()).saturating_add(1);
 
             // `f` must return true if it has consumed all of the source,
             // and it's certain that it won't append any more byte to buf
-- 
2.43.0


From 2bd51bc04c9903477929e32e1f41aca4d55e10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 24/53] fix: eval: correct the signs on rotating x + (y - z)

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index d2e1ce3..15b12db 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -642,7 +642,7 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
 
                 let (s1, op1) = peel_sign_from_op(op1);
                 let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)));
+                let (op1, op2) = (fuse_sign2(s2, op1), fuse_sign_op(s1, fuse_sign3(s2, op1, op2)));
                 save_and_flip(tokens, root - rlhs, Op(op1), lhs - rlhs);
                 save_and_flip(tokens, root, Op(op2), rlhs);
 
-- 
2.43.0


From 1b385b4c8bcf0c44e82ecc4a24fcbc651c549340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 25/53] fix: inplace: use a unique temporary file, remove it on
 errors, keep the permissions; report an empty pager

---
 src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..b4545d2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,8 +12,8 @@ mod text;
 
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
-use std::fs::File;
 use std::io::{IsTerminal, Read, Write};
+use std::path::Path;
 use std::process::{Child, Stdio};
 
 use byte::ByteStream;
@@ -160,13 +160,17 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
+            // the temporary file is removed if an error occurs in the pipeline
+            let path = Path::new(&input[0]);
+            let dir = path.parent().filter(|x| !x.as_os_str().is_empty()).unwrap_or(Path::new("."));
+            let tmpfile = tempfile::Builder::new().prefix(".nd-").suffix(".tmp").tempfile_in(dir)?;
+            let drain = Box::new(tmpfile.reopen()?);
 
             let stream = pipeline.spawn_stream(sources)?;
             consume_stream(stream, drain)?;
 
-            std::fs::rename(&tmpfile, &input[0])?;
+            std::fs::set_permissions(tmpfile.path(), std::fs::metadata(path)?.permissions())?;
+            tmpfile.persist(path)?;
         }
     } else {
         let inputs = if args.inputs.is_empty() {
@@ -210,6 +214,9 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
 
     let pager = pager.unwrap_or_else(|| "less -S -F".to_string());
     let args: Vec<_> = pager.as_str().split_whitespace().collect();
+    if args.is_empty() {
+        return Err(anyhow!("the pager command is empty"));
+    }
     let mut child = std::process::Command::new(args[0]).args(&args[1..]).stdin(Stdio::piped()).spawn()?;
 
     let input = child.stdin.take().context("failed to take stdin of the PAGER process")?;
-- 
2.43.0


From a9cef80224d6d98ba6f484fc741062434b1f4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 26/53] fix: text: report unsupported formats and non-UTF-8
 records as errors, instead of panicking

---
 src/pipeline.rs        |  4 ++--
 src/text/mod.rs        | 35 +++++++++++++++++++++++++++++++++--
 src/text/parser/mod.rs |  2 +-
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 10eba62..280083e 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -31,10 +31,10 @@ fn parse_const_slicer_params(s: &str) -> Result<ConstSlicerParams> {
 
 #[derive(Debug, Parser)]
 pub struct PipelineArgs {
-    #[clap(short = 'F', long = "in-format", value_name = "FORMAT", value_parser = InoutFormat::from_str)]
+    #[clap(short = 'F', long = "in-format", value_name = "FORMAT", value_parser = InoutFormat::from_str_for_input)]
     in_format: Option<InoutFormat>,
 
-    #[clap(short = 'f', long = "out-format", value_name = "FORMAT", value_parser = InoutFormat::from_str)]
+    #[clap(short = 'f', long = "out-format", value_name = "FORMAT", value_parser = InoutFormat::from_str_for_output)]
     out_format: Option<InoutFormat>,
 
     #[clap(long = "filler", value_name = "N", value_parser = parse_usize)]
diff --git a/src/text/mod.rs b/src/text/mod.rs
index af28431..e714011 100644
--- a/src/text/mod.rs
+++ b/src/text/mod.rs
@@ -21,9 +21,11 @@ pub enum ColumnFormat {
 
 impl ColumnFormat {
     fn from_str(s: &str) -> Result<Self> {
-        assert!(!s.is_empty());
-
         let b = s.as_bytes();
+        if b.is_empty() {
+            return Err(anyhow!("empty input/output format specifier"));
+        }
+
         match (b[0], b.len() > 1) {
             (b'n', false) => Ok(ColumnFormat::None),
             (b'b', false) => Ok(ColumnFormat::Binary),
@@ -88,6 +90,35 @@ impl InoutFormat {
         Self::from_str_with_columns(config, 16)
     }
 
+    // parses a signature for inputs; rejects ones that don't have a parser
+    pub fn from_str_for_input(config: &str) -> Result<Self> {
+        let format = Self::from_str(config)?;
+        let is_parsable = |c: &ColumnFormat| matches!(c, ColumnFormat::None | ColumnFormat::Decimal | ColumnFormat::Hexadecimal);
+
+        let has_parser = is_parsable(&format.offset)
+            && is_parsable(&format.span)
+            && matches!(format.body, ColumnFormat::None | ColumnFormat::Hexadecimal);
+        if !format.is_binary() && !has_parser {
+            return Err(anyhow!("unsupported input format: {config:?}"));
+        }
+        Ok(format)
+    }
+
+    // parses a signature for outputs; rejects ones that don't have a formatter
+    pub fn from_str_for_output(config: &str) -> Result<Self> {
+        use ColumnFormat::{Decimal, Hexadecimal, None};
+
+        let format = Self::from_str(config)?;
+        let has_formatter = matches!(
+            (&format.offset, &format.span, &format.body),
+            (Hexadecimal, Hexadecimal, Hexadecimal) | (None, None, Hexadecimal) | (Decimal, Decimal, Hexadecimal)
+        );
+        if !format.is_binary() && !has_formatter {
+            return Err(anyhow!("unsupported output format: {config:?}"));
+        }
+        Ok(format)
+    }
+
     pub fn is_gapless(&self) -> bool {
         self.offset == ColumnFormat::None && self.span == ColumnFormat::None
     }
diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 6668149..014cc59 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -279,7 +279,7 @@ impl LineCache {
             }
 
             v.push('"');
-            v.push_str(unsafe { std::str::from_utf8_unchecked(&input[..len]) });
+            v.push_str(&String::from_utf8_lossy(&input[..len]));
             if len == 32 {
                 v.pop();
                 v.push_str("...");
-- 
2.43.0


From 2b49f56afe29e321b70013e4c91bde673470bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 27/53] fix: tee: report errors on the cache file, instead of
 panicking

---
 src/byte/tee.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index a841e8b..10311f4 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -5,7 +5,7 @@ use crate::byte::ByteStream;
 use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
-use anyhow::Result;
+use anyhow::{Context, Result};
 use std::io::{Read, Seek, SeekFrom, Write};
 use std::sync::{Arc, Mutex};
 use tempfile::SpooledTempFile;
@@ -13,6 +13,15 @@ use tempfile::SpooledTempFile;
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
+    error: Option<std::io::Error>, // failed to append to the file; reported to the reader
+}
+
+impl TempFile {
+    fn append(&mut self, stream: &[u8]) -> std::io::Result<()> {
+        // the reader may have left the pointer in the middle of the file
+        self.file.seek(SeekFrom::End(0))?;
+        self.file.write_all(stream)
+    }
 }
 
 pub struct TeeStream {
@@ -31,6 +40,7 @@ impl TeeStream {
         let tempfile = TempFile {
             clear_eof: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
+            error: None,
         };
 
         TeeStream {
@@ -63,9 +73,9 @@ impl ByteStream for TeeStream {
 
         match self.cache.lock() {
             Ok(mut cache) => {
-                // the reader may have left the pointer in the middle of the file
-                cache.file.seek(SeekFrom::End(0)).unwrap();
-                cache.file.write_all(&stream[..bytes]).unwrap();
+                if cache.error.is_none() {
+                    cache.error = cache.append(&stream[..bytes]).err();
+                }
                 cache.clear_eof = true; // increment semaphore
             }
             _ => panic!("failed to lock cache."),
@@ -79,12 +89,15 @@ impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         match self.cache.lock() {
             Ok(mut cache) => {
+                if let Some(error) = cache.error.take() {
+                    return Err(error).context("failed to cache the original stream");
+                }
                 if cache.clear_eof {
                     self.buf.clear_eof();
                     cache.clear_eof = false; // decrement semaphore
                 }
                 self.buf.fill_buf(request, |_, buf| {
-                    cache.file.seek(SeekFrom::Start(self.offset as u64)).unwrap();
+                    cache.file.seek(SeekFrom::Start(self.offset as u64))?;
 
                     let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
                     self.offset += len;
-- 
2.43.0


From fcd75196ea07015edbe95f17f1c101e47e6076a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 28/53] fix: raw: retry interrupted reads

---
 src/byte/raw.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/byte/raw.rs b/src/byte/raw.rs
index 3738a3e..39ecfb2 100644
--- a/src/byte/raw.rs
+++ b/src/byte/raw.rs
@@ -7,7 +7,7 @@ use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
 use anyhow::Result;
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 pub struct RawStream {
     src: Box<dyn Read + Send>,
@@ -27,7 +27,12 @@ impl RawStream {
 impl ByteStream for RawStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         self.buf.fill_buf(request, |_, buf| {
-            let len = buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?))?;
+            let len = buf.fill_uninit(BLOCK_SIZE, |arr| loop {
+                match self.src.read(arr) {
+                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                    x => return Ok(x?),
+                }
+            })?;
             Ok(len == 0)
         })
     }
-- 
2.43.0


From 017e4044bf577654b03a7218384520cb37d89b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 29/53] fix: inplace: remove the temporary file when renaming
 it failed

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b4545d2..7730c8e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,7 +170,7 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
             consume_stream(stream, drain)?;
 
             std::fs::set_permissions(tmpfile.path(), std::fs::metadata(path)?.permissions())?;
-            tmpfile.persist(path)?;
+            tmpfile.persist(path).map_err(|e| e.error)?; // drops (removes) the temporary file on error
         }
     } else {
         let inputs = if args.inputs.is_empty() {
-- 
2.43.0


From e3f22d62494fb84e4cc243c37e55ff0942328e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 30/53] fix: report errors on flushing the last part of the
 output

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 7730c8e..424e834 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -239,5 +239,8 @@ fn consume_stream(stream: Box<dyn ByteStream>, drain: Box<dyn Write>) -> Result<
         stream.consume(bytes);
     }
 
+    // the drain may be buffered. its errors are lost if left to the destructor
+    drain.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From dfc77b00a029eb5a58abd39d94971e38eaf666ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 31/53] fix: cat, zero: fill as many bytes as requested

---
 src/byte/cat.rs  | 8 +++++---
 src/byte/zero.rs | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/byte/cat.rs b/src/byte/cat.rs
index 9b4e555..6030c74 100644
--- a/src/byte/cat.rs
+++ b/src/byte/cat.rs
@@ -72,10 +72,12 @@ impl ByteStream for CatStream {
         }
 
         // try to extend at least one byte even if the cache already has enough bytes
-        let request = request.saturating_sub(self.cache.len());
-        let request = std::cmp::max(1, request);
+        //
+        // note: the first `dup` bytes of the source are the ones already in the cache
+        let src_request = std::cmp::max(1, request.saturating_sub(self.cache.len()));
+        let src_request = self.dup.saturating_add(src_request);
 
-        let (is_eof, bytes) = self.srcs[self.i].fill_buf(request)?;
+        let (is_eof, bytes) = self.srcs[self.i].fill_buf(src_request)?;
         if is_eof || self.cache.len() > 0 {
             // path 1: the source remainder is not enough for the `request` so we try
             // the next source and accumulate them (including the one tried above)
diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..a8a5835 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -30,14 +30,15 @@ impl ZeroStream {
 }
 
 impl ByteStream for ZeroStream {
-    fn fill_buf(&mut self, _: usize) -> Result<(bool, usize)> {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.offset >= self.len {
             self.next_len = 0;
             return Ok((true, 0));
         }
 
-        // TODO: we need this
-        // self.next_len = std::cmp::max(self.next_len, request);
+        // at least `request` bytes, unless it reaches the tail
+        self.next_len = std::cmp::max(self.next_len, request);
+        self.next_len = std::cmp::min(self.next_len, self.len - self.offset);
         self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);
 
         let is_eof = self.len <= self.offset + self.next_len;
-- 
2.43.0


From e5e1f8793b402dc0dae85d150c7267767481f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 32/53] fix: lines: do not drop identical slices at the tail

---
 src/segment/filter.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..d50cc4f 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
-- 
2.43.0


From 7b3b66683ca3e677f817f286159c658bb751db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 33/53] fix: zero: do not shrink the unconsumed part

---
 src/byte/zero.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index a8a5835..16c5827 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -57,7 +57,10 @@ impl ByteStream for ZeroStream {
             return;
         }
         self.offset += amount;
-        self.next_len = std::cmp::min(self.len - self.offset, BLOCK_SIZE);
+
+        // keep the remainder available
+        self.next_len = std::cmp::max(self.next_len - amount, BLOCK_SIZE);
+        self.next_len = std::cmp::min(self.len - self.offset, self.next_len);
     }
 }
 
-- 
2.43.0


From d2858e131d2a1aa554e430ab584409b5bd6cd528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 34/53] fix: parser: accept and reject the same arrays
 regardless of the CPU

---
 src/text/parser/naive.rs  | 12 ++++++++++--
 src/text/parser/x86_64.rs | 24 ++++++++++++++++--------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7f76f83..7431a7b 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -58,17 +58,25 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
     let parse_len = parse_len.min(scan_len);
 
     let mut n_elems = 0;
+    let mut is_blank_found = false;
     for (i, x) in src[..parse_len.min(scan_len)].chunks(3).enumerate() {
-        if x.len() < 2 || x[0] == b' ' && x[1] == b' ' {
+        if x.len() < 2 {
             break;
         }
 
+        let is_blank = x[0] == b' ' && x[1] == b' ';
         let is_col_hex = is_valid_hex(x[0]) && is_valid_hex(x[1]);
         let is_sep_valid = x.len() == 2 || x[2] == b' ';
-        if !(is_col_hex && is_sep_valid) {
+        if !((is_blank || is_col_hex) && is_sep_valid) {
             return None;
         }
 
+        // the array ends at the first blank (the columns after it are only validated)
+        is_blank_found = is_blank_found || is_blank;
+        if is_blank_found {
+            continue;
+        }
+
         dst[i] = (to_hex(x[0]) << 4) | to_hex(x[1]);
         n_elems = i + 1;
     }
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..2925d88 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -84,8 +84,9 @@ pub fn parse_hex_single_avx2(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(_mm_loadu_si128(src.as_ptr() as *const __m128i)) }
 }
 
-unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems: usize, v: &mut [u8]) -> Option<usize> {
-    debug_assert!(elems <= 16);
+unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: usize, v: &mut [u8]) -> Option<usize> {
+    debug_assert!(len <= 48);
+    let elems = (len + 1) / 3;
 
     // gather every three elements
     let index_0 = [0u8, 3, 6, 9, 1, 4, 7, 10, 2, 5, 8, 11, 0x80, 0x80, 0x80, 0x80];
@@ -105,8 +106,8 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
     // validation; we allow double-space columns (null)
     // "   " ok
@@ -115,13 +116,15 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     // "00 " ok
     let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
     let is_space = _mm_movemask_epi8(is_space) as u64;
-    let is_space = (is_space << 1) | 1;
 
-    let is_null = sh & sl;
+    let is_null = _mm_cmpeq_epi8(l, _mm_set1_epi8(b' ' as i8));
+    let is_null = _mm_and_si128(is_null, _mm_cmpeq_epi8(l, h));
+    let is_null = _mm_movemask_epi8(is_null) as u64;
     let is_valid = vh & vl;
 
     let mask = 0u64.wrapping_sub(1 << elems);
-    if (((is_valid | is_null) & is_space) | mask) != 0xffffffffffffffff {
+    let space_mask = 0u64.wrapping_sub(1 << (len / 3));
+    if ((is_valid | is_null | mask) & (is_space | space_mask)) != 0xffffffffffffffff {
         return None;
     }
 
@@ -137,6 +140,7 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
     let mut scanned = 0;
     let mut parsed = 0;
     let mut n_elems = 0;
+    let mut is_blank_found = false;
 
     unsafe {
         let find_delim = |x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, delim: u8| -> usize {
@@ -170,7 +174,11 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+            let elems = parse_multi(x0, x1, x2, x3, parse_len, &mut dst[n_elems..])?;
+
+            // the array ends at the first blank (the columns after it are only validated)
+            n_elems += if is_blank_found { 0 } else { elems };
+            is_blank_found = is_blank_found || elems < (parse_len + 1) / 3;
 
             if scan_len < 48 {
                 break;
-- 
2.43.0


From bf82075ca021db8fb700bc7ab6a709c25c19889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 35/53] fix: template: format negative values in non-decimal
 bases, reject zero spacing

---
 src/template.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 865700c..5f3d4ee 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -2,7 +2,7 @@
 // @brief run-time template formatter (for filename formatting)
 
 use anyhow::{anyhow, Context, Result};
-use num_runtime_fmt::NumFmt;
+use num_runtime_fmt::{Base, NumFmt};
 use regex::Regex;
 use std::collections::HashMap;
 
@@ -40,6 +40,9 @@ impl Template {
             let spec = args.get(2).unwrap();
             let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
             let spec = NumFmt::from_str(spec)?;
+            if spec.spacing() == Some(0) {
+                return Err(anyhow!("digit spacing must not be zero: {:?}", b.as_str()));
+            }
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
             let elem = TemplateElement {
@@ -74,7 +77,12 @@ impl Template {
 
             if let Some(var) = &elem.var {
                 let val = var.0.evaluate(&mut get)?;
-                let fmt = var.1.fmt(val)?;
+                // negative values in non-decimal bases are in two's complement (the same as std::fmt).
+                // decimals are widened so that the absolute value always exists
+                let fmt = match var.1.base() {
+                    Base::Decimal => var.1.fmt(val as i128)?,
+                    _ => var.1.fmt(val as u64)?,
+                };
                 s.push_str(&fmt);
             }
         }
-- 
2.43.0


From e69fd6d1b583bc6e07cadea9a33f3912b532597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 36/53] fix: parser: accept decimal headers at the end of the
 line, reject overflows

---
 src/text/parser/naive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7431a7b..7901270 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -87,9 +87,9 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
 pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
     assert!(src.len() >= 16);
 
-    let mut n = 0;
+    let mut n: u64 = 0;
     for (i, &x) in src.iter().enumerate() {
-        if x == b' ' {
+        if x == b' ' || x == b'\n' || x == b':' {
             return Some((n, i));
         }
 
@@ -97,7 +97,7 @@ pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
             return None;
         }
 
-        n = n * 10 + (x - b'0') as u64;
+        n = n.checked_mul(10)?.checked_add((x - b'0') as u64)?;
     }
     None
 }
-- 
2.43.0


From b491ae764ae18e75225be8251ee19a257766963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 37/53] fix: template: render numbers in the same way as
 std::fmt

---
 src/template.rs | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 5f3d4ee..be0ab76 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -2,12 +2,49 @@
 // @brief run-time template formatter (for filename formatting)
 
 use anyhow::{anyhow, Context, Result};
-use num_runtime_fmt::{Base, NumFmt};
+use num_runtime_fmt::{Align, Base, NumFmt, Sign};
 use regex::Regex;
 use std::collections::HashMap;
 
 use crate::eval::{Rpn, VarAttr};
 
+fn format_int(spec: &NumFmt, val: i64) -> Result<String> {
+    if spec.separator().is_some() || spec.precision().is_some() || spec.align() == Align::Decimal {
+        // extensions of num_runtime_fmt
+        return Ok(match spec.base() {
+            Base::Decimal => spec.fmt(val as i128)?,
+            _ => spec.fmt(val as u64)?,
+        });
+    }
+
+    // the same as std::fmt; negative values in non-decimal bases are in two's complement
+    let (prefix, digits) = match spec.base() {
+        Base::Binary => ("0b", format!("{val:b}")),
+        Base::Octal => ("0o", format!("{val:o}")),
+        Base::Decimal => ("", val.unsigned_abs().to_string()),
+        Base::LowerHex => ("0x", format!("{val:x}")),
+        Base::UpperHex => ("0x", format!("{val:X}")),
+    };
+    let sign = match (spec.base() == Base::Decimal && val < 0, spec.sign()) {
+        (true, _) => "-",
+        (false, Sign::PlusAndMinus) => "+",
+        (false, Sign::OnlyMinus) => "",
+    };
+    let prefix = if spec.hash() { prefix } else { "" };
+    let pad = spec.width().saturating_sub(sign.len() + prefix.len() + digits.len());
+
+    if spec.zero() {
+        return Ok(format!("{sign}{prefix}{}{digits}", "0".repeat(pad)));
+    }
+    let left = match spec.align() {
+        Align::Left => 0,
+        Align::Center => pad / 2,
+        _ => pad,
+    };
+    let fill = |n: usize| spec.fill().to_string().repeat(n);
+    Ok(format!("{}{sign}{prefix}{digits}{}", fill(left), fill(pad - left)))
+}
+
 struct TemplateElement {
     fixed: String,
     var: Option<(Rpn, NumFmt)>,
@@ -77,12 +114,7 @@ impl Template {
 
             if let Some(var) = &elem.var {
                 let val = var.0.evaluate(&mut get)?;
-                // negative values in non-decimal bases are in two's complement (the same as std::fmt).
-                // decimals are widened so that the absolute value always exists
-                let fmt = match var.1.base() {
-                    Base::Decimal => var.1.fmt(val as i128)?,
-                    _ => var.1.fmt(val as u64)?,
-                };
+                let fmt = format_int(&var.1, val)?;
                 s.push_str(&fmt);
             }
         }
-- 
2.43.0


From 4aa4811d2678532c981439bbaec5c3f825ec5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 38/53] fix: patch-back: keep the rest of the stream when
 slices finish before the end of it

---
 src/byte/tee.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10311f4..c82f694 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -14,6 +14,7 @@ struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
     error: Option<std::io::Error>, // failed to append to the file; reported to the reader
+    rest: Option<Box<dyn ByteStream>>, // the source is handed over to the reader on dropping TeeStream
 }
 
 impl TempFile {
@@ -25,7 +26,7 @@ impl TempFile {
 }
 
 pub struct TeeStream {
-    src: Box<dyn ByteStream>,
+    src: Option<Box<dyn ByteStream>>, // always Some until dropped
     cache: Arc<Mutex<TempFile>>,
 }
 
@@ -41,10 +42,11 @@ impl TeeStream {
             clear_eof: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
             error: None,
+            rest: None,
         };
 
         TeeStream {
-            src,
+            src: Some(src),
             cache: Arc::new(Mutex::new(tempfile)),
         }
     }
@@ -60,15 +62,16 @@ impl TeeStream {
 
 impl ByteStream for TeeStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        self.src.fill_buf(request)
+        self.src.as_mut().unwrap().fill_buf(request)
     }
 
     fn as_slice(&self) -> &[u8] {
-        self.src.as_slice()
+        self.src.as_ref().unwrap().as_slice()
     }
 
     fn consume(&mut self, bytes: usize) {
-        let stream = self.src.as_slice();
+        let src = self.src.as_mut().unwrap();
+        let stream = src.as_slice();
         debug_assert!(stream.len() >= bytes);
 
         match self.cache.lock() {
@@ -81,7 +84,18 @@ impl ByteStream for TeeStream {
             _ => panic!("failed to lock cache."),
         }
 
-        self.src.consume(bytes);
+        src.consume(bytes);
+    }
+}
+
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        // the consumer may have finished before the end of the source (e.g. it doesn't need the rest of
+        // the stream). the reader continues to read the remainder directly from the source.
+        if let Ok(mut cache) = self.cache.lock() {
+            cache.rest = self.src.take();
+            cache.clear_eof = true;
+        }
     }
 }
 
@@ -89,6 +103,7 @@ impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         match self.cache.lock() {
             Ok(mut cache) => {
+                let cache = &mut *cache;
                 if let Some(error) = cache.error.take() {
                     return Err(error).context("failed to cache the original stream");
                 }
@@ -102,7 +117,15 @@ impl ByteStream for TeeStreamReader {
                     let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
                     self.offset += len;
 
-                    Ok(len == 0)
+                    match &mut cache.rest {
+                        Some(src) if len == 0 => {
+                            let (_, len) = src.fill_buf(BLOCK_SIZE)?;
+                            buf.extend_from_slice(&src.as_slice()[..len]);
+                            src.consume(len);
+                            Ok(len == 0)
+                        }
+                        _ => Ok(len == 0),
+                    }
                 })
             }
             _ => panic!("failed to lock cache."),
-- 
2.43.0


From 04f98974886f13c3ac293bef1f141c7b4f70d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 39/53] fix: eval: reject constants that do not fit in the
 signed 64-bit integer

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 15b12db..98318fe 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -252,7 +252,7 @@ where
         _ => 1,
     };
 
-    Some(Val((val as i64).checked_mul(scaler)?))
+    Some(Val(i64::try_from(val).ok()?.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From 9537f75cb5699da56287d5df3008e3932ff7337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 40/53] fix: patch-back: report an error of the slices without
 reading the rest of the stream

---
 src/byte/tee.rs    |   2 +-
 src/drain/patch.rs | 110 ++++++++++++++++++++++++---------------------
 2 files changed, 61 insertions(+), 51 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index c82f694..4ee3f02 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -13,7 +13,7 @@ use tempfile::SpooledTempFile;
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
-    error: Option<std::io::Error>, // failed to append to the file; reported to the reader
+    error: Option<std::io::Error>,     // failed to append to the file; reported to the reader
     rest: Option<Box<dyn ByteStream>>, // the source is handed over to the reader on dropping TeeStream
 }
 
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 0f2539e..49912cd 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -8,7 +8,7 @@ use crate::text::{InoutFormat, TextFormatter};
 use anyhow::{anyhow, Context, Result};
 use std::io::{ErrorKind, Read, Write};
 use std::process::{Child, ChildStdin, Command, Stdio};
-use std::sync::mpsc::{channel, Receiver};
+use std::sync::mpsc::{channel, Receiver, Sender};
 use std::thread::JoinHandle;
 
 struct BashPipe {
@@ -97,23 +97,34 @@ impl Read for ChunkReader {
     }
 }
 
+type FeedResult = (Box<dyn SegmentStream>, Result<()>);
+
 // the cache of the original stream, being filled by the thread that feeds slices to the command
 struct OriginalStream {
     cache: Box<dyn ByteStream>,
-    progress: Receiver<()>, // closed when the thread consumed all of the original stream
-    is_complete: bool,
+    progress: Receiver<()>,                 // closed at the end of the thread
+    thread: Option<JoinHandle<FeedResult>>, // None after the thread finished
 }
 
 impl ByteStream for OriginalStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         loop {
             let (is_eof, bytes) = self.cache.fill_buf(request)?;
-            if !is_eof || self.is_complete {
+            if !is_eof || self.thread.is_none() {
                 return Ok((is_eof, bytes));
             }
 
-            // EOF of the cache doesn't mean EOF of the original stream. wait for the next bytes
-            self.is_complete = self.progress.recv().is_err();
+            // EOF of the cache doesn't mean EOF of the original stream. wait for the next bytes, or for the end
+            // of the thread. the slices may have finished before the end of the original stream, but the cache
+            // continues to read the rest of it after the source of the slices is dropped.
+            if self.progress.recv().is_err() {
+                let thread = self.thread.take().unwrap();
+                let (slices, ret) = thread
+                    .join()
+                    .map_err(|_| anyhow!("failed to feed slices to the command (internal error)"))?;
+                ret?;
+                drop(slices);
+            }
         }
     }
 
@@ -126,10 +137,45 @@ impl ByteStream for OriginalStream {
     }
 }
 
+fn feed_slices(
+    slices: &mut Box<dyn SegmentStream>,
+    formatter: &TextFormatter,
+    writer: &mut BashPipeWriter,
+    progress: &Sender<()>,
+) -> Result<()> {
+    let mut buf = Vec::new();
+    let mut offset = 0;
+    let mut formatted = 0; // #slices already formatted and remaining in the buffer
+
+    loop {
+        let (is_eof, bytes, count, max_consume) = slices.fill_segment_buf()?;
+        if is_eof && bytes == 0 {
+            break;
+        }
+
+        let (stream, segments) = slices.as_slices();
+        formatter.format_segments(offset, stream, &segments[formatted..count], &mut buf);
+        formatted = count;
+
+        let (bytes, count) = slices.consume(max_consume)?;
+        offset += bytes;
+        formatted -= count;
+        let _ = progress.send(());
+
+        if buf.len() >= BLOCK_SIZE {
+            writer.write_all(&buf)?;
+            buf.clear();
+        }
+    }
+
+    writer.write_all(&buf)?;
+    writer.close();
+    Ok(())
+}
+
 pub struct PatchDrain {
     patch: PatchStream,
     pipe: BashPipe,
-    thread: Option<JoinHandle<Result<()>>>,
 }
 
 impl PatchDrain {
@@ -145,52 +191,21 @@ impl PatchDrain {
         let formatter = TextFormatter::new(out_format, (0, 0));
         let (sender, progress) = channel();
 
-        let thread = std::thread::spawn(move || -> Result<()> {
-            let sender = sender; // dropped at the end of the thread
-            let mut slices = slices;
-            let mut buf = Vec::new();
-            let mut offset = 0;
-            let mut formatted = 0; // #slices already formatted and remaining in the buffer
-
-            loop {
-                let (is_eof, bytes, count, max_consume) = slices.fill_segment_buf()?;
-                if is_eof && bytes == 0 {
-                    break;
-                }
-
-                let (stream, segments) = slices.as_slices();
-                formatter.format_segments(offset, stream, &segments[formatted..count], &mut buf);
-                formatted = count;
-
-                let (bytes, count) = slices.consume(max_consume)?;
-                offset += bytes;
-                formatted -= count;
-                let _ = sender.send(());
-
-                if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf)?;
-                    buf.clear();
-                }
-            }
-
-            writer.write_all(&buf)?;
-            writer.close();
-            Ok(())
+        let mut slices = slices;
+        let thread = std::thread::spawn(move || {
+            let ret = feed_slices(&mut slices, &formatter, &mut writer, &sender);
+            (slices, ret)
         });
 
         let original = Box::new(OriginalStream {
             cache: original,
             progress,
-            is_complete: false,
+            thread: Some(thread),
         });
         let reader = pipe.spawn_reader();
         let patch = PatchStream::new(original, Box::new(reader), patch_format);
 
-        Ok(PatchDrain {
-            patch,
-            pipe,
-            thread: Some(thread),
-        })
+        Ok(PatchDrain { patch, pipe })
     }
 }
 
@@ -199,12 +214,7 @@ impl ByteStream for PatchDrain {
         let (is_eof, bytes) = self.patch.fill_buf(request)?;
 
         if is_eof {
-            if let Some(thread) = self.thread.take() {
-                thread
-                    .join()
-                    .map_err(|_| anyhow!("failed to feed slices to the command (internal error)"))??;
-                self.pipe.child.wait()?;
-            }
+            self.pipe.child.wait()?; // returns immediately if already waited
         }
         Ok((is_eof, bytes))
     }
-- 
2.43.0


From fa6cf7e9873d3d224a5d67cbf10f3fe15e8449ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 41/53] fix: walk: do not read the source again after an error

---
 src/segment/walk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index a41dc58..c7b3d84 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -63,6 +63,9 @@ impl SpanFetcher {
     fn get_next_span(&self, skip: usize, src: &mut dyn ByteStream, filled: &mut (bool, usize)) -> Result<usize> {
         let mut error = None;
         let getter = |id: usize, val: i64| -> i64 {
+            if error.is_some() {
+                return 0; // the source must not be touched after an error
+            }
             Self::get_array_element(skip, id, val, src, filled).unwrap_or_else(|e| {
                 error.get_or_insert(e);
                 0
-- 
2.43.0


From 2fe50d1bcfb415033fa73e080068bf708c60a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 42/53] fix: zip: end with the shortest source without reading
 the rest of the others

---
 src/byte/zip.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/byte/zip.rs b/src/byte/zip.rs
index 7befbfc..6b3faf9 100644
--- a/src/byte/zip.rs
+++ b/src/byte/zip.rs
@@ -74,17 +74,22 @@ impl Zipper {
         let request = (request + self.srcs.len() - 1) / self.srcs.len();
 
         // bulk_len is the minimum valid slice length among the source buffers
-        let mut is_eof = true;
+        let mut eof_len = usize::MAX; // of the sources that have reached EOF
         let mut len = usize::MAX;
         for src in &mut self.srcs {
-            let (x, y) = src.fill_buf(request)?;
-            is_eof = is_eof && x;
-            len = std::cmp::min(len, y);
+            let (is_eof, bytes) = src.fill_buf(request)?;
+            if is_eof {
+                eof_len = std::cmp::min(eof_len, bytes);
+            }
+            len = std::cmp::min(len, bytes);
         }
 
         // teardown
         let len = (len / self.word_size) * self.word_size;
 
+        // the stream ends with the shortest source, regardless of the remainders of the others
+        let is_eof = eof_len < len.saturating_add(self.word_size);
+
         // initialize the pointer cache (used in `gather_impl`)
         for (src, ptr) in self.srcs.iter_mut().zip(self.ptrs.iter_mut()) {
             *ptr = src.as_slice().as_ptr();
-- 
2.43.0


From 1a85576ffe7cd618fe3a5fc97b374df520fa4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 43/53] fix: cli: reject stdin used twice with the default
 input or two or more in-place files

---
 src/main.rs     | 6 ++++++
 src/pipeline.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 424e834..4225546 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -94,6 +94,9 @@ impl Args {
     fn count_stdin(&self) -> usize {
         let is_stdin = |x: &str| -> bool { x == "-" || x == "/dev/stdin" };
 
+        if self.inputs.is_empty() && !self.pipeline.is_inplace() {
+            return 1; // reads stdin by default
+        }
         self.inputs.iter().filter(|&x| is_stdin(x)).count()
     }
 
@@ -156,6 +159,9 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         let mut inputs = args.inputs;
         inputs.sort();
         inputs.dedup();
+        if inputs.len() > 1 && args.pipeline.count_stdin() > 0 {
+            return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used for two or more inputs"));
+        }
 
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 280083e..ea1c3d6 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -108,6 +108,10 @@ impl PipelineArgs {
         }
         count
     }
+
+    pub fn is_inplace(&self) -> bool {
+        self.inplace
+    }
 }
 
 #[derive(Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From b99943cd6f86db987a1d8489fdaeb25af7dd48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 44/53] fix: main: wait for the pager when the stream ends with
 an error

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4225546..9179664 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -189,11 +189,13 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         let (child, drain) = build_drain(&args.pager)?;
 
         let stream = pipeline.spawn_stream(sources)?;
-        consume_stream(stream, drain)?;
+        let result = consume_stream(stream, drain);
 
+        // wait for the pager whatever the result is
         if let Some(mut child) = child {
             let _ = child.wait();
         }
+        result?;
     }
 
     Ok(())
-- 
2.43.0


From ced73b10ef295aa430e636f5711ef8d6d1fb5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 45/53] fix: eval: reject ! and ~ as binary operators

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 98318fe..4534cf3 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -317,7 +317,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
             // prefix followed by an expression
             (Prefix(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // binary op; lhs and rhs
-            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(_)) => {}
+            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(y)) if y != '!' && y != '~' => {}
             (Op(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // parentheses inner
             (Paren('(' | '['), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
-- 
2.43.0


From cac2e300131a4a28e25db0f229167509713fd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 46/53] fix: main: do not start the pager before the stream is
 ready

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9179664..23824ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,9 +186,9 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         };
 
         let sources = build_sources(&inputs)?;
-        let (child, drain) = build_drain(&args.pager)?;
-
         let stream = pipeline.spawn_stream(sources)?;
+
+        let (child, drain) = build_drain(&args.pager)?;
         let result = consume_stream(stream, drain);
 
         // wait for the pager whatever the result is
-- 
2.43.0


From f114759f29e0a38a5d04176009cb09200ce68679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 47/53] fix: pipeline: reject widths too large to be formatted

---
 src/pipeline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index ea1c3d6..17c940e 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -310,6 +310,9 @@ impl Pipeline {
         if self.word_size == 0 {
             return Err(anyhow!("N == 0 is not allowed for --cat and --zip"));
         }
+        if !self.out_format.is_binary() && self.out_format.cols > u32::MAX as usize {
+            return Err(anyhow!("too many columns to be formatted (got: {})", self.out_format.cols));
+        }
 
         // validate the node order
         for x in self.nodes.windows(2) {
-- 
2.43.0


From 3d0d7add09039c23dbb1709036236c828909f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 48/53] fix: stride: reject widths that overflow the positions
 of slices

---
 src/segment/stride.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index e6935ec..56c3048 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -36,6 +36,12 @@ impl ConstSlicerParams {
             ));
         }
 
+        // the positions of slices must not overflow
+        let limit = isize::MAX as usize / 8;
+        if pitch as usize > limit || start.unsigned_abs() > limit || end.unsigned_abs() > limit {
+            return Err(anyhow!("map expression {:?} on {}-byte slicer results in too long slices", expr, pitch));
+        }
+
         let span = end - start;
         debug_assert!(span > 0);
 
-- 
2.43.0


From 44ee054ff8efd9605c0a90be35ecac4a17ae3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 49/53] fix: saturate the positions in slice-mapping
 expressions instead of letting them overflow

---
 src/mapper.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 44a767a..30bf84f 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -48,7 +48,7 @@ impl SegmentMapperAnchor {
     }
 
     pub fn evaluate(&self, input: &[isize; 2]) -> isize {
-        input[self.anchor] + self.offset
+        input[self.anchor].saturating_add(self.offset)
     }
 }
 
@@ -180,13 +180,13 @@ impl RangeMapper {
         let start = if mapper.start.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.start.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.start.offset, 0) as usize)
+            EndAnchored(std::cmp::max(mapper.start.offset.saturating_neg(), 0) as usize)
         };
 
         let end = if mapper.end.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.end.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.end.offset, 0) as usize)
+            EndAnchored(std::cmp::max(mapper.end.offset.saturating_neg(), 0) as usize)
         };
 
         Ok(RangeMapper { start, end })
-- 
2.43.0


From 1eb92d3794a19fc60704b0685baecc75596f6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 50/53] fix: reject text between the variable of a template and
 its format, instead of taking it for the format or panicking

---
 src/template.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/template.rs b/src/template.rs
index be0ab76..5f7c46b 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -75,7 +75,11 @@ impl Template {
             let name = Rpn::new(name.as_str(), vars)?;
 
             let spec = args.get(2).unwrap();
-            let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
+            let spec = match (spec.as_str(), spec.as_str().strip_prefix(':')) {
+                ("", _) => "",
+                (_, Some(spec)) => spec,
+                _ => return Err(anyhow!("unparsable format string: {:?}", b.as_str())),
+            };
             let spec = NumFmt::from_str(spec)?;
             if spec.spacing() == Some(0) {
                 return Err(anyhow!("digit spacing must not be zero: {:?}", b.as_str()));
-- 
2.43.0


From dbcc84d7ca1202261ecdf7aee8d19bba701997d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 51/53] fix: run the documented default pager, less -S -F -X

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 23824ec..4f80035 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -220,7 +220,7 @@ fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)
         return Ok((None, Box::new(std::io::stdout())));
     }
 
-    let pager = pager.unwrap_or_else(|| "less -S -F".to_string());
+    let pager = pager.unwrap_or_else(|| "less -S -F -X".to_string());
     let args: Vec<_> = pager.as_str().split_whitespace().collect();
     if args.is_empty() {
         return Err(anyhow!("the pager command is empty"));
-- 
2.43.0


From 8c2c97d5e75f7cc8aaca68b919be4c21c9532d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 52/53] fix: reject an array that ends in the middle of a byte
 instead of dropping the digit

---
 src/segment/exact.rs   |  5 ++++-
 src/text/parser/mod.rs | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index e57ab22..ef95000 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -4,7 +4,7 @@
 use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
-use crate::text::parser::parse_hex_body;
+use crate::text::parser::{is_body_truncated, parse_hex_body};
 use anyhow::{anyhow, Context, Result};
 
 pub struct ExactMatchSlicer {
@@ -27,6 +27,9 @@ impl ExactMatchSlicer {
         if parsed >= 4 * 48 {
             return Err(anyhow!("ARRAY must not be longer than 64 bytes"));
         }
+        if is_body_truncated(&pattern[..parsed]) {
+            return Err(anyhow!("ARRAY must not end in the middle of a byte"));
+        }
         buf.truncate(filled);
 
         Ok(ExactMatchSlicer {
diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 014cc59..94ab65c 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -128,6 +128,11 @@ pub fn parse_hex_body(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Option<((
     parse_hex_body_naive(is_in_tail, src, dst)
 }
 
+// checks if the parsed part of an array ends with the first digit of a byte
+pub fn is_body_truncated(parsed: &[u8]) -> bool {
+    parsed.len() % 3 == 1 && parsed.last() != Some(&b' ')
+}
+
 #[cfg(test)]
 #[rustfmt::skip]
 fn test_parse_hex_body_impl(f: &dyn Fn(bool, &[u8], &mut [u8]) -> Option<((usize, usize), usize)>) {
@@ -400,6 +405,9 @@ impl TextParser {
         while rem_len >= 4 * 48 {
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
+            if is_body_truncated(&stream[..parsed]) {
+                return None;
+            }
 
             let (_, rem_stream) = stream.split_at(scanned);
             rem_len -= scanned;
@@ -435,6 +443,10 @@ impl TextParser {
                 return Some((len - partial, false, false, true));
             }
 
+            if is_body_truncated(&stream[..parsed]) {
+                return None;
+            }
+
             debug_assert!(!is_in_tail || parsed == 0);
             is_in_tail = parsed < rem_len;
 
-- 
2.43.0


From b828873496c44bca8999cea8aecc0836b2d01d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:10 +0000
Subject: [PATCH 53/53] fix: read a long line in a loop, instead of a recursion
 that overflows the stack

---
 src/text/parser/mod.rs | 51 +++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 94ab65c..81e87e0 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -456,36 +456,37 @@ impl TextParser {
     }
 
     fn read_line_continued(&mut self, offset: usize, span: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
-        if is_eof && len == 0 {
-            return Ok(Some((offset, span)));
-        }
-
-        let mut stream = self.src.as_slice();
-        let mut rem_len = len;
         let mut is_in_tail = is_in_tail;
-        while rem_len > 0 {
-            let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, is_eof, rem_len, is_in_tail, buf)
-                .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
-            rem_len -= fwd;
-            is_in_tail = delim_found;
-
-            if refeed {
-                break;
-            }
-            if eol_found {
-                rem_len = rem_len.saturating_sub(1);
-                self.src.consume(len - rem_len);
+        loop {
+            let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+            if is_eof && len == 0 {
                 return Ok(Some((offset, span)));
             }
 
-            let (_, rem_stream) = stream.split_at(fwd);
-            stream = rem_stream;
-        }
+            let mut stream = self.src.as_slice();
+            let mut rem_len = len;
+            while rem_len > 0 {
+                let (fwd, delim_found, eol_found, refeed) = self
+                    .read_body(stream, is_eof, rem_len, is_in_tail, buf)
+                    .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
+                rem_len -= fwd;
+                is_in_tail = delim_found;
+
+                if refeed {
+                    break;
+                }
+                if eol_found {
+                    rem_len = rem_len.saturating_sub(1);
+                    self.src.consume(len - rem_len);
+                    return Ok(Some((offset, span)));
+                }
+
+                let (_, rem_stream) = stream.split_at(fwd);
+                stream = rem_stream;
+            }
 
-        self.src.consume(len - rem_len);
-        self.read_line_continued(offset, span, is_in_tail, buf)
+            self.src.consume(len - rem_len);
+        }
     }
 
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-- 
2.43.0

