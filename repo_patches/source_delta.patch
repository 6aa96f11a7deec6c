From a78d526b792ff707df2e593feea090a682c597d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 01/10] fix: report errors recovered from inside a repetition

repeat() returned Success when it stopped because no further separator or
item matched, dropping the errors of items and separators it had already
recovered from. Leave the loop instead, so the common exit reports them.
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 969829d3368594516c4cb9fa0eedc753f3d3a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 02/10] fix: keep the errors of a recovered result in
 Result::try_map()

A recovered result mapped to a success became a plain success, silently
dropping all its errors.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From 087429fa0330a9ba6fdf41515779556a782fc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 03/10] fix: restore the stream when a try_map() recovery is
 turned into a failure

With recovery disabled, TryMapResult::Recovered fails; the contract of
parse_internal() then is that the cursor is left where parsing started.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From c66a03a799bc1c26cd1e56709970d805f8443ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 04/10] fix: report the errors of the alternative that got
 furthest

When the furthest alternative had something other than a single
expected-found error, alternate() took the next element of the already
advanced iterator: it reported the second best alternative, or panicked if
there was only one.
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From 993ab3803f925c5d36ab4bcddf8f2a41c4382adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 05/10] fix: keep the current position reachable in
 Stream::save_at()

Advancing may drop tokens from the front of the buffer, which invalidated
the raw position that save_at() went back to.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..1dbf3dc 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,10 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        let restore = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&restore);
         state
     }
 
-- 
2.43.0


From eac35a73e69405cf8d38a15b72155abb762e52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 06/10] fix: do not advance past a buffered end of input in
 Stream::advance_to()

The EOF sentinel in the buffer was counted as a token, so that the cursor
could end up behind it; the source was then polled again after its end.
---
 src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 1dbf3dc..1e8c674 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -343,8 +343,10 @@ where
         let mut amount = index - self.index;
 
         // Determine how many tokens we can advance by without refilling the
-        // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        // buffer, and do that. The last entry in the buffer is not a token
+        // that can be advanced past if it is the EOF sentinel.
+        let buffered_tokens = self.buffer.len() - self.source_at_eof as usize;
+        let already_buffered = usize::min(buffered_tokens - self.index_in_buffer, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 5d4a58d5c3840f5ce723f410d5cc9a9351a32fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 07/10] fix: allow queries at a saved state behind the last
 token read

token_at() and location_tracker_at() panicked for a state saved at the end
of the buffered tokens after moving back.
---
 src/stream.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 1e8c674..3cbcebd 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -238,8 +238,17 @@ where
             return self.token();
         }
 
-        // Return the requested token from the buffer.
+        // The saved position may lie directly behind the tokens that have been
+        // read so far; in that case the token needs to be read first.
         assert!(*saved_state.index >= self.start_of_buffer());
+        if *saved_state.index == self.start_of_buffer() + self.buffer.len() {
+            let current = self.save();
+            self.restore(saved_state);
+            self.make_next_available();
+            self.restore(&current);
+        }
+
+        // Return the requested token from the buffer.
         self.buffer[*saved_state.index - self.start_of_buffer()]
             .0
             .as_ref()
@@ -272,9 +281,13 @@ where
             return self.location_tracker();
         }
 
-        // Return the requested token from the buffer.
+        // Return the requested location from the buffer; the location behind
+        // the last buffered token is that of the source.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From 1bb4006e5863de92dada207d561ea79d5752a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 08/10] fix: consume an allowed leading separator also when no
 items follow

allow_leading() documents that the leading separator is allowed with zero
items, but it was treated as a trailing separator in that case.
---
 src/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..16af835 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -256,8 +256,10 @@ where
                         // We've already matched enough, we're done. We may
                         // however need to restore the state to before the
                         // separator, which already matched if there was one.
+                        // A leading separator is allowed regardless of whether
+                        // any items follow.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From 46f39886b950ba753c41e506c78b45f1c5e55c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 09/10] fix: do not insert a stray "at" in unmatched delimiter
 messages

The location following "before" and "after" was formatted with its
" at" prefix.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6922689..0d38cbd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -348,14 +348,14 @@ where
             Simple::UnmatchedLeftDelimiter(lt, ls, before) => {
                 write!(f, "unmatched left {lt} ({ls})")?;
                 if before.is_known() {
-                    write!(f, "; must be closed before {before}")?;
+                    write!(f, "; must be closed before {before:#}")?;
                 }
                 Ok(())
             }
             Simple::UnmatchedRightDelimiter(rt, rs, after) => {
                 write!(f, "unmatched right {rt} ({rs})")?;
                 if after.is_known() {
-                    write!(f, "; must be opened after {after}")?;
+                    write!(f, "; must be opened after {after:#}")?;
                 }
                 Ok(())
             }
-- 
2.43.0


From 3168b235d6790cea76e6c1739633c623910376e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 10/10] fix: return the incoming token from just()

As documented; tokens that compare equal need not be identical.
---
 src/primitive.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/primitive.rs b/src/primitive.rs
index 51cc36c..eb34b7a 100644
--- a/src/primitive.rs
+++ b/src/primitive.rs
@@ -169,22 +169,24 @@ where
         _enable_recovery: bool,
     ) -> parser::Result<Self::Output, E> {
         // Match the incoming token.
-        let found = stream.token();
-        if found == Some(&self.expected) {
-            // Matched successfully, skip past it and return success.
-            stream.advance();
-            parser::Result::Success(self.expected.clone())
-        } else {
-            // Construct error message.
-            let found = found.cloned();
-            parser::Result::Failed(
-                stream.index(),
-                vec![E::expected_found(
-                    [Some(self.expected.clone())],
-                    found,
-                    error::At::Span(stream.span()),
-                )],
-            )
+        let found = stream.token().cloned();
+        match found {
+            Some(found) if found == self.expected => {
+                // Matched successfully, skip past it and return success.
+                stream.advance();
+                parser::Result::Success(found)
+            }
+            found => {
+                // Construct error message.
+                parser::Result::Failed(
+                    stream.index(),
+                    vec![E::expected_found(
+                        [Some(self.expected.clone())],
+                        found,
+                        error::At::Span(stream.span()),
+                    )],
+                )
+            }
         }
     }
 }
-- 
2.43.0

