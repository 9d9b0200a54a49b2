From cbfea0e1f8305659ea86c72483e7ea0d5bcac130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 01/52] fix: chainr1 fails when a committed operator lacks its
 right operand

---
 src/parser/repeat.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..8bf5925 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1084,25 +1084,28 @@ where
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => {
-                    committed = committed.merge(rest);
-                    x
-                }
+            let (op, op_committed) = match self.1.parse_lazy(input).into() {
+                Ok((x, rest)) => (x, rest),
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
                     break;
                 }
             };
-            let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
+            match self
+                .parse_committed_mode(FirstMode, input, &mut ())
+                .into()
+            {
                 Ok((r, rest)) => {
                     l = op(l, r);
-                    committed = committed.merge(rest);
+                    committed = committed.merge(op_committed).merge(rest);
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
+                Err(Commit::Peek(err)) => {
+                    // The operator has committed to there being a right operand
+                    if !op_committed.is_peek() {
+                        return CommitErr(err.error);
+                    }
                     ctry!(input.reset(before).committed());
                     break;
                 }
-- 
2.43.0


From 5b70723cd81cd5c1ffa512c5deffa3a9360b10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 02/52] fix: take_until has committed once it has taken a
 token, also across resumes

---
 src/parser/repeat.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 8bf5925..908a2e0 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1154,39 +1154,51 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut output, ref mut committed, ref mut end_state) = *state;
 
-        let mut committed = Commit::Peek(());
         loop {
             let before = input.checkpoint();
             match self.end.parse_mode(mode, input, end_state).into() {
                 Ok((_, rest)) => {
                     ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    let output = mem::take(output);
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(output)
+                    } else {
+                        PeekOk(output)
                     };
                 }
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
+                    mode.set_first();
+                    match uncons(input) {
+                        PeekOk(token) | CommitOk(token) => output.extend(Some(token)),
+                        PeekErr(err) if !*committed => return PeekErr(err),
+                        PeekErr(err) => return CommitErr(err.error),
+                        CommitErr(err) => return CommitErr(err),
+                    }
+                    *committed = true;
                 }
                 Err(Commit::Commit(e)) => {
+                    let position = input.position();
                     ctry!(input.reset(before).committed());
+                    if input.position() != position {
+                        // `end` will be parsed from its start again
+                        *end_state = Default::default();
+                    }
                     return CommitErr(e.error);
                 }
             };
-- 
2.43.0


From 633df9adbd1b67b95bb8e085babd134d5b128302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 03/52] fix: escaped retries from where the inner parser
 started and commits with the escape

---
 src/parser/repeat.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 908a2e0..2166aa7 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1409,24 +1409,23 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
+                            committed = Commit::Commit(());
                             match self.escape_parser.parse_committed_mode(
                                 FirstMode,
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
-                                    committed = Commit::Commit(());
-                                }
+                                PeekOk(_) | CommitOk(_) => {}
                                 CommitErr(err) => return CommitErr(err),
                                 PeekErr(err) => {
                                     return CommitErr(err.error);
-- 
2.43.0


From 11c78f3512a160dbf0e3be8e1b88e1490270698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 04/52] fix: repeat_until has committed once an element has,
 also across resumes

---
 src/parser/repeat.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 2166aa7..a4b9250 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1290,7 +1290,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (F, bool, bool, P::PartialState, E::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1303,23 +1303,40 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, committed, is_parse, parse_state, end_state) = state;
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
-                output.extend(Some(token));
-                committed = committed.merge(c);
-                *is_parse = false;
+                match self
+                    .parser
+                    .parse_committed_mode(mode, input, parse_state)
+                    .into()
+                {
+                    Ok((token, rest)) => {
+                        output.extend(Some(token));
+                        *committed |= !rest.is_peek();
+                        *is_parse = false;
+                        mode.set_first();
+                    }
+                    Err(Commit::Commit(err)) => return CommitErr(err.error),
+                    Err(Commit::Peek(err)) => {
+                        if *committed {
+                            return CommitErr(err.error);
+                        }
+                        *state = Default::default();
+                        return PeekErr(err);
+                    }
+                }
             } else {
                 let before = input.checkpoint();
                 match self.end.parse_mode(mode, input, end_state).into() {
                     Ok((_, rest)) => {
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        let output = mem::take(output);
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(output)
+                        } else {
+                            PeekOk(output)
                         };
                     }
                     Err(Commit::Peek(_)) => {
@@ -1328,7 +1345,12 @@ where
                         *is_parse = true;
                     }
                     Err(Commit::Commit(e)) => {
+                        let position = input.position();
                         ctry!(input.reset(before).committed());
+                        if input.position() != position {
+                            // `end` will be parsed from its start again
+                            *end_state = Default::default();
+                        }
                         return CommitErr(e.error);
                     }
                 }
-- 
2.43.0


From e7e1bca58fdf9dcd7727dfebf987af5a09047cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 05/52] fix: attempt can be resumed and still backtrack to its
 start

---
 src/parser/combinator.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..19eb810 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -8,7 +8,7 @@ use crate::{
     },
     lib::{fmt, marker::PhantomData, mem, str},
     parser::ParseMode,
-    stream::{input_at_eof, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce},
+    stream::{input_at_eof, span::Span, uncons, ResetStream, Stream, StreamErrorFor, StreamOnce},
     Parser,
 };
 
@@ -94,7 +94,7 @@ where
     P: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = P::PartialState;
+    type PartialState = (usize, P::PartialState);
 
     #[inline]
     fn parse_stream(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
@@ -125,12 +125,32 @@ where
     where
         M: ParseMode,
     {
-        match self.0.parse_committed_mode(mode, input, state) {
+        let (ref mut parsed, ref mut child_state) = *state;
+
+        let before = input.checkpoint();
+        if mode.is_first() {
+            *parsed = 0;
+        }
+        // Skip past what `self.0` had already parsed when the input ran out
+        for _ in 0..mem::take(parsed) {
+            ctry!(uncons(input));
+        }
+
+        match self.0.parse_committed_mode(mode, input, child_state) {
             v @ CommitOk(_) | v @ PeekOk(_) | v @ PeekErr(_) => v,
             CommitErr(err) => {
                 if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // The parse may still end in an error, in which case the other parsers must
+                    // be able to start from the beginning so nothing can be consumed yet
+                    let position = input.position();
+                    ctry!(input.reset(before.clone()).committed());
+                    while input.position() != position && input.uncons().is_ok() {
+                        *parsed += 1;
+                    }
+                    ctry!(input.reset(before).committed());
                     CommitErr(err)
                 } else {
+                    *child_state = Default::default();
                     PeekErr(err.into())
                 }
             }
-- 
2.43.0


From 28bb59b4a4050721cd529cbe9f381b36bc5c1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 06/52] fix: eof waits for more input while the stream is
 partial

---
 src/parser/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..beec2b5 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -660,6 +660,10 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
+            // There may still be more input to come if the stream is partial
+            Err(err) if err.is_unexpected_end_of_input() && input.is_partial() => {
+                CommitErr(Input::Error::from_error(input.position(), err))
+            }
             Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
             _ => {
                 ctry!(input.reset(before).committed());
-- 
2.43.0


From 598436aff5b9992afdad2b807f2fe1b3741a108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 07/52] fix: choice over slices retries all parsers if none had
 consumed when the input ran out

---
 src/parser/choice.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..72e18d4 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -406,16 +406,27 @@ where
                 x
             });
     }
+    *index_state = 0;
+    let before_position = input.position();
 
     for i in 0..self_.len() {
         ctry!(input.reset(before.clone()).committed());
 
         match self_[i].parse_mode(mode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If we get `CommitErr` but the input is the same this is a partial parse we
+                // cannot commit to so all the parsers are retried on the next call to
+                // `parse_partial`
+                if input.position() != before_position {
+                    *index_state = i + 1;
+                } else {
+                    *child_state = Default::default();
+                }
                 return committed_err;
             }
             PeekErr(err) => {
+                // The state is shared between the parsers
+                *child_state = Default::default();
                 prev_err = match prev_err {
                     None => Some(err),
                     Some(mut prev_err) => {
-- 
2.43.0


From 0e860460161644dee22e9be3b38070767fbdb774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 08/52] fix: not_followed_by waits for more input when its
 parser does

---
 src/parser/combinator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 19eb810..679c3d3 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -42,8 +42,13 @@ where
         let checkpoint = input.checkpoint();
         let result = self.0.parse_mode(mode, input, state);
         ctry!(input.reset(checkpoint).committed());
+        // `self.0` always starts over
+        *state = Default::default();
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
+            CommitErr(err) if input.is_partial() && err.is_unexpected_end_of_input() => {
+                CommitErr(err)
+            }
             CommitErr(_) | PeekErr(_) => PeekOk(()),
         }
     }
-- 
2.43.0


From 51d5a97e1da2c511777fe29c072b2732c976d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 09/52] fix: and_then only waits for more input if its error
 says so

---
 src/parser/combinator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 679c3d3..9cb45f0 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -407,7 +407,10 @@ where
                 Err(err) => {
                     let err = <Input as StreamOnce>::Error::from_error(position, err.into());
 
-                    if input.is_partial() && input_at_eof(input) {
+                    if err.is_unexpected_end_of_input()
+                        && input.is_partial()
+                        && input_at_eof(input)
+                    {
                         ctry!(input.reset(checkpoint).committed());
                         CommitErr(err)
                     } else {
-- 
2.43.0


From 01c40eb6a26a49281c08e0c4f0c4c8b5f6fb6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 10/52] fix: only a lack of input makes a failed range on a
 partial stream wait for more

---
 src/stream/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..da0ad56 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -250,8 +250,10 @@ pub fn wrap_stream_error<T, Input>(
 where
     Input: ?Sized + StreamOnce + Positioned,
 {
+    let is_end_of_input = err.is_unexpected_end_of_input();
     let err = Input::Error::from_error(input.position(), err);
-    if input.is_partial() {
+    // Only a lack of input may be resolved by waiting for more of it
+    if is_end_of_input && input.is_partial() {
         CommitErr(err)
     } else {
         PeekErr(err.into())
-- 
2.43.0


From f58264ee27345682c5fbd357cddc651385251f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 11/52] fix: a committed parse failure at the end of a partial
 input is not a lack of input

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24e880b..831ccde 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -1138,7 +1138,9 @@ pub trait ParseMode: Copy {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
+                // When the input is partial this is not the actual end and more input would not
+                // make the parser succeed either (it would have returned `CommitErr` if so)
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             parser.add_error(error);
-- 
2.43.0


From 07e51c6307f2bc2aebc5a6a471e73da376c97a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 12/52] fix: then does not reuse the partial state of the
 previously selected parser

---
 src/parser/sequence.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..dda34e0 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -660,6 +660,8 @@ where
             };
 
             *n_parser_cache = Some((committed, (self.1)(value)));
+            // The previous parser might have been a different one
+            *n_state = Default::default();
             mode.set_first();
         }
 
@@ -751,6 +753,8 @@ where
                 PeekErr(err) => return PeekErr(err),
                 CommitErr(err) => return CommitErr(err),
             }
+            // The previous parser might have been a different one
+            *n_state = Default::default();
             mode.set_first();
         }
 
@@ -852,6 +856,8 @@ where
 
             let parser = (self.1)(&value);
             *n_parser_cache = Some((committed, value, parser));
+            // The previous parser might have been a different one
+            *n_state = Default::default();
 
             mode.set_first();
         }
-- 
2.43.0


From 12f2a3a8466aee06b18e9505b6ebbd15aa39cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 13/52] fix: take_until_range treats a character boundary as no
 match

---
 src/parser/range.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..9c07fdd 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -480,15 +480,24 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
-                        first_stream_error = Some((first_error, input.distance(&before)));
-                    }
+                    //
+                    // Other errors (that `len` does not end on a character boundary) would still be
+                    // there with more input so they just mean that there were no match
+                    let error_distance = input.distance(&before);
 
                     // Reset the stream back to where it was when we entered the top of the loop
                     ctry!(input.reset(look_ahead_input).committed());
 
                     // See if we can advance anyway
-                    if input.uncons().is_err() {
+                    let at_end = input.uncons().is_err();
+
+                    if first_stream_error.is_none()
+                        && (at_end || first_error.is_unexpected_end_of_input())
+                    {
+                        first_stream_error = Some((first_error, error_distance));
+                    }
+
+                    if at_end {
                         let (first_error, first_error_distance) = first_stream_error.unwrap();
 
                         // Reset the stream
-- 
2.43.0


From 9dd1a3bf09a3978541539018ccef95657b9b8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 14/52] fix: count_min_max has committed once an element has,
 also across resumes, and starts over after a failure

---
 src/parser/repeat.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index a4b9250..90f130c 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -123,7 +123,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (usize, bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -136,27 +136,33 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (count, committed, elements, child_state) = state;
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
-        if *count < self.min {
+        *committed = iter.committed;
+        let result = if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
                 self.min - *count
             ));
             iter.fail(err)
         } else {
-            iter.into_result_fast(elements).map(|x| {
-                *count = 0;
-                x
-            })
+            iter.into_result_fast(elements)
+        };
+        if !matches!(result, CommitErr(_)) {
+            // The next parse starts from the beginning
+            *count = 0;
+            *committed = false;
+            *elements = F::default();
         }
+        result
     }
 
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From 624070b1dae0f03a2090ac434be2f06573372ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 15/52] fix: many has committed once an element has, also
 across resumes

---
 src/parser/repeat.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 90f130c..dbf5bc8 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -390,7 +390,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -404,11 +404,17 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut committed, ref mut elements, ref mut child_state) = *state;
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+        *committed = iter.committed;
+
+        iter.into_result_fast(elements).map(|x| {
+            *committed = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From 49014f83cd8941fed981d93529404b421d71cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 16/52] fix: many1 has committed once an element has, also
 across resumes

---
 src/parser/repeat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index dbf5bc8..efc6dfa 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -504,6 +504,7 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        *committed_state = iter.committed;
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
-- 
2.43.0


From a0ee5d3ee20c701403d44c4220d88aebc25cf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 17/52] fix: sep_by1 does not parse its first element again
 when resumed

---
 src/parser/repeat.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index efc6dfa..2681eaf 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -721,7 +721,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -737,17 +737,23 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
 
-        rest.combine_commit(move |_| {
+        rest.combine_commit(|_| {
             let rest = (&mut self.separator).with(&mut self.parser);
             let mut iter = Iter::new(rest, mode, input, child_state);
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
-- 
2.43.0


From 6a48beb4eff29a2b70c8f02b8d95c9020a881f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 18/52] fix: sep_end_by1 starts its separator afresh after the
 first element

---
 src/parser/repeat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 2681eaf..0090529 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -909,7 +909,7 @@ where
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
@@ -927,6 +927,7 @@ where
                         .parse_mode(mode, input, &mut child_state.B.state));
                 *parsed_one = Some(rest);
                 elements.extend(Some(first));
+                mode.set_first();
                 rest
             }
         };
-- 
2.43.0


From 4bf24ea6debea9d3a7ee61d7c7cc95b9e0fcfb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 19/52] fix: iterate starts over after a failure and with each
 item's parser

---
 src/parser/repeat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 0090529..756dd8c 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1590,10 +1590,13 @@ where
             match parser.parse_mode(mode, input, next) {
                 PeekOk(v) => {
                     mode.set_first();
+                    // The next parser might be a different one
+                    *next = Default::default();
                     Ok(v)
                 }
                 CommitOk(v) => {
                     mode.set_first();
+                    *next = Default::default();
                     *committed = true;
                     Ok(v)
                 }
@@ -1634,7 +1637,12 @@ where
         })();
 
         if let Err((item, err)) = result {
-            *next_item = Some(item);
+            if let PeekErr(_) = err {
+                // The next parse starts from the beginning
+                *state = Default::default();
+            } else {
+                *next_item = Some(item);
+            }
             return err;
         }
 
-- 
2.43.0


From b039b7acf51ded609cb957044780c6417beba525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 20/52] fix: a sequence remembers that it committed when
 resumed and starts over after a failure

---
 src/parser/sequence.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index dda34e0..50fa635 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -6,7 +6,7 @@ use crate::{
         ParseResult::{self, *},
         StreamError, Tracked,
     },
-    lib::marker::PhantomData,
+    lib::{marker::PhantomData, mem},
     parser::{
         combinator::{ignore, Ignore, Map},
         ParseMode,
@@ -94,6 +94,9 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            // The number of the last parser which committed (1-based), 0 if no parser has
+            #[allow(dead_code)]
+            first_empty_parser: usize,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,7 +167,6 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
@@ -172,7 +174,7 @@ macro_rules! tuple_parser {
                 macro_rules! add_errors {
                     ($err: ident, $offset: expr) => {
                         $partial_state::add_errors(
-                            input, $err, first_empty_parser, $offset, $h, $($id),*
+                            input, $err, state.first_empty_parser, $offset, $h, $($id),*
                         )
                     }
                 }
@@ -180,7 +182,7 @@ macro_rules! tuple_parser {
                 if mode.is_first() || state.$h.value.is_none() {
                     let temp = match $h.parse_mode(mode, input, &mut state.$h.state) {
                         CommitOk(x) => {
-                            first_empty_parser = current_parser + 1;
+                            state.first_empty_parser = current_parser + 1;
                             x
                         }
                         PeekErr(err) => return PeekErr(err),
@@ -199,23 +201,28 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
-                                first_empty_parser = current_parser + 1;
+                                state.first_empty_parser = current_parser + 1;
                                 x
                             }
                             PeekErr(err) => {
                                 if let Err(err) = input.reset(before) {
-                                    return if first_empty_parser != 0 {
+                                    return if state.first_empty_parser != 0 {
                                         CommitErr(err.into())
                                     } else {
                                         PeekErr(err.into())
                                     };
                                 }
-                                return add_errors!(err, state.offset)
+                                let result = add_errors!(err, state.offset);
+                                if let PeekErr(_) = result {
+                                    // The next parse starts from the beginning
+                                    *state = Default::default();
+                                }
+                                return result;
                             }
                             CommitErr(err) => return CommitErr(err),
                             PeekOk(x) => {
@@ -234,7 +241,7 @@ macro_rules! tuple_parser {
 
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
-                if first_empty_parser != 0 {
+                if mem::take(&mut state.first_empty_parser) != 0 {
                     CommitOk(value)
                 } else {
                     PeekOk(value)
-- 
2.43.0


From e674a1d69a5e575ee68d8263e1d30bc8d6e2fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 21/52] fix: choice over slices does not reuse the partial
 state of another alternative

---
 src/parser/choice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 72e18d4..6e27da7 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -403,6 +403,7 @@ where
             .parse_partial(input, child_state)
             .map(|x| {
                 *index_state = 0;
+                *child_state = Default::default();
                 x
             });
     }
@@ -452,7 +453,7 @@ where
                 };
             }
             ok @ CommitOk(_) | ok @ PeekOk(_) => {
-                *index_state = 0;
+                *child_state = Default::default();
                 return ok;
             }
         }
-- 
2.43.0


From 1ff72d1a2b7c904c1a758849d1dcefd04177324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 22/52] fix: tokens and tokens_cmp start over when more input
 arrives

---
 src/parser/token.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index beec2b5..458ace9 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -239,6 +239,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -266,6 +267,8 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    // All of the tokens are parsed again when there is more input
+                    ctry!(input.reset(before).committed());
                     error.set_position(start);
                     return CommitErr(error);
                 }
@@ -343,6 +346,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -369,6 +373,8 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    // All of the tokens are parsed again when there is more input
+                    ctry!(input.reset(before).committed());
                     error.set_position(start);
                     return CommitErr(error);
                 }
-- 
2.43.0


From baeb37ca7e7196263b0c6f592ccb03bdd923b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 23/52] fix: chainr1 starts over when more input arrives

---
 src/parser/repeat.rs | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 756dd8c..2d0ead1 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1089,17 +1089,14 @@ where
 
 #[derive(Copy, Clone)]
 pub struct Chainr1<P, Op>(P, Op);
-impl<Input, P, Op> Parser<Input> for Chainr1<P, Op>
-where
-    Input: Stream,
-    P: Parser<Input>,
-    Op: Parser<Input>,
-    Op::Output: FnOnce(P::Output, P::Output) -> P::Output,
-{
-    type Output = P::Output;
-    type PartialState = ();
-    #[inline]
-    fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
+impl<P, Op> Chainr1<P, Op> {
+    fn parse_from_start<Input>(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error>
+    where
+        Input: Stream,
+        P: Parser<Input>,
+        Op: Parser<Input>,
+        Op::Output: FnOnce(P::Output, P::Output) -> P::Output,
+    {
         // FIXME FastResult
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
@@ -1133,6 +1130,30 @@ where
         }
         Ok((l, committed)).into()
     }
+}
+
+impl<Input, P, Op> Parser<Input> for Chainr1<P, Op>
+where
+    Input: Stream,
+    P: Parser<Input>,
+    Op: Parser<Input>,
+    Op::Output: FnOnce(P::Output, P::Output) -> P::Output,
+{
+    type Output = P::Output;
+    type PartialState = ();
+    #[inline]
+    fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
+        let before = input.checkpoint();
+        let result = self.parse_from_start(input);
+        if let CommitErr(_) = result {
+            if input.is_partial() {
+                // There is no state to resume from so everything must be parsed again
+                ctry!(input.reset(before).committed());
+            }
+        }
+        result
+    }
+
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
         self.0.add_error(errors)
     }
-- 
2.43.0


From 120a3eebc80e5bc3b3fecd3ba327c245df062e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 24/52] fix: escaped starts over when more input arrives

---
 src/parser/repeat.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 2d0ead1..2c42a95 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1459,17 +1459,16 @@ pub struct Escaped<P, Q, I> {
     escape: I,
     escape_parser: Q,
 }
-impl<Input, P, Q> Parser<Input> for Escaped<P, Q, Input::Token>
+impl<P, Q, T> Escaped<P, Q, T>
 where
-    Input: Stream,
-    P: Parser<Input>,
-    <Input as StreamOnce>::Token: PartialEq,
-    Q: Parser<Input>,
+    T: PartialEq,
 {
-    type Output = ();
-    type PartialState = EscapedState<P::PartialState, Q::PartialState>;
-
-    fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+    fn parse_from_start<Input>(&mut self, input: &mut Input) -> ParseResult<(), Input::Error>
+    where
+        Input: Stream<Token = T>,
+        P: Parser<Input>,
+        Q: Parser<Input>,
+    {
         let mut committed = Commit::Peek(());
         loop {
             let checkpoint = input.checkpoint();
@@ -1512,6 +1511,29 @@ where
             }
         }
     }
+}
+
+impl<Input, P, Q> Parser<Input> for Escaped<P, Q, Input::Token>
+where
+    Input: Stream,
+    P: Parser<Input>,
+    <Input as StreamOnce>::Token: PartialEq,
+    Q: Parser<Input>,
+{
+    type Output = ();
+    type PartialState = EscapedState<P::PartialState, Q::PartialState>;
+
+    fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
+        let before = input.checkpoint();
+        let result = self.parse_from_start(input);
+        if let CommitErr(_) = result {
+            if input.is_partial() {
+                // There is no state to resume from so everything must be parsed again
+                ctry!(input.reset(before).committed());
+            }
+        }
+        result
+    }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
         use crate::error;
-- 
2.43.0


From 669f2e706b9f283acd845d884dd7031b04a4eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 25/52] fix: parser! without partial state starts over when
 more input arrives

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..5f0ba94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,19 @@ macro_rules! combine_parse_partial {
         let _ = $state;
         let mut state = Default::default();
         let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        let before = $crate::stream::ResetStream::checkpoint($input);
+        match $parser.parse_mode($mode, $input, state) {
+            $crate::error::ParseResult::CommitErr(err) => {
+                if $crate::stream::StreamOnce::is_partial($input) {
+                    // `state` is lost so everything must be parsed again
+                    if let Err(err) = $crate::stream::ResetStream::reset($input, before) {
+                        return $crate::error::ParseResult::CommitErr(err);
+                    }
+                }
+                $crate::error::ParseResult::CommitErr(err)
+            }
+            result => result,
+        }
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
-- 
2.43.0


From 02a3ae919118ba82886d0e6fc5846b0d3c9e423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 26/52] fix: take_until_range starts over after a failure

---
 src/parser/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 9c07fdd..5a5d53c 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -502,10 +502,14 @@ where
 
                         // Reset the stream
                         ctry!(input.reset(before).committed());
-                        *to_consume = first_error_distance;
 
                         // Return the original error if uncons failed
-                        return wrap_stream_error(input, first_error);
+                        let result = wrap_stream_error(input, first_error);
+                        *to_consume = match result {
+                            CommitErr(_) => first_error_distance,
+                            _ => 0,
+                        };
+                        return result;
                     }
                 }
             };
-- 
2.43.0


From 483fb040cae33004bf6aecc9847e0e7e17c4dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 27/52] fix: take_fn continues its search where it stopped, not
 in the middle of what it has already searched

---
 src/parser/range.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 5a5d53c..de1a6f7 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -591,8 +591,9 @@ where
 
         if mode.is_first() {
             *offset = 0;
-        } else {
-            let _ = input.uncons_range(*offset);
+        } else if input.uncons_range(*offset).is_err() {
+            // `offset` is not on a character boundary, search from the start instead
+            *offset = 0;
         }
 
         match (self.searcher)(input.range()).into() {
@@ -605,8 +606,6 @@ where
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = next_offset;
-
                 let range = input.range();
                 let _ = input.uncons_range(range.len());
                 let position = input.position();
@@ -614,8 +613,10 @@ where
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
                 if !input.is_partial() && range.is_empty() {
+                    *offset = 0;
                     PeekErr(err.into())
                 } else {
+                    *offset += next_offset;
                     CommitErr(err)
                 }
             }
-- 
2.43.0


From 606666f95756e39050bfd620b1b3ae14dc7d7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 28/52] fix: take_while and take_while1 start over after
 completing on the last part of the input

---
 src/parser/range.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index de1a6f7..46531b0 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -114,6 +114,7 @@ where
     let before = input.checkpoint();
 
     if !input.is_partial() {
+        *distance_state = 0;
         first(input, state)
     } else if mode.is_first() || *distance_state == 0 {
         let result = first(input, state);
-- 
2.43.0


From a840135e5096e921129f93a4d143467a9d4239b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 29/52] fix: an index position counts the characters of a
 string range, not its bytes

---
 src/stream/mod.rs      | 14 ++++++++++++++
 src/stream/position.rs |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index da0ad56..6cc5804 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -385,6 +385,11 @@ pub trait Range {
     /// The returned length need not be the same as the number of items left in the stream.
     fn len(&self) -> usize;
 
+    /// Returns the number of tokens in the range. Must be overridden if `len` does not count tokens.
+    fn token_count(&self) -> usize {
+        self.len()
+    }
+
     /// Returns `true` if the range does not contain any elements (`Range::len() == 0`)
     fn is_empty(&self) -> bool {
         self.len() == 0
@@ -478,6 +483,10 @@ where
     fn len(&self) -> usize {
         (**self).len()
     }
+
+    fn token_count(&self) -> usize {
+        (**self).token_count()
+    }
 }
 
 impl<'a> StreamOnce for &'a str {
@@ -608,6 +617,11 @@ impl<'a> Range for &'a str {
     fn len(&self) -> usize {
         str::len(self)
     }
+
+    #[inline]
+    fn token_count(&self) -> usize {
+        self.chars().count()
+    }
 }
 
 impl<'a, T> Range for &'a [T] {
diff --git a/src/stream/position.rs b/src/stream/position.rs
index 63224a0..6308d46 100644
--- a/src/stream/position.rs
+++ b/src/stream/position.rs
@@ -241,7 +241,7 @@ where
     Range: Clone + crate::stream::Range,
 {
     fn update_range(&mut self, range: &Range) {
-        self.0 += range.len()
+        self.0 += range.token_count()
     }
 }
 
-- 
2.43.0


From c06967906d7611b558699f4aed993df8f60cc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 30/52] fix: decode_futures_03! can be called without an input
 stream like the other decoders

---
 src/stream/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index 6cc5804..b53eaca 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1520,11 +1520,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From cb5eb01e0a82b57f87870be1d0f744c0000e836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 31/52] fix: the blocking decoder can be used without its own
 buffer

---
 src/stream/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index ad034f8..07ca2a4 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -139,12 +139,12 @@ where
     C: ,
 {
     #[doc(hidden)]
-    pub fn __before_parse<R>(&mut self, mut reader: R) -> io::Result<()>
+    pub fn __before_parse<R>(&mut self, reader: &mut R) -> io::Result<()>
     where
         R: Read,
         C: crate::stream::buf_reader::CombineSyncRead<R>,
     {
-        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
+        if self.buffer.extend_buf_sync(reader)? == 0 {
             self.end_of_input = true;
         }
 
-- 
2.43.0


From 9f30fd508f2902aab4fd5c19358b8eeb07a2a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 32/52] fix: decode_futures_03! can be used without the
 decoder's own buffer

---
 src/stream/decoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stream/decoder.rs b/src/stream/decoder.rs
index 07ca2a4..c073985 100644
--- a/src/stream/decoder.rs
+++ b/src/stream/decoder.rs
@@ -214,7 +214,6 @@ impl<S, P, C> Decoder<S, P, C> {
     #[doc(hidden)]
     pub async fn __before_parse_async<R>(&mut self, reader: Pin<&mut R>) -> io::Result<()>
     where
-        R: futures_io_03::AsyncRead,
         C: crate::stream::buf_reader::CombineAsyncRead<R>,
     {
         let copied = self.buffer.extend_buf(reader).await?;
-- 
2.43.0


From 095dd7bb10e61a412bbb7fc94c2e3efe8ff76533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 33/52] fix: range with an empty literal does not commit

---
 src/parser/range.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46531b0..1f1c223 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -51,7 +51,11 @@ where
         match input.uncons_range(self.0.len()) {
             Ok(other) => {
                 if other == self.0 {
-                    CommitOk(other)
+                    if other.is_empty() {
+                        PeekOk(other)
+                    } else {
+                        CommitOk(other)
+                    }
                 } else {
                     PeekErr(Input::Error::empty(position).into())
                 }
-- 
2.43.0


From ba05d808b5bcb192a0f80269ec4a3a8367835bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 34/52] fix: tokens, string and bytes name what they expect
 also when failing midway

---
 src/parser/byte.rs  | 6 ++----
 src/parser/char.rs  | 4 ++--
 src/parser/token.rs | 1 +
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser/byte.rs b/src/parser/byte.rs
index 4132912..f349517 100644
--- a/src/parser/byte.rs
+++ b/src/parser/byte.rs
@@ -6,7 +6,7 @@ use crate::{
         combinator::no_partial,
         range::{take_fn, TakeRange},
         repeat::skip_many,
-        token::{satisfy, token, tokens_cmp, Token},
+        token::{satisfy, token, tokens, Token},
     },
     stream::{RangeStream, Stream},
     Parser,
@@ -282,9 +282,7 @@ where [
 ]
 {
     let s = *s;
-    tokens_cmp(s.iter().cloned(), cmp)
-        .map(move |_| s)
-        .expected(error::Range(s))
+    tokens(cmp, error::Range(s), s.iter().cloned()).map(move |_| s)
 }
 }
 
diff --git a/src/parser/char.rs b/src/parser/char.rs
index 0f673c0..305b477 100644
--- a/src/parser/char.rs
+++ b/src/parser/char.rs
@@ -4,7 +4,7 @@ use crate::{
     parser::{
         combinator::no_partial,
         repeat::skip_many,
-        token::{satisfy, token, tokens_cmp, Token},
+        token::{satisfy, token, tokens, Token},
     },
     stream::Stream,
     Parser,
@@ -269,7 +269,7 @@ where
     C: FnMut(char, char) -> bool,
     Input: Stream<Token = char>,
 {
-    tokens_cmp(s.chars(), cmp).map(move |_| s).expected(s)
+    tokens(cmp, s, s.chars()).map(move |_| s)
 }
 
 #[cfg(all(feature = "std", test))]
diff --git a/src/parser/token.rs b/src/parser/token.rs
index 458ace9..18aa103 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -261,6 +261,7 @@ where
                 PeekErr(mut error) => {
                     error.error.set_position(start);
                     return if committed {
+                        error.error.add_expected(&self.expected);
                         CommitErr(error.error)
                     } else {
                         PeekErr(error)
-- 
2.43.0


From 166ff25a2e31c88a3339e9586e57e74687f47a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 35/52] fix: converting a message of an easy error gives a
 message again

---
 src/stream/easy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..596f461 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -302,10 +302,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -402,10 +402,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
-- 
2.43.0


From 9c40338105446b82a85ebb09d8b995edd1b47bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 36/52] fix: converting easy errors keeps every error, not only
 the last

---
 src/stream/easy.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 596f461..21bf737 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -487,14 +487,15 @@ where
     }
 
     #[inline]
-    fn into_other<T>(mut self) -> T
+    fn into_other<T>(self) -> T
     where
         T: crate::error::ParseError<Item, Range, Position>,
     {
-        match self.errors.pop() {
-            Some(err) => T::from_error(self.position, StreamError::into_other(err)),
-            None => T::empty(self.position),
+        let mut error = T::empty(self.position);
+        for err in self.errors {
+            error.add(StreamError::into_other(err));
         }
+        error
     }
 }
 
-- 
2.43.0


From a5b267676ab2aca763651ba36b3a2114b045ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 37/52] fix: converting a character boundary error keeps what
 it is

---
 src/error.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5670b25..7da6fbc 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -830,12 +830,13 @@ impl<Item, Range> StreamError<Item, Range> for StringStreamError {
     where
         T: StreamError<Item, Range>,
     {
-        let msg = match self {
-            StringStreamError::CharacterBoundary => CHAR_BOUNDARY_ERROR_MESSAGE,
-            StringStreamError::UnexpectedParse => "parse",
-            StringStreamError::Eoi => return T::end_of_input(),
-        };
-        T::unexpected_static_message(msg)
+        match self {
+            StringStreamError::CharacterBoundary => {
+                T::message_static_message(CHAR_BOUNDARY_ERROR_MESSAGE)
+            }
+            StringStreamError::UnexpectedParse => T::unexpected_static_message("parse"),
+            StringStreamError::Eoi => T::end_of_input(),
+        }
     }
 }
 impl<Item, Range, Position> ParseError<Item, Range, Position> for StringStreamError
-- 
2.43.0


From a32fe7e8238a389ac6808f5f2364633d5801eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 38/52] fix: the position of a read error can be asked for

---
 src/stream/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream/read.rs b/src/stream/read.rs
index 6fa13b0..b2ab5d8 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -121,6 +121,11 @@ where
         err
     }
 
+    #[inline]
+    fn position(&self) -> Position {
+        Position::default()
+    }
+
     #[inline]
     fn set_position(&mut self, _position: Position) {}
 
-- 
2.43.0


From ec1a7ab53a42e99c4bcf369224e00400edadd060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 39/52] fix: an I/O error of a read stream is not replaced by
 what is added to it

---
 src/stream/read.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stream/read.rs b/src/stream/read.rs
index b2ab5d8..115c2ed 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -131,10 +131,11 @@ where
 
     #[inline]
     fn add(&mut self, err: Self::StreamError) {
-        *self = match (&*self, err) {
-            (Error::EndOfInput, _) => Error::EndOfInput,
-            (_, err) => err,
-        };
+        match self {
+            // What is added later only tells more about the same failure
+            Error::EndOfInput | Error::Io(_) => (),
+            Error::Unexpected => *self = err,
+        }
     }
 
     #[inline]
-- 
2.43.0


From 6d312923f1190d54fec5e46354be98b20d847a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 40/52] fix: converting an end of input of an easy error gives
 an end of input again

---
 src/stream/easy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 21bf737..77a1eb3 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -193,6 +193,8 @@ impl<R> From<u8> for Info<u8, R> {
     }
 }
 
+const END_OF_INPUT: &str = "end of input";
+
 /// Enum used to store information about an error that has occurred during parsing.
 #[derive(Debug)]
 pub enum Error<T, R> {
@@ -290,6 +292,8 @@ where
     {
         match self {
             Error::Unexpected(info) => match info {
+                Info::Static(x) if x == END_OF_INPUT => T::end_of_input(),
+                Info::Owned(ref x) if x == END_OF_INPUT => T::end_of_input(),
                 Info::Token(x) => T::unexpected_token(x),
                 Info::Range(x) => T::unexpected_range(x),
                 Info::Static(x) => T::unexpected_static_message(x),
@@ -390,6 +394,8 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
     {
         match self {
             Error::Unexpected(info) => match info {
+                Info::Static(x) if x == END_OF_INPUT => T::end_of_input(),
+                Info::Owned(ref x) if x == END_OF_INPUT => T::end_of_input(),
                 Info::Token(x) => T::unexpected_token(x.into()),
                 Info::Range(x) => T::unexpected_range(x.into()),
                 Info::Static(x) => T::unexpected_static_message(x),
@@ -552,7 +558,7 @@ where
 impl<T, R> Error<T, R> {
     /// Returns the `end_of_input` error.
     pub fn end_of_input() -> Error<T, R> {
-        Error::Unexpected("end of input".into())
+        Error::Unexpected(END_OF_INPUT.into())
     }
 
     /// Formats a slice of errors in a human readable way.
-- 
2.43.0


From 0ebfdd4352368ff564c19f716841fb1ae5a51c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 41/52] fix: document that space also parses a form feed

---
 src/parser/byte.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/byte.rs b/src/parser/byte.rs
index f349517..9fa1521 100644
--- a/src/parser/byte.rs
+++ b/src/parser/byte.rs
@@ -54,7 +54,7 @@ where
     byte_parser!(digit, Digit, is_ascii_digit())
 }
 
-/// Parses a `b' '`, `b'\t'`, `b'\n'` or `'b\'r'`.
+/// Parses an ASCII whitespace byte: `b' '`, `b'\t'`, `b'\n'`, `b'\r'` or a form feed (`b'\x0C'`).
 ///
 /// ```
 /// use combine::Parser;
-- 
2.43.0


From 0938a59edc898a05d6a13ee9e1996d7dbd8e1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 42/52] fix: expected keeps the end of input or I/O error of a
 cheap error type

---
 src/error.rs       | 6 ++++--
 src/stream/read.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7da6fbc..234eed1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -685,7 +685,8 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        // The cause of the failure is kept, as in `add`
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
@@ -874,7 +875,8 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        // The cause of the failure is kept, as in `add`
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
diff --git a/src/stream/read.rs b/src/stream/read.rs
index 115c2ed..c7a61c6 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -144,7 +144,8 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        // The cause of the failure is kept, as in `add`
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From 09220a4f9e1866ede57494506d2e500d5a45c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 43/52] fix: factory makes a new parser for each parse also
 with a fresh partial state

---
 src/parser/combinator.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 9cb45f0..e4b1389 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1169,7 +1169,7 @@ where
     R: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = R::PartialState;
+    type PartialState = (bool, R::PartialState);
 
     parse_mode!(Input);
 
@@ -1182,12 +1182,18 @@ where
     where
         M: ParseMode,
     {
+        let (suspended, child_state) = state;
         // Always ask for a new parser except if we are in a partial call being resumed as we want
         // to resume the same parser then
-        if mode.is_first() {
+        if mode.is_first() || !*suspended {
             self.1 = None;
+            *child_state = Default::default();
         }
-        self.parser(input).parse_mode_impl(mode, input, state)
+        let result = self
+            .parser(input)
+            .parse_mode_impl(mode, input, child_state);
+        *suspended = matches!(result, CommitErr(_));
+        result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From cfc3c234c0503f251df5d44df8f17317a9e71cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 44/52] fix: the count of parsers in nested sequences does not
 overflow

---
 src/parser/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 50fa635..be70c07 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -251,7 +251,7 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                ErrorOffset($h.parser_count().0 $( .saturating_add($id.parser_count().0))*)
             }
 
             #[inline]
-- 
2.43.0


From 034af3dc807d9d6cf726699151075c32cc4689df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 45/52] fix: errors of nested sequences name the parser that
 failed and none behind it

---
 src/parser/sequence.rs | 99 +++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 49 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index be70c07..278076f 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -14,12 +14,6 @@ use crate::{
     ErrorOffset, Parser, Stream, StreamOnce,
 };
 
-macro_rules! count {
-    () => { 0 };
-    ($f: ident) => { 1 };
-    ($f: ident, $($rest: ident),+) => { 1 + count!($($rest),*) };
-}
-
 #[doc(hidden)]
 pub struct SequenceState<T, U> {
     pub value: Option<T>,
@@ -62,22 +56,28 @@ fn add_sequence_error<Input>(
 where
     Input: Stream,
 {
+    let remaining = err.offset;
     if *i + 1 == first_empty_parser {
         Parser::add_committed_expected_error(parser, err);
     }
     if *i >= first_empty_parser {
-        if err.offset <= ErrorOffset(1) {
+        if remaining <= ErrorOffset(1) {
             // We reached the last parser we need to add errors to (and the
             // parser that actually returned the error), use the returned
             // offset for that parser.
             err.offset = inner_offset;
-        }
-        Parser::add_error(parser, err);
-        if err.offset <= ErrorOffset(1) {
+            Parser::add_error(parser, err);
             return false;
         }
+        err.offset = remaining;
+        Parser::add_error(parser, err);
     }
-    err.offset = ErrorOffset(err.offset.0.saturating_sub(Parser::parser_count(parser).0));
+    err.offset = ErrorOffset(
+        remaining
+            .0
+            .saturating_sub(Parser::parser_count(parser).0)
+            .max(1),
+    );
 
     *i += 1;
     true
@@ -116,27 +116,34 @@ macro_rules! tuple_parser {
                       $($id: Parser<Input>),*
             {
                 let inner_offset = err.offset;
-                err.offset = ErrorOffset(offset);
                 if first_empty_parser != 0 {
                     if let Ok(t) = input.uncons() {
                         err.error.add(StreamError::unexpected_token(t));
                     }
+                } else if inner_offset != ErrorOffset(0) {
+                    // The errors are added later, starting from the first parser of the sequence
+                    err.offset = ErrorOffset(offset.saturating_add(inner_offset.0 - 1));
+                    return PeekErr(err);
+                }
 
-                    #[allow(unused_assignments)]
-                    let mut i = 0;
-                    loop {
-                        if !add_sequence_error(&mut i, first_empty_parser, inner_offset, &mut err, $h) {
-                            break;
-                        }
-                        $(
-                        if !add_sequence_error(&mut i, first_empty_parser, inner_offset, &mut err, $id) {
-                            break;
-                        }
-                        )*
+                err.offset = ErrorOffset(offset);
+                #[allow(unused_assignments)]
+                let mut i = 0;
+                loop {
+                    if !add_sequence_error(&mut i, first_empty_parser, inner_offset, &mut err, $h) {
+                        break;
+                    }
+                    $(
+                    if !add_sequence_error(&mut i, first_empty_parser, inner_offset, &mut err, $id) {
                         break;
                     }
+                    )*
+                    break;
+                }
+                if first_empty_parser != 0 {
                     CommitErr(err.error)
                 } else {
+                    err.offset = ErrorOffset(0);
                     PeekErr(err)
                 }
             }
@@ -255,40 +262,34 @@ macro_rules! tuple_parser {
             }
 
             #[inline]
+            #[allow(unused_mut)]
             fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let prev = errors.offset;
-                $h.add_error(errors);
-                if errors.offset <= ErrorOffset(1) {
-                    errors.offset = ErrorOffset(
-                        errors.offset.0.saturating_sub(1)
-                    );
+                let offset = errors.offset;
+                let mut before = offset.0;
+                if before == 0 {
+                    // All errors have already been added
                     return;
                 }
-                if errors.offset == prev {
-                    errors.offset = ErrorOffset(errors.offset.0.saturating_sub($h.parser_count().0));
-                }
-
-                #[allow(dead_code)]
-                const LAST: usize = count!($($id),*);
-                #[allow(unused_mut, unused_variables)]
-                let mut i = 0;
+                $h.add_error(errors);
+                let mut remaining = before.saturating_sub($h.parser_count().0);
                 $(
-                    i += 1;
-                    let prev = errors.offset;
-                    $id.add_error(errors);
-                    if errors.offset <= ErrorOffset(1) {
-                        errors.offset = ErrorOffset(
-                            errors.offset.0.saturating_sub(1)
-                        );
+                    if remaining == 0 || errors.offset.0 == 0 {
+                        // The error came from the previous parser
+                        errors.offset = ErrorOffset(0);
                         return;
                     }
-                    if i != LAST && errors.offset == prev {
-                        errors.offset = ErrorOffset(
-                            errors.offset.0.saturating_sub($id.parser_count().0)
-                        );
-                    }
+                    before = remaining;
+                    errors.offset = ErrorOffset(remaining);
+                    $id.add_error(errors);
+                    remaining = before.saturating_sub($id.parser_count().0);
                 )*
+                // A choice at the end of the sequence uses up the rest of the offset
+                if remaining == 0 || (before == 2 && errors.offset.0 == 1) {
+                    errors.offset = ErrorOffset(0);
+                } else {
+                    errors.offset = offset;
+                }
             }
 
             fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From 4253bbb2d825a04eef611cb70a2d50b1ffad76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 46/52] fix: expected replaces every expectation of a parser
 which failed without committing

---
 src/parser/error.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 4ef6af1..c1b0d73 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -171,7 +171,14 @@ where
     where
         M: ParseMode,
     {
-        self.0.parse_mode(mode, input, state)
+        match self.0.parse_mode(mode, input, state) {
+            // What was expected so far is replaced in `add_error`
+            PeekErr(mut err) => {
+                err.error.clear_expected();
+                PeekErr(err)
+            }
+            result => result,
+        }
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From d664c33d01f10ffbe5c5b683686c147049ee446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 47/52] fix: parsers which forward the errors of a sequence
 also forward its length

---
 src/parser/choice.rs | 16 ++++++++++++++++
 src/parser/range.rs  |  4 +---
 src/parser/repeat.rs | 30 +++++++++++++++---------------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 6e27da7..4dce743 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -785,6 +785,22 @@ macro_rules! dispatch_parser_impl {
                     )*
                 }
             }
+
+            fn add_committed_expected_error(&mut self, error: &mut $crate::error::Tracked<<Input as $crate::StreamOnce>::Error>) {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.add_committed_expected_error(error),
+                    )*
+                }
+            }
+
+            fn parser_count(&self) -> $crate::ErrorOffset {
+                match self {
+                    $(
+                    $parser_name::$id($id) => $id.parser_count(),
+                    )*
+                }
+            }
         }
     }
 }
diff --git a/src/parser/range.rs b/src/parser/range.rs
index 1f1c223..7f683fe 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -198,9 +198,7 @@ where
             (range, value)
         })
     }
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Zero-copy parser which returns a pair: (committed input range, parsed value).
diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 2c42a95..ea603ae 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -165,9 +165,7 @@ where
         result
     }
 
-    fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.parser.add_error(error)
-    }
+    forward_parser!(Input, add_error parser_count, parser);
 }
 
 /// Parses `parser` from `min` to `max` times (including `min` and `max`).
@@ -422,6 +420,8 @@ where
     }
 
     fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        // Every parser in `parser` may have been tried again
+        errors.offset = ErrorOffset(self.0.parser_count().0.saturating_add(1));
         self.add_error(errors);
     }
 
@@ -513,6 +513,8 @@ where
     }
 
     fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        // Every parser in `parser` may have been tried again
+        errors.offset = ErrorOffset(self.0.parser_count().0.saturating_add(1));
         self.add_error(errors);
     }
 
@@ -658,6 +660,8 @@ where
     }
 
     fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        // Every parser in the separator may have been tried
+        errors.offset = ErrorOffset(self.separator.parser_count().0.saturating_add(1));
         self.separator.add_error(errors)
     }
 
@@ -762,6 +766,8 @@ where
     }
 
     fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
+        // Every parser in the separator may have been tried
+        errors.offset = ErrorOffset(self.separator.parser_count().0.saturating_add(1));
         self.separator.add_error(errors)
     }
 
@@ -846,9 +852,7 @@ where
             .parse_mode(mode, input, state)
     }
 
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.parser.add_error(errors)
-    }
+    forward_parser!(Input, add_error parser_count, parser);
 }
 
 /// Parses `parser` zero or more times separated and ended by `separator`, returning a collection
@@ -950,9 +954,7 @@ where
         })
     }
 
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.parser.add_error(errors)
-    }
+    forward_parser!(Input, add_error parser_count, parser);
 }
 
 /// Parses `parser` one or more times separated and ended by `separator`, returning a collection
@@ -1058,9 +1060,7 @@ where
         Ok((l, committed)).into()
     }
 
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+    forward_parser!(Input, add_error parser_count, 0);
 }
 
 /// Parses `p` 1 or more times separated by `op`. The value returned is the one produced by the
@@ -1154,9 +1154,7 @@ where
         result
     }
 
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+    forward_parser!(Input, add_error parser_count, 0);
 }
 
 /// Parses `p` one or more times separated by `op`. The value returned is the one produced by the
@@ -1542,6 +1540,8 @@ where
 
         errors.error.add_expected(error::Token(self.escape.clone()));
     }
+
+    forward_parser!(Input, parser_count, parser);
 }
 
 /// Parses an escaped string by first applying `parser` which accept the normal characters which do
-- 
2.43.0


From 4240363ce0abef6cb1a286799de3345492b4607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 48/52] fix: lazy, opaque, factory, then, either and parser!
 keep the errors of the parsers around them

---
 src/lib.rs               | 14 +++++----
 src/parser/combinator.rs | 62 ++++++++++++++++++++++++++++------------
 src/parser/mod.rs        | 47 ++++++++++++++++++++++++++++++
 src/parser/sequence.rs   | 42 ++++++++++++++++++++-------
 4 files changed, 130 insertions(+), 35 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f0ba94..0658b61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,7 +406,9 @@ macro_rules! combine_parse_partial {
         let mut state = Default::default();
         let state = &mut state;
         let before = $crate::stream::ResetStream::checkpoint($input);
-        match $parser.parse_mode($mode, $input, state) {
+        let mut parser = $parser;
+        let result = parser.parse_mode($mode, $input, state);
+        match $crate::parser::single_parser_result(&mut parser, result) {
             $crate::error::ParseResult::CommitErr(err) => {
                 if $crate::stream::StreamOnce::is_partial($input) {
                     // `state` is lost so everything must be parsed again
@@ -419,9 +421,11 @@ macro_rules! combine_parse_partial {
             result => result,
         }
     }};
-    (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
-        $parser.parse_mode($mode, $input, $state)
-    };
+    (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {{
+        let mut parser = $parser;
+        let result = parser.parse_mode($mode, $input, $state);
+        $crate::parser::single_parser_result(&mut parser, result)
+    }};
 }
 
 #[doc(hidden)]
@@ -495,7 +499,7 @@ macro_rules! combine_parser_impl {
                 {
                     let _: &mut dyn $crate::Parser< $input_type, Output = $output_type, PartialState = _> = &mut parser;
                 }
-                parser.add_error(errors)
+                $crate::parser::add_single_parser_error(&mut parser, errors)
             }
 
             fn add_committed_expected_error(
diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index e4b1389..733ca85 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -7,9 +7,9 @@ use crate::{
         ResultExt, StreamError, Tracked,
     },
     lib::{fmt, marker::PhantomData, mem, str},
-    parser::ParseMode,
+    parser::{add_single_parser_error, single_parser_result, ParseMode},
     stream::{input_at_eof, span::Span, uncons, ResetStream, Stream, StreamErrorFor, StreamOnce},
-    Parser,
+    ErrorOffset, Parser,
 };
 
 #[cfg(feature = "alloc")]
@@ -550,10 +550,7 @@ where
         Self::recognize_result(elements, before, input, result)
     }
 
-    #[inline]
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Constructs a parser which returns the tokens parsed by `parser` accumulated in
@@ -655,6 +652,25 @@ where
             Either::Right(ref mut x) => x.add_error(error),
         }
     }
+
+    #[inline]
+    fn add_committed_expected_error(
+        &mut self,
+        error: &mut Tracked<<Input as StreamOnce>::Error>,
+    ) {
+        match *self {
+            Either::Left(ref mut x) => x.add_committed_expected_error(error),
+            Either::Right(ref mut x) => x.add_committed_expected_error(error),
+        }
+    }
+
+    #[inline]
+    fn parser_count(&self) -> ErrorOffset {
+        match *self {
+            Either::Left(ref x) => x.parser_count(),
+            Either::Right(ref x) => x.parser_count(),
+        }
+    }
 }
 
 pub struct NoPartial<P>(P);
@@ -1091,7 +1107,9 @@ where
     }
 
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
-        (self.0)().parse_lazy(input)
+        let mut parser = (self.0)();
+        let result = parser.parse_lazy(input);
+        single_parser_result(&mut parser, result)
     }
 
     parse_mode!(Input);
@@ -1105,7 +1123,7 @@ where
     where
         M: ParseMode,
     {
-        (self.0)().parse_mode(mode, input, state)
+        (self.0)().parse_committed_mode(mode, input, state)
     }
 
     fn parse_mode_impl<M>(
@@ -1117,11 +1135,13 @@ where
     where
         M: ParseMode,
     {
-        (self.0)().parse_mode_impl(mode, input, state)
+        let mut parser = (self.0)();
+        let result = parser.parse_mode_impl(mode, input, state);
+        single_parser_result(&mut parser, result)
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        (self.0)().add_error(errors);
+        add_single_parser_error(&mut (self.0)(), errors);
     }
 
     fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -1189,16 +1209,16 @@ where
             self.1 = None;
             *child_state = Default::default();
         }
-        let result = self
-            .parser(input)
-            .parse_mode_impl(mode, input, child_state);
+        let parser = self.parser(input);
+        let result = parser.parse_mode_impl(mode, input, child_state);
+        let result = single_parser_result(parser, result);
         *suspended = matches!(result, CommitErr(_));
         result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
         if let Some(parser) = &mut self.1 {
-            parser.add_error(errors);
+            add_single_parser_error(parser, errors);
         }
     }
 
@@ -1362,7 +1382,10 @@ where
 
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
         let mut x = None;
-        (self.0)(&mut |parser| x = Some(parser.parse_lazy(input)));
+        (self.0)(&mut |parser| {
+            let result = parser.parse_lazy(input);
+            x = Some(single_parser_result(parser, result))
+        });
         x.expect("Parser")
     }
 
@@ -1379,17 +1402,18 @@ where
     {
         let mut x = None;
         (self.0)(&mut |parser| {
-            x = Some(if mode.is_first() {
+            let result = if mode.is_first() {
                 parser.parse_first(input, state)
             } else {
                 parser.parse_partial(input, state)
-            })
+            };
+            x = Some(single_parser_result(parser, result))
         });
         x.expect("Parser")
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        (self.0)(&mut |parser| parser.add_error(errors));
+        (self.0)(&mut |parser| add_single_parser_error(parser, errors));
     }
 
     fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -1601,7 +1625,7 @@ where
         })
     }
 
-    forward_parser!(Input, add_error, add_committed_expected_error, 0);
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Equivalent to [`p.spanned()`].
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 831ccde..5c33cde 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -1100,6 +1100,53 @@ where
     forward_deref!(Input);
 }
 
+/// Internal API. May break without a semver bump
+///
+/// Used by parsers which create `parser` anew when its errors are added (and therefore count as a
+/// single parser). If `parser` failed after some of the parsers it contains succeeded without
+/// committing then the errors must be added now as that can't be told from the offset later.
+#[doc(hidden)]
+pub fn single_parser_result<P, Input, O>(
+    parser: &mut P,
+    result: ParseResult<O, Input::Error>,
+) -> ParseResult<O, Input::Error>
+where
+    P: ?Sized + Parser<Input>,
+    Input: Stream,
+{
+    match result {
+        PeekErr(mut err) if err.offset != ErrorOffset(1) => {
+            parser.add_error(&mut err);
+            err.offset = ErrorOffset(0);
+            PeekErr(err)
+        }
+        result => result,
+    }
+}
+
+/// Internal API. May break without a semver bump
+///
+/// Adds the errors of a parser which has its result passed through `single_parser_result`.
+#[doc(hidden)]
+pub fn add_single_parser_error<P, Input>(parser: &mut P, errors: &mut Tracked<Input::Error>)
+where
+    P: ?Sized + Parser<Input>,
+    Input: Stream,
+{
+    let before = errors.offset;
+    match before.0 {
+        // The errors have already been added
+        0 => return,
+        1 => (),
+        // `parser` succeeded and a parser after it failed
+        _ => errors.offset = ErrorOffset(parser.parser_count().0.saturating_add(1)),
+    }
+    parser.add_error(errors);
+    if before != ErrorOffset(1) {
+        errors.offset = before;
+    }
+}
+
 /// Internal API. May break without a semver bump
 #[doc(hidden)]
 /// Specifies whether the parser must check for partial state that must be resumed
diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 278076f..9c9968c 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -8,8 +8,9 @@ use crate::{
     },
     lib::{marker::PhantomData, mem},
     parser::{
+        add_single_parser_error,
         combinator::{ignore, Ignore, Map},
-        ParseMode,
+        single_parser_result, ParseMode,
     },
     ErrorOffset, Parser, Stream, StreamOnce,
 };
@@ -192,7 +193,14 @@ macro_rules! tuple_parser {
                             state.first_empty_parser = current_parser + 1;
                             x
                         }
-                        PeekErr(err) => return PeekErr(err),
+                        PeekErr(mut err) => {
+                            if err.offset == ErrorOffset(0) {
+                                // `add_error` does not get to the parser
+                                $h.add_error(&mut err);
+                                err.offset = ErrorOffset(0);
+                            }
+                            return PeekErr(err);
+                        }
                         CommitErr(err) => return CommitErr(err),
                         PeekOk(x) => {
                             x
@@ -663,7 +671,7 @@ where
                 PeekOk(value) => (value, false),
                 CommitOk(value) => (value, true),
 
-                PeekErr(err) => return PeekErr(err),
+                PeekErr(err) => return single_parser_result(&mut self.0, PeekErr(err)),
                 CommitErr(err) => return CommitErr(err),
             };
 
@@ -692,12 +700,16 @@ where
                 *n_parser_cache = None;
                 CommitOk(x)
             }
-            PeekErr(x) => {
+            PeekErr(mut x) => {
                 let (committed, _) = *n_parser_cache.as_ref().unwrap();
                 *n_parser_cache = None;
                 if committed {
                     CommitErr(x.error)
                 } else {
+                    // The errors of the second parser have been added, now add those of the first
+                    x.offset = ErrorOffset(2);
+                    self.add_error(&mut x);
+                    x.offset = ErrorOffset(0);
                     PeekErr(x)
                 }
             }
@@ -706,7 +718,7 @@ where
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors);
+        add_single_parser_error(&mut self.0, errors);
     }
 }
 
@@ -758,7 +770,7 @@ where
                 CommitOk(value) => {
                     *n_parser_cache = Some((true, value));
                 }
-                PeekErr(err) => return PeekErr(err),
+                PeekErr(err) => return single_parser_result(&mut self.0, PeekErr(err)),
                 CommitErr(err) => return CommitErr(err),
             }
             // The previous parser might have been a different one
@@ -781,11 +793,15 @@ where
                 *n_parser_cache = None;
                 CommitOk(x)
             }
-            PeekErr(x) => {
+            PeekErr(mut x) => {
                 let (committed, _) = n_parser_cache.take().unwrap();
                 if committed {
                     CommitErr(x.error)
                 } else {
+                    // The errors of the second parser have been added, now add those of the first
+                    x.offset = ErrorOffset(2);
+                    self.add_error(&mut x);
+                    x.offset = ErrorOffset(0);
                     PeekErr(x)
                 }
             }
@@ -794,7 +810,7 @@ where
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors);
+        add_single_parser_error(&mut self.0, errors);
     }
 }
 
@@ -858,7 +874,7 @@ where
                 PeekOk(value) => (value, false),
                 CommitOk(value) => (value, true),
 
-                PeekErr(err) => return PeekErr(err),
+                PeekErr(err) => return single_parser_result(&mut self.0, PeekErr(err)),
                 CommitErr(err) => return CommitErr(err),
             };
 
@@ -889,12 +905,16 @@ where
                 *n_parser_cache = None;
                 CommitOk((in_value, x))
             }
-            PeekErr(x) => {
+            PeekErr(mut x) => {
                 let (committed, _, _) = n_parser_cache.take().unwrap();
                 *n_parser_cache = None;
                 if committed {
                     CommitErr(x.error)
                 } else {
+                    // The errors of the second parser have been added, now add those of the first
+                    x.offset = ErrorOffset(2);
+                    self.add_error(&mut x);
+                    x.offset = ErrorOffset(0);
                     PeekErr(x)
                 }
             }
@@ -903,7 +923,7 @@ where
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors);
+        add_single_parser_error(&mut self.0, errors);
     }
 }
 
-- 
2.43.0


From b5398fb98caa34bee93d7a6773450143c7e0aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 49/52] fix: choice keeps the expectations of all its
 alternatives at the position they failed

---
 src/parser/choice.rs | 89 +++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 51 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 4dce743..07cbf38 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -146,21 +146,22 @@ macro_rules! do_choice {
         ( )
         $($parser: ident $error: ident)+
     ) => { {
-        let mut error = Tracked::from(merge!($($error)+));
         // If offset != 1 then the nested parser is a sequence of parsers where 1 or
         // more parsers returned `PeekOk` before the parser finally failed with
         // `PeekErr`. Since we lose the offsets of the nested parsers when we merge
-        // the errors we must first extract the errors before we do the merge.
-        // If the offset == 0 on the other hand (which should be the common case) then
-        // we can delay the addition of the error since we know for certain that only
-        // the first parser in the sequence were tried
-        $(
-            if $error.offset != ErrorOffset(1) {
-                error.offset = $error.offset;
-                $parser.add_error(&mut error);
-                error.offset = ErrorOffset(0);
-            }
-        )+
+        // the errors we must first add the errors of those parsers.
+        // If the offset == 1 for all of them on the other hand (which should be the common
+        // case) then we can delay the addition of the errors since we know for certain that
+        // only the first parser in each sequence were tried
+        let mut offset = ErrorOffset(1);
+        if $( $error.offset != ErrorOffset(1) )||+ {
+            $( $parser.add_error(&mut $error); )+
+            offset = ErrorOffset(0);
+        }
+        let error = Tracked {
+            error: merge!($($error)+),
+            offset,
+        };
         PeekErr(error)
     } };
     (
@@ -186,7 +187,7 @@ macro_rules! do_choice {
                 }
                 CommitErr(err)
             }
-            PeekErr($head) => {
+            PeekErr(mut $head) => {
                 ctry!($input.reset($before.clone()).committed());
                 do_choice!(
                     $input
@@ -393,8 +394,8 @@ where
     Input: Stream,
     M: ParseMode,
 {
-    let mut prev_err = None;
-    let mut last_parser_having_non_1_offset = 0;
+    let mut prev_err: Option<Tracked<Input::Error>> = None;
+    let mut added_errors = false;
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
@@ -425,32 +426,31 @@ where
                 }
                 return committed_err;
             }
-            PeekErr(err) => {
+            PeekErr(mut err) => {
                 // The state is shared between the parsers
                 *child_state = Default::default();
-                prev_err = match prev_err {
-                    None => Some(err),
-                    Some(mut prev_err) => {
-                        if prev_err.offset != ErrorOffset(1) {
-                            // First add the errors of all the preceding parsers which did not
-                            // have a sequence of parsers returning `PeekOk` before failing
-                            // with `PeekErr`.
-                            let offset = prev_err.offset;
-                            for p in &mut self_[last_parser_having_non_1_offset..(i - 1)] {
-                                prev_err.offset = ErrorOffset(1);
-                                p.add_error(&mut prev_err);
-                            }
-                            // Then add the errors if the current parser
-                            prev_err.offset = offset;
-                            self_[i - 1].add_error(&mut prev_err);
-                            last_parser_having_non_1_offset = i;
+                if added_errors || err.offset != ErrorOffset(1) {
+                    // `self_[i]` is a sequence of parsers where 1 or more parsers returned
+                    // `PeekOk` before failing with `PeekErr`. Since the offset is lost when the
+                    // errors are merged its errors must be added now and so must those of all
+                    // the other parsers.
+                    if let (false, Some(prev_err)) = (added_errors, &mut prev_err) {
+                        for p in &mut self_[..i] {
+                            prev_err.offset = ErrorOffset(1);
+                            p.add_error(prev_err);
                         }
-                        Some(Tracked {
-                            error: prev_err.error.merge(err.error),
-                            offset: err.offset,
-                        })
                     }
-                };
+                    self_[i].add_error(&mut err);
+                    err.offset = ErrorOffset(0);
+                    added_errors = true;
+                }
+                prev_err = Some(match prev_err {
+                    None => err,
+                    Some(prev_err) => Tracked {
+                        error: prev_err.error.merge(err.error),
+                        offset: err.offset,
+                    },
+                });
             }
             ok @ CommitOk(_) | ok @ PeekOk(_) => {
                 *child_state = Default::default();
@@ -464,20 +464,7 @@ where
             StreamError::message_static_message("parser choice is empty"),
         )
         .into(),
-        Some(mut prev_err) => {
-            if prev_err.offset != ErrorOffset(1) {
-                let offset = prev_err.offset;
-                let len = self_.len();
-                for p in &mut self_[last_parser_having_non_1_offset..(len - 1)] {
-                    prev_err.offset = ErrorOffset(1);
-                    p.add_error(&mut prev_err);
-                }
-                prev_err.offset = offset;
-                self_.last_mut().unwrap().add_error(&mut prev_err);
-                prev_err.offset = ErrorOffset(0);
-            }
-            prev_err
-        }
+        Some(prev_err) => prev_err,
     })
 }
 
-- 
2.43.0


From 018c0c4ff42611acbd9eb5db778c98b0dfc00824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 50/52] fix: optional forwards what the parser inside it could
 continue with

---
 src/parser/choice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index 07cbf38..1ecf4f2 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -663,7 +663,7 @@ where
         }
     }
 
-    forward_parser!(Input, add_error parser_count, 0);
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Parses `parser` and outputs `Some(value)` if it succeeds, `None` if it fails without
-- 
2.43.0


From 7128d38bdbf3b6ec7fa7d457cb030139fef3fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 51/52] fix: report the end of input when take_while1 fails
 there

---
 src/stream/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index b53eaca..c59299f 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -352,13 +352,15 @@ where
             }
         }
         PeekErr(_) => {
-            if input.is_partial() && input_at_eof(input) {
-                // Partial inputs which encounter end of file must fail to let more input be
-                // retrieved
-                CommitErr(Input::Error::from_error(
-                    input.position(),
-                    StreamError::end_of_input(),
-                ))
+            if input_at_eof(input) {
+                let err = Input::Error::from_error(input.position(), StreamError::end_of_input());
+                if input.is_partial() {
+                    // Partial inputs which encounter end of file must fail to let more input be
+                    // retrieved
+                    CommitErr(err)
+                } else {
+                    PeekErr(err.into())
+                }
             } else {
                 PeekErr(Input::Error::empty(input.position()).into())
             }
-- 
2.43.0


From 8ea49dd10932604c4c87a32339dc2a6d31f3d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 52/52] fix: report the end of input when a regex fails there

---
 src/parser/regex.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parser/regex.rs b/src/parser/regex.rs
index 2784958..3b7b01b 100644
--- a/src/parser/regex.rs
+++ b/src/parser/regex.rs
@@ -40,7 +40,7 @@ use crate::{
         StreamError, Tracked,
     },
     parser::range::take,
-    stream::{RangeStream, StreamOnce},
+    stream::{input_at_eof, RangeStream, Stream, StreamOnce},
     Parser,
 };
 
@@ -216,6 +216,19 @@ mod regex {
     }
 }
 
+fn no_match<Input, O>(input: &mut Input) -> ParseResult<O, Input::Error>
+where
+    Input: Stream,
+{
+    let position = input.position();
+    let err = if input_at_eof(input) {
+        Input::Error::from_error(position, StreamError::end_of_input())
+    } else {
+        Input::Error::empty(position)
+    };
+    PeekErr(err.into())
+}
+
 pub struct Match<R, Input>(R, PhantomData<Input>);
 
 impl<'a, Input, R> Parser<Input> for Match<R, Input>
@@ -234,7 +247,7 @@ where
         if self.0.is_match(input.range()) {
             PeekOk(input.range())
         } else {
-            PeekErr(Input::Error::empty(input.position()).into())
+            no_match(input)
         }
     }
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -291,7 +304,7 @@ where
         let (end, First(value)) = self.0.find_iter(input.range());
         match value {
             Some(value) => take(end).parse_lazy(input).map(|_| value),
-            None => PeekErr(Input::Error::empty(input.position()).into()),
+            None => no_match(input),
         }
     }
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -411,7 +424,7 @@ where
         let (end, First(value)) = self.0.captures(input.range());
         match value {
             Some(value) => take(end).parse_lazy(input).map(|_| value),
-            None => PeekErr(Input::Error::empty(input.position()).into()),
+            None => no_match(input),
         }
     }
     fn add_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0

