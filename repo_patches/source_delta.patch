From 9f45ee37f07f505a021f28267f791f51de17a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 01/35] fix: iterate over the bytes a content reference covers,
 not the characters

ContentReference::chars and BlockSpan::chars skipped and took characters
where offsets and lengths are in bytes, corrupting non-ASCII text.
---
 src/evaluated/block_span.rs        |  7 ++-----
 src/evaluated/content_reference.rs | 33 +++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..0af1c11 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,8 +156,8 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
+            Some(x) => Box::new(BlockSpanCharIteratorInternal::ContentReference(
+                x.chars_from(parent.offset),
             )),
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
@@ -183,7 +182,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,7 +190,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..38fce43 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,17 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        self.chars_from(0)
+    }
+
+    /// Iterate over the characters in this content reference, discarding the
+    /// first `skip` bytes of it
+    pub(super) fn chars_from(&self, skip: usize) -> ContentReferenceIter {
+        ContentReferenceIter {
+            internal: self.node.chars(),
+            offset: self.offset + skip,
+            length: self.length.saturating_sub(skip),
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +147,30 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    internal: super::nodes::Chars<'a>,
+    /// How many bytes we still need to discard from the front
+    offset: usize,
+    /// How many bytes we have left to produce
+    length: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.length == 0 {
+            return None;
+        }
+
+        let mut tr = self.internal.next()?;
+        while self.offset > 0 {
+            self.offset -= tr.len_utf8();
+            tr = self.internal.next()?;
+        }
+        self.length -= tr.len_utf8();
+
+        Some(tr)
     }
 }
 
-- 
2.43.0


From 2c070e39676173456b9fa9bbf5b3f7aa6890f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 02/35] fix: find_substring on spans containing multi-byte
 characters

The initial fill of the window indexed past the buffer, and the returned
index assumed that the last character of the match was one byte long.
---
 src/evaluated/nom/mod.rs | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..f297b46 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -194,41 +194,29 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
             return None;
         }
 
+        // Any string starts with the empty string
+        if substr.len() == 0 {
+            return Some(0);
+        }
+
         let substr_bytes = substr.as_bytes();
         let mut buffer = Vec::with_capacity(substr.len());
         let mut char_buffer = [0, 0, 0, 0];
         buffer.resize_with(substr.len(), || 0);
 
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
         let mut buffer_start = 0;
 
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
-            return Some(0);
-        }
-
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
+        for (i, c) in self.iter_indices() {
+            // Update the buffer, so it contains the last `substr.len()` bytes seen
             let char_size = c.encode_utf8(&mut char_buffer).len();
             for j in 0..char_size {
                 buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
             }
             buffer_start = (buffer_start + char_size) % substr.len();
+            if i + char_size < substr.len() {
+                // Haven't seen enough content to fill the buffer yet
+                continue;
+            }
             // attempt to match the current buffer against the substring
             let mut all_match = true;
             for j in 0..substr.len() {
@@ -238,8 +226,7 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
                 }
             }
             if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
+                return Some(i + char_size - substr.len());
             }
         }
 
-- 
2.43.0


From a5117307819c8b37413be91fddb8b2784b8c0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 03/35] fix: position and slice_index on spans are in bytes

nom expects position to return the byte index of the matching character
and slice_index to return the byte index of the count-th one.
---
 src/evaluated/nom/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index f297b46..2f80061 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,13 +32,23 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|&(_, c)| predicate(c))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
+        // `count` is in characters, the returned index is in bytes
+        let mut seen = 0;
+        for (index, _) in self.iter_indices() {
+            if seen == count {
+                return Some(index);
+            }
+            seen += 1;
+        }
+        if seen == count {
+            Some(self.length)
         } else {
             None
         }
-- 
2.43.0


From 389f209e378a2e55bec0b78b02fc1920cc7a533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 04/35] fix: segments of a span that starts at a segment
 boundary

A segment that ends exactly where the span starts was kept, and slicing
it at its end panicked.
---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 0af1c11..6814b2e 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -282,7 +282,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 38fce43..fd8b924 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -211,7 +211,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From c0b783dd769f92518fed19cf896e3a6ebcdcb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 05/35] fix: offset between spans that start in different
 content references

The position of the second span inside of its content reference was left out.
---
 src/evaluated/nom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 2f80061..c2e8c65 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -262,7 +262,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From e7b0a2dd275e37285671b9359765db533147c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 06/35] fix: remainder of a split that consumes a whole span

The remainder pointed past the end of the parent block instead of the end
of the span, so its offset was wrong for spans that stop before the end.
---
 src/evaluated/block_span.rs | 15 ---------------
 src/evaluated/nom/mod.rs    | 13 ++-----------
 2 files changed, 2 insertions(+), 26 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 6814b2e..2f0fa73 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -26,21 +26,6 @@ impl<'a> BlockSpan<'a> {
         }
     }
 
-    /// Create an empty block with the provided parent.
-    /// This requires us to also pass an empty array for "contents", so `Offset`
-    /// works correctly.
-    pub(crate) fn empty_with_parent(
-        parent: &'a Block,
-        contents: &'a [ContentReference],
-    ) -> BlockSpan<'a> {
-        BlockSpan {
-            parent,
-            contents: contents,
-            offset: 0,
-            length: 0,
-        }
-    }
-
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
         if self.length == 0 {
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index c2e8c65..63bcbd3 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -105,10 +105,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 let snd = self.slice(..i);
                 Ok((fst, snd))
             }
-            None => Ok((
-                BlockSpan::empty_with_parent(self.parent, &self.contents[self.contents.len()..]),
-                *self,
-            )),
+            None => Ok((self.slice(self.length..), *self)),
         }
     }
 
@@ -123,13 +120,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 if self.length == 0 {
                     Err(Err::Error(Context::Code(*self, e)))
                 } else {
-                    Ok((
-                        BlockSpan::empty_with_parent(
-                            self.parent,
-                            &self.contents[self.contents.len()..],
-                        ),
-                        *self,
-                    ))
+                    Ok((self.slice(self.length..), *self))
                 }
             }
         }
-- 
2.43.0


From 108794b148fddf231e81704ac123c153f0387cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 07/35] fix: span of a block whose first reference is empty

Copying such a span out (to_new_block, push_all_contents) panicked.
---
 src/evaluated/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index abcfc5b..c7c28e8 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -70,12 +70,16 @@ impl Block {
     /// Get this block as a parsable span
     pub fn span(&self) -> BlockSpan {
         let length = self.content.iter().map(|x| x.length).sum();
-        BlockSpan {
+        let mut tr = BlockSpan {
             parent: self,
             contents: &self.content,
             offset: 0,
             length: length,
-        }
+        };
+        // Skip over any leading references that have no content
+        tr.revalidate_offset();
+
+        tr
     }
 
     /// Get a list of things that this tree is sensitive too
-- 
2.43.0


From 8da85c2d38ab548aba31941548fef159159b486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 08/35] fix: resume interpreting lines after the endif of a
 false conditional

endif popped the conditional but did not recompute whether to ignore
lines, so everything after it was dropped.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From ed3eaef9ee719bbfcd8bf18c8762266ec3a048ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 09/35] fix: drop recipe lines inside of a false conditional

---
 src/parsers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..6c0a3f6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -165,7 +165,9 @@ impl ParserState {
             run_parser!(recipe_line(i, engine.command_char), |line| {
                 // Push the line. This is safe since we only run this parser if
                 // we're currently processing a rule
-                self.push_command_line(line);
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From 6e80c51e031793e1a821a3dd92ea143d1d4880c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 10/35] fix: keep the rule that is still open at the end of a
 makefile

---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..c971414 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -588,6 +588,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input also ends any rule that is still open
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6c0a3f6..80c9194 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -289,7 +289,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From 0a70e4e81674276183c59e5d4fb9ffb43d36877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:28 +0000
Subject: [PATCH 11/35] fix: recognize the opening brace of ${var} references

---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From 1b10b20fb421814b0214b7c303b926c98c81d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 12/35] fix: keep the text that follows a function call

The remainder of the argument list was returned instead of the remainder
of the input, so everything after $(strip x) or $(eval x) was dropped.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..b57c5bd 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,7 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        Ok((_, node)) => Ok((i, node)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From 551812c170ed391244db26a9273cfc4ea9f4740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:32 +0000
Subject: [PATCH 13/35] fix: accept := assignments with an empty value

---
 src/parsers/variable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..e38b56b 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -343,7 +343,7 @@ fn parse_variable_assignment<'a>(
         let contents = value_ast.eval(names, context);
         let location = value_segment
             .location()
-            .expect("value segment should have nonzero length");
+            .unwrap_or(crate::source_location::Location::Synthetic);
         value_ast = ast::preevaluated(location.into(), contents);
     }
 
-- 
2.43.0


From 3a11fa6082def2bfe9ed345ab249390023588f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 14/35] fix: ?= leaves variables that are already defined alone

---
 src/parsers/variable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index e38b56b..047db79 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -96,6 +96,13 @@ impl crate::parsers::ParserState {
         }
 
         match action.action {
+            Action::Define(ref parameters)
+                if parameters.flavor == Flavor::Conditional
+                    && !action.modifiers.define
+                    && engine.database.get_variable(action.name).is_some() =>
+            {
+                // Conditional assignments leave variables that are already defined alone
+            }
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
-- 
2.43.0


From a7fb6ce875495c8bd96d36ff1044ac2da6e6e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:36 +0000
Subject: [PATCH 15/35] fix: track what the value of a simple variable was
 sensitive to

---
 src/ast/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..cc209f7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -119,7 +119,10 @@ impl AstNode {
                 }
                 contents
             }
-            AstChildren::PreEvaluated(ref block) => block.content().map(|x| x.clone()).collect(),
+            AstChildren::PreEvaluated(ref block) => {
+                merge_sensitivity!(block.raw_sensitivity());
+                block.content().map(|x| x.clone()).collect()
+            }
             AstChildren::VariableReference(name) => {
                 // Compute the variable name, and then try to evaluate it
                 let name = eval_subexpr!(name);
-- 
2.43.0


From ac459ae6fde7486c75f2d1fc524ead716d86e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 16/35] fix: += expands its value immediately when appending to
 a simple variable

---
 src/parsers/variable/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 047db79..0725347 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -345,7 +345,14 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // Appending to a simple variable expands the appended value immediately too
+    let append_to_simple = assignment_type == AssignmentType::Append
+        && context
+            .database
+            .get_variable(variable_name)
+            .map_or(false, |var| var.value.flavor == Flavor::Simple);
+
+    if assignment_type == AssignmentType::Simple || append_to_simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         let location = value_segment
-- 
2.43.0


From 93101dfe31b79fe1dafc5c58e599fb9c45e53e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 17/35] fix: do not extend a line up to a comment on a later
 line

Grabbing a line looked for a # before looking for the end of the line, so
lines were merged with everything up to the next comment. Windows line
breaks were never recognized, which left a carriage return on the line.
---
 src/parsers/mod.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 80c9194..83b6bab 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -322,20 +322,36 @@ where
         + nom::InputLength
         + nom::FindSubstring<&'static str>,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    let line_break = input.find_substring("\n");
+
+    // Comments, but only if they start before the end of the line
+    match (input.find_substring("#"), line_break) {
+        (Some(comment), Some(line_break)) if comment > line_break => {}
+        (Some(comment), _) => {
+            return Ok((
+                input.slice(comment..),
+                (input.slice(..comment), LineEndReason::Comment),
+            ));
+        }
+        (None, _) => {}
+    }
+
+    match line_break {
+        Some(line_break) => {
+            let line_end = match input.find_substring("\r\n") {
+                Some(windows_break) if windows_break + 1 == line_break => windows_break, // Windows line endings
+                _ => line_break, // UNIX line endings
+            };
+            Ok((
+                input.slice(line_break + 1..),
+                (input.slice(..line_end), LineEndReason::LineBreak),
+            ))
+        }
+        None => Ok((
+            input.slice(input.input_len()..),
+            (input, LineEndReason::EOF),
+        )), // EOF
+    }
 }
 
 named!(
-- 
2.43.0


From 7d49879a8b4928a6b64e7e916a3a7ce8ed3e15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:10 +0000
Subject: [PATCH 18/35] fix: keep # inside of a define as part of the body

The body was split at every # and comment lines were dropped from it.
---
 src/parsers/mod.rs          | 13 ++++++++-----
 src/parsers/variable/mod.rs |  7 +++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 83b6bab..6ba0ff6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -153,11 +153,14 @@ impl ParserState {
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
         // bespoke comment processing sprinkled through every other case)
-        run_parser!(comment::parse_comment_following_whitespace(i), |_| {
-            // Comment lines don't require any particular action
-            info!("Skipping over comment line");
-            Ok(())
-        });
+        // Note that there are no comments inside of a define
+        if self.current_define.is_none() {
+            run_parser!(comment::parse_comment_following_whitespace(i), |_| {
+                // Comment lines don't require any particular action
+                info!("Skipping over comment line");
+                Ok(())
+            });
+        }
 
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 0725347..421b87f 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -400,10 +400,9 @@ pub(crate) fn parse_define_line<'a>(
         i,
         ParseErrorKind,
         alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
-                nom::rest // EOF
+            // Line endings, either UNIX or Windows
+            recognize!(terminated!(take_until!("\n"), tag!("\n"))) |
+            nom::rest // EOF
         )
     )?;
 
-- 
2.43.0


From 994ea3c5a391c6c6356d4fe1ffd2ad907b4ba097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 19/35] fix: cut continued lines right after their last
 non-whitespace character

Continued lines were cut inside of a trailing multi-byte character, kept a
whitespace character when they had nothing else, and lost backslashes that
are followed by whitespace.
---
 src/parsers/mod.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6ba0ff6..2aa6271 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -531,21 +531,16 @@ pub(crate) fn makefile_line(
                     s.slice(..s.len() - 1)
                 }
                 ParserCompliance::GNU => {
-                    if s.len() < 2 {
-                        // Either the empty string or just "\\" should go to the empty string
-                        s.slice(0..0)
-                    } else {
-                        // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
-                        for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
-                                continue;
-                            }
-                            last_non_whitespace = i;
+                    // In GNU mode we strip off the backslash and all the whitespace before it
+                    let line = s.slice(..s.len() - 1);
+                    let mut line_end = 0;
+                    for (i, c) in line.char_indices() {
+                        if c != ' ' && c != '\t' {
+                            line_end = i + c.len_utf8();
                         }
-
-                        s.slice(..last_non_whitespace + 1)
                     }
+
+                    line.slice(..line_end)
                 }
             }
         } else {
-- 
2.43.0


From be641396a6b305940ecade89cbb6bb8e115ac067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 20/35] fix: do not cut words inside of a multi-byte character

Target words and the text after an unquoted stop character assumed that
the character at the cut is one byte long.
---
 src/parsers/mod.rs         | 7 ++++---
 src/parsers/targets/mod.rs | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 2aa6271..14bd0f4 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -417,7 +417,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -463,14 +463,15 @@ where
             next_push_start = idx;
         } else {
             // Even number of slashes. Indicate that we found the stopchar
-            stopchar_index = idx - 1;
+            stopchar_index = idx;
         }
     }
 
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        let post_index = stopchar_index + stop_character.len();
+        (tr, Some((stop_character, i.slice(post_index..))))
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..708d0c1 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
-- 
2.43.0


From 154195da0272cbb233d6ea8eab2c8f9598548d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 21/35] fix: do not count the bytes of a multi-byte character
 as backslashes

---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 14bd0f4..82df7ff 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -444,7 +444,7 @@ where
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
-- 
2.43.0


From b620b104a0870f0b07a46c634f64e6f473debf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 22/35] fix: check the right characters when looking for drive
 specs

The two characters before the colon were swapped, and were looked up by
byte instead of by character.
---
 src/parsers/targets/mod.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 708d0c1..de6edcf 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -555,7 +555,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -587,25 +587,18 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         pre_colon: content,
                         post_colon: post,
                     };
-                } else if pre.len() == 1 {
-                    // Condition 2b holds, check condition 1
-                    let ch = pre.span().iter_elements().next().unwrap();
-                    if !ch.is_alphabetic() {
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
                 } else {
-                    // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
+                    // There was prior content, grab the last two characters.
+                    let mut ch1 = None;
+                    let mut ch2 = None;
+                    for ch in pre.span().iter_elements() {
+                        ch1 = ch2;
+                        ch2 = Some(ch);
+                    }
                     // Check condition 1 and 2
-                    if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
+                    if !ch2.map_or(false, |ch| ch.is_alphabetic())
+                        || !ch1.map_or(true, |ch| ch.is_whitespace() || ch == '(')
+                    {
                         // Condition 1 or 2 failed, not a drive spec
                         return DrivespecSearchResult::FoundColon {
                             pre_colon: content,
-- 
2.43.0


From f8bab654b3d535a2277062f9eea0c6fd7b0003b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 23/35] fix: match substitution patterns against the end of
 each word

The text after the % of the pattern was searched for from the front, so
words in which it occurs more than once, patterns ending in % and empty
suffixes never matched.
---
 src/ast/text_functions.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..8bbc983 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -56,6 +56,8 @@ fn do_replacement<'a>(
     pre_replacement: BlockSpan,
     post_replacement: BlockSpan,
 ) -> Arc<Block> {
+    use nom::Slice;
+
     let mut output = Block::new(sensitivity, Default::default());
     let total_key_length = pre_key.len() + post_key.len();
     let mut first = true;
@@ -79,12 +81,7 @@ fn do_replacement<'a>(
             continue;
         }
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
+        let (captured, _) = match tag!(token, pre_key) {
             Ok(v) => v,
             Err(_) => {
                 // A failure to match here indicates we couldn't find the key,
@@ -94,16 +91,14 @@ fn do_replacement<'a>(
                 continue;
             }
         };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
+        if !captured.into_string().ends_with(post_key) {
+            // The token doesn't end in the post key, so the key doesn't match.
+            // Push and continue
+            debug!("Skipping because the post key was not found");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
+        let captured = captured.slice(..captured.len() - post_key.len());
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
         Arc::make_mut(&mut output).push_all_contents(captured.clone());
-- 
2.43.0


From 7f9d7a61e94978f7f451e65fd42f6acbc3d183c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 24/35] fix: a substitution without a % in its replacement
 replaces the whole word

---
 src/ast/text_functions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 8bbc983..0872886 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -23,6 +23,7 @@ pub(super) fn do_subref(
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     pre_replacement.span(),
+                    true,
                     post_replacement,
                 ),
                 // Only key had a %
@@ -32,6 +33,7 @@ pub(super) fn do_subref(
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     BlockSpan::empty(),
+                    false,
                     replacement.span(),
                 ),
             }
@@ -42,6 +44,7 @@ pub(super) fn do_subref(
             "",
             &key.into_string(),
             BlockSpan::empty(),
+            true,
             replacement.span(),
         ),
     }
@@ -54,6 +57,7 @@ fn do_replacement<'a>(
     pre_key: &str,
     post_key: &str,
     pre_replacement: BlockSpan,
+    keep_captured: bool,
     post_replacement: BlockSpan,
 ) -> Arc<Block> {
     use nom::Slice;
@@ -101,7 +105,9 @@ fn do_replacement<'a>(
         let captured = captured.slice(..captured.len() - post_key.len());
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        if keep_captured {
+            Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        }
         Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
-- 
2.43.0


From 4eb39a504321443ffdfddefcd7a315ed92afcb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:56 +0000
Subject: [PATCH 25/35] Add verification hooks, guarded by cfg(hastur_verif)

---
 src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c971414..bf6570a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -595,6 +595,24 @@ impl Engine {
     }
 }
 
+/// Access to internals for the verification harness
+#[cfg(hastur_verif)]
+pub mod verif_hooks {
+    use crate::ast::AstNode;
+    use crate::source_location::{LocatedString, Location};
+    use crate::Command;
+
+    /// Create a string with the given location
+    pub fn located(location: Location, contents: String) -> LocatedString {
+        LocatedString::new(location.into(), contents)
+    }
+
+    /// Get the unexpanded text of a command
+    pub fn command_ast(command: &Command) -> &AstNode {
+        &command.unexpanded_command
+    }
+}
+
 #[cfg(test)]
 mod test {
     //! Test utilities
-- 
2.43.0


From 66873aef0fb10993c40ef1c8c5bfdfc27b9824b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 26/35] fix: function names must be followed by whitespace

$(wordsize) was taken for a call of $(words ...).
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index b57c5bd..f688ee0 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -161,7 +161,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 2988ac7b3c69a2d20d7870b37bd026deed6df5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:03 +0000
Subject: [PATCH 27/35] fix: a list of nothing but whitespace has no words to
 substitute

---
 src/ast/text_functions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 0872886..db2fed0 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -69,6 +69,11 @@ fn do_replacement<'a>(
         let (new_tokens, token) = makefile_token(tokens).expect("tokens should never fail");
         tokens = new_tokens;
 
+        if token.len() == 0 {
+            // There was nothing but whitespace, so there is no word to process
+            continue;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
-- 
2.43.0


From 45fb11ab6da6217598ff9214d8ecbc6a2e04ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:55 +0000
Subject: [PATCH 28/35] fix: do not expand the arguments of conditionals in
 unselected lines

---
 src/parsers/conditional/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..9ec12a9 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,21 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfDef(_)
+            | Conditional::IfNDef(_)
+            | Conditional::IfEq(_, _)
+            | Conditional::IfNEq(_, _)
+                if self.ignoring =>
+            {
+                // Nothing in here is selected, so the arguments must not be
+                // expanded. Only track that there is another endif to expect.
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
-- 
2.43.0


From 45f27540f2c8dcfa9f00dbc779bec52c7b94f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 29/35] fix: define and endef inside of a define are whole
 words

---
 src/parsers/variable/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 421b87f..5af37fb 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -421,6 +421,11 @@ pub(crate) fn parse_define_line<'a>(
             ))
         )
     )?;
+    // Keywords are whole words
+    let action = match i.chars().next() {
+        Some(c) if !c.is_whitespace() => DefineLineAction::Append,
+        _ => action,
+    };
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
     if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
-- 
2.43.0


From 1e8c9b78f139d280ba587d2cc8f4784284ad4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 30/35] fix: conditional keywords are whole words

---
 src/parsers/conditional/mod.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 9ec12a9..3bbfcb5 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -151,22 +151,27 @@ fn parse_line_internal<'a>(
         makefile_whitespace,
         add_return_error!(
             ErrorKind::Custom(ParseErrorKind::ConditionalExpected),
-            terminated!(
-                fix_error!(
-                    ParseErrorKind,
-                    alt_complete!(
-                        tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
-                        tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
-                        tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
-                        tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
-                        tag_no_case!("else") => { |_| ConditionalType::Else } |
-                        tag_no_case!("endif") => { |_| ConditionalType::EndIf }
-                    )
-                ),
-                makefile_whitespace
+            fix_error!(
+                ParseErrorKind,
+                alt_complete!(
+                    tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
+                    tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
+                    tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
+                    tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
+                    tag_no_case!("else") => { |_| ConditionalType::Else } |
+                    tag_no_case!("endif") => { |_| ConditionalType::EndIf }
+                )
             )
         )
     )?;
+    // Keywords are whole words
+    match input.chars().next() {
+        Some(c) if !c.is_whitespace() && c != '(' && c != '"' && c != '\'' => {
+            return super::error_out(input, ParseErrorKind::ConditionalExpected);
+        }
+        _ => {}
+    }
+    let (input, _) = makefile_whitespace(input)?;
 
     debug!("Tag is {:?}", tag);
     debug!("Rest is {:?}", input.into_string());
-- 
2.43.0


From 24eba9152673d316c1dc332c187913548004b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 31/35] fix: modifiers and directives are whole words

---
 src/parsers/directives/mod.rs | 17 +++++++++--------
 src/parsers/mod.rs            | 11 +++++++++++
 src/parsers/variable/mod.rs   |  4 ++--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..7d726ff 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::end_of_word;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -97,14 +98,14 @@ pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action,
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(terminated!(pe_fix!(tag_no_case!("export")), end_of_word), parse_ast) => { Action::Export } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("unexport")), end_of_word), parse_ast) => { Action::Unexport } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("vpath")), end_of_word), parse_ast) => { Action::VPath } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("include")), end_of_word), parse_ast) => { Action::Include } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("sinclude")), end_of_word), parse_ast) => { Action::SoftInclude } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("-include")), end_of_word), parse_ast) => { Action::SoftInclude } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("load")), end_of_word), parse_ast) => { Action::Load } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("-load")), end_of_word), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 82df7ff..79bb3be 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -622,6 +622,17 @@ pub(crate) fn makefile_line(
     Ok((i, Block::new(Default::default(), lines)))
 }
 
+/// Succeeds, without consuming anything, where a keyword may end: in front of
+/// whitespace or at the end of the line
+fn end_of_word<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => {
+            error_out(i, ParseErrorKind::InternalFailure("not a whole word"))
+        }
+        _ => Ok((i, ())),
+    }
+}
+
 /// Create a new Nom `IResult` recoverable error with our custom error kind
 pub(crate) fn error_out<'a, T>(
     i: BlockSpan<'a>,
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 5af37fb..dee1bf7 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{end_of_word, error_out, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -208,7 +208,7 @@ pub(crate) fn parse_line<'a>(
                 pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
                 pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
             ),
-            makefile_whitespace
+            preceded!(end_of_word, makefile_whitespace)
         ) {
             Ok(b) => b,
             Err(_) => {
-- 
2.43.0


From 033f8315c9981010157e37a6d668fcf4f34d9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:34 +0000
Subject: [PATCH 32/35] fix: references may extend over several lines of a
 define

---
 src/parsers/variable/mod.rs | 79 +++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index dee1bf7..ac2f3cc 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -391,12 +391,54 @@ fn parse_variable_assignment<'a>(
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+    use nom::Slice;
+
     // This parser operates outside of the context of things that have already grabbed lines
     // TODO: maybe just grab a whole define in here? Don't bother with trying to
     // round-trip it through the processing function above
-    // This also uses a specialized version of makefile_grab_line, since we
-    // actually need the line endings to stay intact.
-    let (next_lines, i) = fix_error!(
+    let start = i;
+    let (mut next_lines, mut i) = take_define_line(start)?;
+
+    debug!("Parsing define line {:?}", i.into_string());
+    let location = i.location().expect("There should be content on the line");
+    let ast = loop {
+        match parse_ast(i) {
+            Ok((_, ast)) => break ast,
+            Err(e) => {
+                // References may extend over any number of lines of the body
+                if next_lines.len() == 0 || define_keyword(next_lines)?.1 != DefineLineAction::Append
+                {
+                    return Err(e);
+                }
+                next_lines = take_define_line(next_lines)?.0;
+                i = start.slice(..start.len() - next_lines.len());
+            }
+        }
+    };
+
+    let (i, action) = define_keyword(i)?;
+    let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
+
+    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
+        return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
+    }
+
+    Ok((
+        next_lines,
+        DefineLine {
+            action: action,
+            content: ast,
+            location: location,
+        },
+    ))
+}
+
+/// Take a line of a define. This is a specialized version of
+/// makefile_grab_line, since we actually need the line endings to stay intact.
+fn take_define_line<'a>(
+    i: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, BlockSpan<'a>, ParseErrorKind> {
+    fix_error!(
         i,
         ParseErrorKind,
         alt_complete!(
@@ -404,12 +446,13 @@ pub(crate) fn parse_define_line<'a>(
             recognize!(terminated!(take_until!("\n"), tag!("\n"))) |
             nom::rest // EOF
         )
-    )?;
-
-    debug!("Parsing define line {:?}", i.into_string());
-    let location = i.location().expect("There should be content on the line");
-    let (_, ast) = parse_ast(i)?;
+    )
+}
 
+/// Find out what to do with a line of a define
+fn define_keyword<'a>(
+    i: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, DefineLineAction, ParseErrorKind> {
     let (i, action) = pe_fix!(
         i,
         preceded!(
@@ -422,22 +465,8 @@ pub(crate) fn parse_define_line<'a>(
         )
     )?;
     // Keywords are whole words
-    let action = match i.chars().next() {
-        Some(c) if !c.is_whitespace() => DefineLineAction::Append,
-        _ => action,
-    };
-    let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-
-    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
-        return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => Ok((i, DefineLineAction::Append)),
+        _ => Ok((i, action)),
     }
-
-    Ok((
-        next_lines,
-        DefineLine {
-            action: action,
-            content: ast,
-            location: location,
-        },
-    ))
 }
-- 
2.43.0


From 2f8044760864ffcb1ba9f25de1892d8c882ce157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 33/35] fix: an escaped colon at the end of a line is part of
 the word

---
 src/parsers/targets/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index de6edcf..ec08e70 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -506,10 +506,11 @@ fn next_mword<'a>(
 
         if chr == '\\' {
             prev_char = chr;
-            if let Some((_, chr)) = char_iter.peek() {
-                let chr = *chr;
+            if let Some((idx, chr)) = char_iter.peek() {
+                let (idx, chr) = (*idx, *chr);
                 if chr == ':' || chr == ';' || chr == '=' || chr == '\\' {
                     // This is escaping something, skip forward
+                    stop_index = idx + chr.len_utf8();
                     prev_char = chr;
                     char_iter.next();
                 }
-- 
2.43.0


From 81d1f7587c4cda454a35daa851a309ef192aa346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:24 +0000
Subject: [PATCH 34/35] fix: a semicolon in a variable reference does not end a
 rule line

---
 src/parsers/targets/mod.rs | 67 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index ec08e70..7cbbe51 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -113,7 +113,7 @@ pub(crate) fn parse_line<'a>(
     //
     // line is the storage backing "line_next" which is our model for lb_next
     // post_semi_content is essentially cmdleft
-    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| (c == ';' || c == '#')) {
+    let (line, semip) = match take_until_command(line.span()) {
         (pre, Some((stopchar, post))) => {
             if stopchar.iter_elements().next() == Some('#') {
                 (pre, None)
@@ -411,6 +411,71 @@ pub(crate) fn parse_line<'a>(
     ))
 }
 
+/// The bounds of the first variable reference in a piece of text. If there is
+/// none, both are the length of the text.
+fn find_reference<'a>(i: BlockSpan<'a>) -> (usize, usize) {
+    use nom::InputIter;
+
+    let mut chars = i.iter_indices();
+    while let Some((start, chr)) = chars.next() {
+        if chr != '$' {
+            continue;
+        }
+
+        let (open, close, mut end) = match chars.next() {
+            Some((idx, '(')) => ('(', ')', idx + 1),
+            Some((idx, '{')) => ('{', '}', idx + 1),
+            // A reference to a variable with a single character name
+            Some((idx, chr)) => return (start, idx + chr.len_utf8()),
+            None => return (start, i.len()),
+        };
+
+        let mut depth = 1;
+        while depth > 0 {
+            match chars.next() {
+                Some((idx, chr)) => {
+                    if chr == open {
+                        depth += 1;
+                    } else if chr == close {
+                        depth -= 1;
+                    }
+                    end = idx + chr.len_utf8();
+                }
+                // Unterminated, that will be reported once it is expanded
+                None => break,
+            }
+        }
+        return (start, end);
+    }
+
+    (i.len(), i.len())
+}
+
+/// Split a line at the first unquoted semicolon or number sign that isn't part
+/// of a variable reference.
+fn take_until_command<'a>(
+    mut i: BlockSpan<'a>,
+) -> (Arc<Block>, Option<(BlockSpan<'a>, BlockSpan<'a>)>) {
+    use nom::Slice;
+
+    let mut content = Block::empty();
+    loop {
+        let (start, end) = find_reference(i);
+        let (pre, found) = makefile_take_until_unquote(i.slice(..start), |c| c == ';' || c == '#');
+        Arc::make_mut(&mut content).push_all_contents(pre.span());
+
+        if let Some((stop, post)) = found {
+            return (content, Some((stop, i.slice((start - post.len())..))));
+        }
+        if start == end {
+            return (content, None);
+        }
+
+        Arc::make_mut(&mut content).push_all_contents(i.slice(start..end));
+        i = i.slice(end..);
+    }
+}
+
 fn next_mword<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, MWordEnd), ParseErrorKind> {
-- 
2.43.0


From 7f293fa6916aeb421056802810c781550275cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 35/35] fix: a missing file of an include (and any other parse
 failure) is an error, not a panic

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf6570a..c925e3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -580,7 +580,12 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
+                Err(NErr::Failure(e)) => {
+                    return Err(MakefileError::ParseError(match e.into_error_kind() {
+                        nom::ErrorKind::Custom(e) => e,
+                        _ => ParseErrorKind::InternalFailure("unrecoverable line parsing failure"),
+                    }))
+                }
                 Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
                 Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
             };
-- 
2.43.0

