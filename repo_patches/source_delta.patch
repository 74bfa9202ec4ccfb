From 38760c1ce75cf358d803941b4148c23ce7fe0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 01/33] fix: end the event stream after the first error

Calling next() again after an error re-entered the state machine in the
middle of a production: it repeated the error forever (the documented
filter_map(Result::ok) loops never ended) or hit a debug assertion.
---
 src/event/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..e578d6c 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -136,7 +136,18 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = match self.state_transition(tokens)
+            {
+                Ok(event) => event,
+                Err(e) =>
+                {
+                    // An error is terminal, the state machine cannot be
+                    // resumed from wherever it was interrupted
+                    self.done = true;
+
+                    return Err(e);
+                },
+            };
         }
 
         Ok(event)
-- 
2.43.0


From c3b1b1719dbf00cf273c679b9a7fd07e4b70e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 02/33] fix: advance over whole characters in scalars and
 comments

Stepping one byte at a time through a multi-byte character split the
&str inside it and panicked on any non ASCII content.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs |  8 +++++---
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..b82974d 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+            let char = advance!(<- buffer, :local_stats, width);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(char.as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..0830a2b 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+                let char = advance!(<- buffer, :stats, width);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(char.as_bytes())
                 }
-                advance!(buffer, :stats, 1);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..096ef98 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            let width = widthOf!(~buffer);
+            let char = advance!(<- buffer, :local_stats, width);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(char.as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -337,7 +339,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From 6830dd1c8f4456af3bae97f051b29afe650625fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 03/33] fix: do not cut a multi-byte line break after a lazy
 plain key

The deferred slice took one byte of the white space following ':',
which is not a char boundary when that is NEL, LS or PS.
---
 src/scanner/scalar/plain.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 096ef98..91497a9 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -327,14 +327,11 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
                 || flow_context && flow_indicator(buffer, 0)
             {
-                let skip = match isWhiteSpace!(~buffer, 1)
-                {
-                    true => 2,
-                    false => 1,
-                };
-
+                // The indicator itself is enough for _eager to stop at, as
+                // EOF terminates a ':' just as well as the white space (of
+                // whatever width) we're looking at
                 scalar_stats = local_stats.clone();
-                local_stats.update(skip, 0, skip);
+                local_stats.update(1, 0, 1);
 
                 break 'scalar;
             }
-- 
2.43.0


From 39f5da7a5ab4356158e96c23be6ad3cc2e468d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 04/33] fix: reject junk after a flow sequence's single pair
 mapping without asserting

Input such as '[a: b: c]' reached a debug assertion instead of the
error the next state returns for it.
---
 src/event/parser/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e578d6c..8852c1b 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -780,11 +780,10 @@ impl Parser
     where
         T: Read,
     {
-        let (start, end, token) = peek!(tokens)?;
-
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        let (start, end, _) = peek!(tokens)?;
 
-        // Revert to parsing the next entry in the parent sequence
+        // Revert to parsing the next entry in the parent sequence,
+        // which reports anything but a ',' or ']' here as an error
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
 
         let event = initEvent!(@event MappingEnd => (start, end, ())).into();
-- 
2.43.0


From 6658e10c2a49338cb1660835debc7a455299bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 05/33] fix: restore the root indent between documents

---
 src/scanner/context.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..9a6d9e3 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -161,6 +161,13 @@ impl Context
             {
                 self.indent = entry.indent;
 
+                // Back at the root of the document, whose indent is the
+                // "-1"th
+                if self.indents.is_empty()
+                {
+                    self.started = false;
+                }
+
                 f(self.indent)?;
 
                 Ok(true)
-- 
2.43.0


From 16eea5c66d005f51a419cb0484725431293fa65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 06/33] fix: read block scalar headers in order of appearance

---
 src/scanner/scalar/block.rs | 62 ++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b82974d..edc787d 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -403,45 +403,45 @@ fn scan_headers(
     stats: &mut MStats,
 ) -> Result<(ChompStyle, IndentHeader)>
 {
-    let mut skip = 0;
     let mut indent = None;
     let mut chomp = ChompStyle::Clip;
 
-    cache!(~buffer, 2, opts)?;
+    // The indentation and chomping headers may appear in either
+    // order, each of them at most once
+    let mut seen_indent = false;
+    let mut seen_chomp = false;
 
-    // Set the explicit indent if it exists.
-    //
-    // Note that we silently eat an invalid indent (0) rather
-    // than erroring
-    match buffer.as_bytes()
+    loop
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
-        {
-            indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
-            skip += 1;
-        },
-        _ =>
-        {},
-    }
+        cache!(~buffer, 1, opts)?;
 
-    // Set the chomping behavior of the scalar, if required
-    match buffer.as_bytes()
-    {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
-        {
-            chomp = ChompStyle::Keep;
-            skip += 1;
-        },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        match buffer.as_bytes()
         {
-            chomp = ChompStyle::Strip;
-            skip += 1;
-        },
-        _ =>
-        {},
-    }
+            // Set the explicit indent if it exists.
+            //
+            // Note that we silently eat an invalid indent (0) rather
+            // than erroring
+            [i @ b'0'..=b'9', ..] if !seen_indent =>
+            {
+                indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
+                seen_indent = true;
+            },
+            // Set the chomping behavior of the scalar, if required
+            [b'+', ..] if !seen_chomp =>
+            {
+                chomp = ChompStyle::Keep;
+                seen_chomp = true;
+            },
+            [b'-', ..] if !seen_chomp =>
+            {
+                chomp = ChompStyle::Strip;
+                seen_chomp = true;
+            },
+            _ => break,
+        }
 
-    advance!(*buffer, :stats, skip);
+        advance!(*buffer, :stats, 1);
+    }
 
     Ok((chomp, indent))
 }
-- 
2.43.0


From aa8f0a4bc20771c7af4071895ddfd0cd72127326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 07/33] fix: read block scalars with an explicit indent, or
 without content

---
 src/scanner/scalar/block.rs | 43 ++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index edc787d..7bf6971 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,20 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp the indentation of the first line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -161,11 +174,22 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Preceding lines are not contiguous with the content
+    if lines > 0
+    {
+        can_borrow = false;
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        // Until we find any, the content is empty
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
@@ -340,7 +364,20 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp the indentation of the first line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From 361a4d63769f3c328d9971f1123e2eb28482b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 08/33] fix: keep the final line break of single line block
 scalars

---
 src/scanner/scalar/block.rs | 58 ++++++++++++-------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 7bf6971..4feb4ba 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -542,55 +542,35 @@ fn scan_chomp<'de>(
         style,
         start,
         mut end,
-        mut lines,
+        lines,
     } = params;
 
     if *can_borrow
     {
-        match style
+        // A trailing line break can only be borrowed if it doesn't
+        // need to be normalized
+        let is_newline = base.as_bytes().get(end) == Some(&NEWLINE);
+
+        match (style, lines)
         {
-            // Clip the scalar to 0 or 1 line break
-            ChompStyle::Clip =>
+            // Nothing trails the content, or it is ignored
+            (ChompStyle::Strip, _) | (_, 0) => scalar = cow!(&base[start..end]),
+            // Exactly one of the trailing line breaks is part of the scalar, extend the borrow to
+            // include it
+            (ChompStyle::Clip, _) | (ChompStyle::Keep, 1) if is_newline =>
             {
-                // Check if we had trailing lines, extending the borrow to
-                // include the first
-                if lines > 0
-                {
-                    end += widthOf!(~base[end..], 1);
-                }
-
-                scalar = cow!(&base[start..end])
+                scalar = cow!(&base[start..end + 1])
             },
-            // Ignore any trailing line breaks just returning the scalar
-            ChompStyle::Strip => scalar = cow!(&base[start..end]),
-            // We only maintain the borrow if there is 0 or 1 new lines
-            //
-            // Technically, we could extend the logic here to check if the most recent scan_indent
-            // didn't skip any spaces (only line breaks).
-            ChompStyle::Keep => match lines
+            // Otherwise we have to copy the borrow to the scratch space, and let the branch below
+            // append the trailing lines.
+            _ =>
             {
-                n @ 0 | n @ 1 => scalar = cow!(&base[start..end + n]),
-                // The only way to hit this branch is if the scalar could still be borrowed, and
-                // thus is a single line. In this case we have to copy the borrow to the scratch
-                // space, and append any trailing lines the previous scan_indent produced.
-                //
-                // Note that .start and .end in this case refer to .base offsets _AND NOT_ scratch
-                // offsets. Care must be taken to ensure we _NEVER_ index into scratch with them
-                // when .style == Keep
-                _ =>
-                {
-                    scratch.extend_from_slice(base[start..end].as_bytes());
+                scratch.extend_from_slice(base[start..end].as_bytes());
 
-                    while lines > 0
-                    {
-                        scratch.push(NEWLINE);
-                        lines -= 1;
-                    }
+                // .end must now refer to a scratch offset
+                end = scratch.len();
 
-                    // Ensure we hit the copy branch below so as to correctly
-                    // handle .scratch -> .scalar transform
-                    *can_borrow = false;
-                },
+                *can_borrow = false;
             },
         }
     }
-- 
2.43.0


From a6b4645eff5488c13c9a8800b14b8faa90c7f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 09/33] fix: treat lines of exactly the indentation as empty in
 block scalars

---
 src/scanner/scalar/block.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 4feb4ba..f464e9e 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -493,36 +493,38 @@ fn scan_indent(
     indent: usize,
 ) -> Result<bool>
 {
-    if stats.column >= indent
-    {
-        return Ok(false);
-    }
+    let mut chomped = false;
 
-    cache!(~buffer, 1, opts)?;
-
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    loop
     {
+        cache!(~buffer, 1, opts)?;
+
+        // Line break before any content, chomp; increment lines
+        if stats.column <= indent && isBreak!(~buffer)
+        {
+            *lines += 1;
+            advance!(*buffer, :stats, @line);
+        }
+        // We've reached the content (or a less indented line)
+        else if stats.column >= indent || !isBlank!(~buffer)
+        {
+            break;
+        }
         // Indentation space, chomp
-        if check!(~buffer => b' ')
+        else if check!(~buffer => b' ')
         {
             advance!(*buffer, :stats, 1);
         }
         // Tabs in indentation, error
-        else if check!(~buffer => b'\t')
+        else
         {
             return Err(ScanError::InvalidTab);
         }
-        // Line break, chomp; increment lines
-        else if isBreak!(~buffer)
-        {
-            *lines += 1;
-            advance!(*buffer, :stats, @line);
-        }
 
-        cache!(~buffer, 1, opts)?;
+        chomped = true;
     }
 
-    Ok(true)
+    Ok(chomped)
 }
 
 /// Process a block scalar's ending whitespace according to
-- 
2.43.0


From 4e1d4298858b83910a203445a4f541759baf8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 10/33] fix: do not fold line breaks around more indented block
 scalar lines

---
 src/scanner/scalar/block.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f464e9e..e94b8c2 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,11 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Tracks if the last line started with whitespace (after the
+    // indentation), as the line breaks surrounding such lines are
+    // not folded
+    let mut spaced = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -223,8 +228,11 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
+        cache!(~buffer, 1, opts)?;
+        let prev_spaced = std::mem::replace(&mut spaced, isBlank!(~buffer));
+
         // If its a folding ('>') block scalar
-        if fold
+        if fold && !(prev_spaced || spaced)
         {
             // Handle line joins as needed
             match lines
-- 
2.43.0


From d7d3466b61e6132accee37c14f44f6342b45cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 11/33] fix: accept tabs after the indentation of a block
 scalar

---
 src/scanner/scalar/block.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index e94b8c2..8ddbe8b 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -643,6 +643,12 @@ fn detect_indent_level(
 
             if check!(~buffer => b'\t')
             {
+                // A tab after the indentation is content
+                if stats.column > base_indent
+                {
+                    break;
+                }
+
                 return Err(ScanError::InvalidTab);
             }
 
-- 
2.43.0


From 5d62a8dc26b465ab6b67056de0e8a21e5056ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 12/33] fix: continue root plain scalars at the root indent

---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 9a6d9e3..9b8e360 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -322,7 +322,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // The "-1"th indent
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From 0f743c58b17ea76be4911934f7b5024aa06cf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 13/33] fix: accept unindented block scalars at the root of a
 document

---
 src/scanner/scalar/block.rs | 44 +++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 8ddbe8b..be52e90 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -66,10 +66,9 @@ pub(in crate::scanner) fn scan_block_scalar<'de>(
     fold: bool,
 ) -> Result<(MaybeToken<'de>, usize)>
 {
-    // It is safe to assume our indentation level is >=0 here
-    // because block scalars can only occur as mapping or
-    // sequence values
-    let indent = cxt.indent().as_usize();
+    // The least indentation our content may have. Note that at
+    // the root of a document it may not be indented at all
+    let indent = cxt.indent() + 1;
 
     match opts.contains(O_LAZY)
     {
@@ -89,7 +88,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     opts: Flags,
     base: &'de str,
     stats: &mut MStats,
-    base_indent: usize,
+    min_indent: usize,
     fold: bool,
 ) -> Result<(Token<'de>, usize)>
 {
@@ -154,7 +153,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     {
         Some(explicit) =>
         {
-            indent = base_indent + explicit as usize;
+            indent = min_indent.saturating_sub(1) + explicit as usize;
 
             // Chomp the indentation of the first line
             scan_indent(
@@ -172,7 +171,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
                 opts,
                 &mut buffer,
                 &mut local_stats,
-                base_indent,
+                min_indent,
                 &mut lines,
                 &mut can_borrow,
             )?
@@ -214,6 +213,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
          * We're at the start of an indented line
          */
 
+        // A YAML document indicator terminates a block scalar
+        cache!(~buffer, 4, opts)?;
+        if isDocumentIndicator!(~buffer, :local_stats)
+        {
+            break;
+        }
+
         // Trapdoor to alloc land. Unfortunately, block scalars are
         // very unforgiving in which cases can be borrowed.
         // Basically limiting us to the unusual case of a single
@@ -228,7 +234,6 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
-        cache!(~buffer, 1, opts)?;
         let prev_spaced = std::mem::replace(&mut spaced, isBlank!(~buffer));
 
         // If its a folding ('>') block scalar
@@ -338,7 +343,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     opts: Flags,
     base: &'de str,
     stats: &mut MStats,
-    base_indent: usize,
+    min_indent: usize,
     fold: bool,
 ) -> Result<(Deferred<'de>, usize)>
 {
@@ -374,7 +379,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     {
         Some(explicit) =>
         {
-            indent = base_indent + explicit as usize;
+            indent = min_indent.saturating_sub(1) + explicit as usize;
 
             // Chomp the indentation of the first line
             scan_indent(
@@ -392,7 +397,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
                 opts,
                 &mut buffer,
                 &mut local_stats,
-                base_indent,
+                min_indent,
                 &mut 0,
                 &mut false,
             )?
@@ -405,6 +410,13 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
          * We're at the start of an indented line
          */
 
+        // A YAML document indicator terminates a block scalar
+        cache!(~buffer, 4, opts)?;
+        if isDocumentIndicator!(~buffer, :local_stats)
+        {
+            break;
+        }
+
         // Eat the line's content until the line break (or EOF)
         cache!(~buffer, 1, opts)?;
         while !isBreakZ!(~buffer)
@@ -434,7 +446,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    let lazy = Deferred::new(opts, slice, stats.clone(), min_indent, fold);
 
     *stats = local_stats;
 
@@ -625,7 +637,7 @@ fn detect_indent_level(
     opts: Flags,
     buffer: &mut &str,
     stats: &mut MStats,
-    base_indent: usize,
+    min_indent: usize,
     lines: &mut usize,
     can_borrow: &mut bool,
 ) -> Result<usize>
@@ -644,7 +656,7 @@ fn detect_indent_level(
             if check!(~buffer => b'\t')
             {
                 // A tab after the indentation is content
-                if stats.column > base_indent
+                if stats.column >= min_indent
                 {
                     break;
                 }
@@ -680,9 +692,9 @@ fn detect_indent_level(
 
     // Note that we must set the lower bound of the indentation
     // level, in case the YAML is invalid
-    if indent < base_indent + 1
+    if indent < min_indent
     {
-        indent = base_indent + 1
+        indent = min_indent
     }
 
     Ok(indent)
-- 
2.43.0


From a574d9a5cac0faeba4f147a5838241ba0c1053b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 14/33] fix: evaluate lazy block scalars of chunked readers

---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index be52e90..f03595d 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -446,7 +446,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), min_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        min_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From e36077233228e056ea91049879834635c16b6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 15/33] fix: find the end of lazy scalars after an escaped
 backslash

---
 src/scanner/scalar/flow.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 0830a2b..693a229 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -281,7 +281,8 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
 
     loop
     {
-        // Longest sequence we can hit is 2 characters ('' or \")
+        // Longest sequence we can hit is 2 characters ('', \" or
+        // \\)
         cache!(~buffer, 2, opts)?;
 
         if buffer.is_empty()
@@ -289,10 +290,11 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
             return Err(ScanError::UnexpectedEOF);
         }
 
-        // Check for either of the quote escapes, skipping them if
-        // found
+        // Check for either of the quote escapes (or an escaped
+        // backslash, which does not escape what follows it),
+        // skipping them if found
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From 730a6b447e7622a1cde925f103cb63d7ab6672db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 16/33] fix: reject escapes which do not encode a code point

---
 src/scanner/scalar/escape.rs | 38 ++++++++++++------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..2da885e 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -99,6 +99,7 @@ pub(in crate::scanner) fn tag_uri_unescape(
 {
     let mut buffer = base;
     let mut codepoint_len: i8 = 0;
+    let start = scratch.len();
 
     while {
         cache!(~buffer, 3, opts)?;
@@ -149,6 +150,13 @@ pub(in crate::scanner) fn tag_uri_unescape(
     }
     {}
 
+    // The octets may still be an overlong encoding, or not encode a
+    // code point
+    if std::str::from_utf8(&scratch[start..]).is_err()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     Ok(base.len() - buffer.len())
 }
 
@@ -176,31 +184,11 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
-    // Bit shift the value into the correct byte configuration
-    // for UTF8
-    match value
-    {
-        // v <= 127 (ASCII)
-        v if v <= 0x7F => scratch.push(v as u8),
-        // v <= 2047
-        v if v <= 0x7FF =>
-        {
-            scratch.extend_from_slice(&[0xC0 | (v >> 6) as u8, 0x80 | (v & 0x3F) as u8])
-        },
-        // v <= 65535
-        v if v <= 0xFFFF => scratch.extend_from_slice(&[
-            0xE0 | (v >> 12) as u8,
-            0x80 | ((v >> 6) & 0x3F) as u8,
-            0x80 | (v & 0x3F) as u8,
-        ]),
-        // Otherwise it must be a full 4 byte code point
-        v => scratch.extend_from_slice(&[
-            0xF0 | (v >> 18) as u8,
-            0x80 | ((v >> 12) & 0x3F) as u8,
-            0x80 | ((v >> 6) & 0x3F) as u8,
-            0x80 | (v & 0x3F) as u8,
-        ]),
-    }
+    // Not every value is a code point: surrogates and anything past
+    // U+10FFFF are not
+    let point = char::from_u32(value).ok_or(ScanError::UnknownEscape)?;
+
+    scratch.extend_from_slice(point.encode_utf8(&mut [0; 4]).as_bytes());
 
     Ok(codepoint_len as usize)
 }
-- 
2.43.0


From 5030de65bb64ac382547044760be6b8d22198ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 17/33] fix: accept verbatim tags

---
 src/event/parser/mod.rs | 6 ++++++
 src/scanner/tag.rs      | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 8852c1b..9146c25 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1275,6 +1275,12 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
 {
     if let Some((handle, suffix)) = tag.as_ref()
     {
+        // A verbatim tag has no handle to look up
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         // A YAML scalar tag may be marked as
         // 'non-resolvable', in which case we skip the
         // checks
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..894894c 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From e92b32420798b4d0b0ca8a25ce9aeb1a27551406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 18/33] fix: allow documents to override the default tag
 handles

---
 src/event/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 9146c25..a5ed351 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1122,7 +1122,9 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    // Note that the defaults are only added once we've seen every
+    // directive, as a document may override them
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From 7f00bd36793b874e4deb0a28cfb8bd31b3bfa942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 19/33] fix: accept node tags at the end of the stream

---
 src/scanner/tag.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 894894c..c8842e0 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -315,9 +315,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 let amt = tag_uri_unescape(opts, buffer, &mut scratch, true)?;
                 advance!(buffer, :stats, amt);
             },
-            // EOF before loop end is an error
-            [] => return Err(ScanError::UnexpectedEOF),
-            // Otherwise we've finished the tag, exit the loop
+            // Otherwise (or at EOF) we've finished the tag, exit the loop
             _ => break,
         }
     }
@@ -379,7 +377,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
             Ok(Some(handle))
         },
         // Else check to see if this could be a primary handle (or non-resolving tag)
-        _ if name.is_empty() && isWhiteSpace!(~buffer, offset) =>
+        _ if name.is_empty() && isWhiteSpaceZ!(~buffer, offset) =>
         {
             let handle = (TagHandle::Primary(&buffer[..1]), 1);
             stats.update(1, 0, 1);
@@ -389,8 +387,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
         // Ambiguous sequence, we cannot determine if this is an error, or a local tag + suffix e.g
         // key: !suffix "value"
         //      ^^^^^^^
-        Some(_) => Ok(None),
-        None => Err(ScanError::UnexpectedEOF),
+        _ => Ok(None),
     }
 }
 
-- 
2.43.0


From 597065d83b0be39cf2a6e6f838501181fc9ac692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 20/33] fix: accept anchors and aliases before any whitespace
 or the end of the stream

---
 src/scanner/anchor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..5e6594c 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -42,10 +42,13 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     // also check against a list of valid starting
     // tokens
     cache!(~buffer, 1, opts)?;
-    check!(~buffer
-        => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-        else ScanError::InvalidAnchorName
-    )?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer
+            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
+            else ScanError::InvalidAnchorName
+        )?;
+    }
 
     let token = match kind
     {
-- 
2.43.0


From a6fa9b81369180af3853a9a3c718d62430067c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 21/33] fix: read whole characters at the end of a chunk

---
 src/reader/owned.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..73c44e6 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -204,6 +204,13 @@ impl Impl
         // Fill the new buffer, checking if .src has been exhausted
         self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
 
+        // The chunk may end inside of a character, in which case we
+        // need the rest of it
+        while !self.exhausted && ends_in_partial_char(&new)
+        {
+            self.exhausted = read_fill(Take::new(&mut self.source, 1), &mut new)?;
+        }
+
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
 
@@ -238,6 +245,13 @@ where
     Ok(amt == 0)
 }
 
+/// Checks if .buf only isn't valid UTF8 because it ends in
+/// the middle of a character
+fn ends_in_partial_char(buf: &[u8]) -> bool
+{
+    std::str::from_utf8(buf).map_or_else(|e| e.error_len().is_none(), |_| false)
+}
+
 struct Take<'a>
 {
     limit: usize,
-- 
2.43.0


From 3331b59f5a04d6f89eceaeb93994102475bbfa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 22/33] fix: do not split a CRLF between two chunks

---
 src/scanner/macros.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/scanner/macros.rs b/src/scanner/macros.rs
index dbf30c1..2ac8abf 100644
--- a/src/scanner/macros.rs
+++ b/src/scanner/macros.rs
@@ -98,6 +98,10 @@ macro_rules! cow {
 /// if O_EXTENDABLE is set in .opts. Returns the number of
 /// _bytes_ read.
 ///
+/// Note that a trailing '\r' is only available once we know
+/// if it is followed by a '\n', as together they are a
+/// single line break.
+///
 /// Modifiers
 ///     ~ .buffer := .buffer.as_bytes()
 ///
@@ -135,6 +139,12 @@ macro_rules! cache {
 
                     break;
                 },
+                1 if $extend && $buffer.get(bytes..) == Some(b"\r".as_slice()) =>
+                {
+                    ret = Err($crate::scanner::error::ScanError::Extend);
+
+                    break;
+                },
                 n =>
                 {
                     bytes += n;
-- 
2.43.0


From e205328c3b0bcb157d370ab0b1b0772ef4dd0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 23/33] fix: reject an alias as the root of a document

---
 src/event/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index a5ed351..437b93c 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -985,8 +985,10 @@ impl Parser
         let mut event;
         let (mut start, mut end, token) = peek!(tokens)?;
 
-        // If the node is an alias, return it
-        if matches!(token, Marker::Alias)
+        // If the node is an alias, return it. Note that an alias
+        // cannot be the root of a document, as there's nothing it
+        // could refer to
+        if matches!(token, Marker::Alias) && kind != NodeKind::Root
         {
             state!(~self, << None);
 
-- 
2.43.0


From e95a75c79281af54b0405be9ae2eb38de98823d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 24/33] fix: end plain scalars at a ':' followed by a flow
 indicator

---
 src/scanner/scalar/plain.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 91497a9..283ff1e 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -121,8 +121,9 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         // namely:
         //
         // ': '                         -> anywhere
+        // ':,' | ':[' | ':]' ...       -> flow context
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -141,7 +142,7 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -312,8 +313,9 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         // namely:
         //
         // ': '                         -> anywhere
+        // ':,' | ':[' | ':]' ...       -> flow context
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -324,7 +326,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 // The indicator itself is enough for _eager to stop at, as
@@ -405,6 +407,14 @@ fn flow_indicator(buffer: &str, offset: usize) -> bool
     check!(~buffer, offset => b',' | b'[' | b']' | b'{' | b'}')
 }
 
+/// Have we hit a value indicator? In flow contexts a ':' is
+/// one when followed by a flow indicator too
+fn value_indicator(buffer: &str, flow_context: bool) -> bool
+{
+    check!(~buffer => b':')
+        && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1))
+}
+
 /// Handles the trap door from borrowing to copying
 fn set_no_borrow(can_borrow: &mut bool, base: &str, buffer: &str, scratch: &mut Vec<u8>)
 {
-- 
2.43.0


From d7de56e4c2041c946c5e67496c98808ab53121f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 25/33] fix: read '?' as text in flow collections unless it
 stands alone

---
 src/scanner/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..4f7da67 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -189,7 +189,9 @@ impl Scanner
             },
 
             // Is it an explicit key?
-            [EXPLICIT_KEY, ..] if self.context.is_flow() || isWhiteSpaceZ!(~base, 1) =>
+            [EXPLICIT_KEY, ..]
+                if isWhiteSpaceZ!(~base, 1)
+                    || self.context.is_flow() && !is_plain_safe_c(*base, 1, false) =>
             {
                 self.fetch_explicit_key(base, tokens)
             },
-- 
2.43.0


From 940cb50d221c774ce7ad769346fa112bdf7fe0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:58 +0000
Subject: [PATCH 26/33] fix: read empty keys anywhere in flow collections

---
 src/event/parser/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 437b93c..1d1bdf7 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -648,9 +648,13 @@ impl Parser
                  *  See:
                  *      yaml.org/spec/1.2.2/#example-flow-mapping-adjacent-values
                  */
-                Marker::Key =>
+                // A value without a key (': value') has an implied, empty key
+                Marker::Key | Marker::Value =>
                 {
-                    pop!(tokens)?;
+                    if let Marker::Key = token
+                    {
+                        pop!(tokens)?;
+                    }
 
                     event =
                         initEvent!(@event FlowMappingStart => (start, end, (NO_ANCHOR, NO_TAG, NodeKind::Entry)))
@@ -843,9 +847,14 @@ impl Parser
             match token
             {
                 // Definitely have a key, determine what kind
-                Marker::Key =>
+                Marker::Key | Marker::Value =>
                 {
-                    let (start, _, token) = pop!(tokens).and_then(|_| peek!(tokens))?;
+                    if let Marker::Key = token
+                    {
+                        pop!(tokens)?;
+                    }
+
+                    let (start, _, token) = peek!(tokens)?;
 
                     /*
                      * If the token is one of these, then we must add an
-- 
2.43.0


From 5a5f92fc39c5fbf3d99c3610c7eb27cc268c1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:58 +0000
Subject: [PATCH 27/33] fix: read flow collections as implicit keys

---
 src/scanner/key.rs | 38 +++++++++++++++++++++++++++++++++-----
 src/scanner/mod.rs |  9 ++++++---
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/scanner/key.rs b/src/scanner/key.rs
index e518402..68837b6 100644
--- a/src/scanner/key.rs
+++ b/src/scanner/key.rs
@@ -79,14 +79,40 @@ use crate::scanner::stats::MStats;
 #[derive(Debug, Clone)]
 pub(in crate::scanner) struct Key
 {
-    save: Option<KeySave>,
+    save:  Option<KeySave>,
+    /// Keys saved outside of the currently open flow
+    /// collections, outermost first
+    outer: Vec<Option<KeySave>>,
 }
 
 impl Key
 {
     pub fn new() -> Self
     {
-        Self { save: None }
+        Self {
+            save:  None,
+            outer: Vec::new(),
+        }
+    }
+
+    /// Put aside any saved key while inside a flow
+    /// collection, which may turn out to be the key
+    pub fn enter(&mut self)
+    {
+        self.outer.push(self.save.take())
+    }
+
+    /// Restore the key saved before the current flow
+    /// collection was entered
+    pub fn exit(&mut self)
+    {
+        self.save = self.outer.pop().flatten()
+    }
+
+    /// Every saved key, regardless of flow level
+    pub fn saved_all(&mut self) -> impl Iterator<Item = &mut KeySave>
+    {
+        self.outer.iter_mut().chain(Some(&mut self.save)).flatten()
     }
 
     /// Save a potential simple key
@@ -106,9 +132,11 @@ impl Key
     /// Is a simple key possible?
     pub fn possible(&self) -> bool
     {
-        self.save
-            .as_ref()
-            .map_or(false, |saved| saved.key().allowed())
+        self.outer
+            .iter()
+            .chain(Some(&self.save))
+            .flatten()
+            .any(|saved| saved.key().allowed())
     }
 
     /// Is a simple key required?
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 4f7da67..30632b0 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -659,14 +659,16 @@ impl Scanner
             false => Token::FlowSequenceStart,
         };
 
+        // A flow collection may be a simple key
+        self.save_key(!REQUIRED)?;
+
         self.context.flow_increment()?;
+        self.key.enter();
 
         advance!(*base, :self.stats, 1);
 
         enqueue!(token, :self.stats => tokens);
 
-        self.save_key(!REQUIRED)?;
-
         // A simple key may start after '[' or '{'
         self.simple_key_allowed = true;
 
@@ -691,6 +693,7 @@ impl Scanner
 
         // Decrease flow level by 1
         self.context.flow_decrement()?;
+        self.key.exit();
 
         // A simple key is not allowed after a ']' or '}'
         self.simple_key_allowed = false;
@@ -785,7 +788,7 @@ impl Scanner
     /// expired, removing it if it has
     fn expire_stale_saved_key(&mut self) -> Result<()>
     {
-        if let Some(ref mut saved) = self.key.saved()
+        for saved in self.key.saved_all()
         {
             let key = saved.key();
             let key_stats = saved.stats();
-- 
2.43.0


From dbd28d1d5a8928d8374336e5b24ec8866db3b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 28/33] fix: end zero indented sequences only at a key of their
 mapping

---
 src/scanner/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 30632b0..c70f7d0 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -140,7 +140,7 @@ impl Scanner
 
         // Handle indentation unrolling
         self.unroll_indent(tokens, self.stats.column)?;
-        self.pop_zero_indent_sequence(*base, tokens)?;
+        self.pop_zero_indent_sequence(opts, *base, tokens)?;
 
         // Is it the end of a stream?
         if base.is_empty() || self.state == StreamState::Done
@@ -823,6 +823,7 @@ impl Scanner
     /// sequences
     fn pop_zero_indent_sequence<'de>(
         &mut self,
+        opts: Flags,
         base: &'de str,
         tokens: &mut Tokens<'de>,
     ) -> Result<()>
@@ -833,14 +834,23 @@ impl Scanner
              * Pop an indentation level if, and only if:
              * 1. Current line != entry's line
              * 2. Current indentation is for a sequence
-             * 3. The next byte sequence is not a block entry
-             * 4. The entry was flagged zero_indented
+             * 3. The entry was flagged zero_indented
+             * 4. We are in the block context, and at the entry's indentation
+             * 5. The next byte sequence is not a block entry
              */
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && self.context.is_block()
+                && entry.indent() == self.stats.column
             {
+                cache!(~base, 2, opts)?;
+
+                if check!(~base => b'-') && isWhiteSpaceZ!(~base, 1)
+                {
+                    return Ok(());
+                }
+
                 let read = self.stats.read;
 
                 self.context.pop_indent(|_| {
-- 
2.43.0


From cabe7e182407a6d4e60c33bca819ae013c391682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 29/33] fix: skip any amount of '...' markers between documents

---
 src/event/parser/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 1d1bdf7..bdd5785 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -238,14 +238,11 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
-        // DocumentEnd tokens ('...')
-        if !implicit
+        // Skip any extra DocumentEnd tokens ('...'), there may be any
+        // amount of them between documents
+        while peek!(~tokens)? == Marker::DocumentEnd
         {
-            while peek!(~tokens)? == Marker::DocumentEnd
-            {
-                pop!(tokens)?;
-            }
+            pop!(tokens)?;
         }
 
         let token = peek!(~tokens)?;
-- 
2.43.0


From 22669f8085bce3a5022b0b4775a601996f11ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:11 +0000
Subject: [PATCH 30/33] fix: read %YAML and %TAG directives from a single line

---
 src/scanner/directive.rs |  6 +++---
 src/scanner/mod.rs       | 22 ++++++++++++++++++++++
 src/scanner/tag.rs       | 10 ++++++++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/scanner/directive.rs b/src/scanner/directive.rs
index 7b822c5..fd5744c 100644
--- a/src/scanner/directive.rs
+++ b/src/scanner/directive.rs
@@ -11,7 +11,7 @@ use super::{
     stats::MStats,
 };
 use crate::{
-    scanner::{eat_whitespace, flag::Flags, tag::scan_tag_directive, COMMENTS},
+    scanner::{eat_blanks, flag::Flags, tag::scan_tag_directive},
     token::Token,
 };
 
@@ -29,7 +29,7 @@ pub(in crate::scanner) fn scan_directive<'de>(
         DirectiveKind::Version =>
         {
             // Chomp any preceding whitespace
-            advance!(*buffer, eat_whitespace(opts, buffer, stats, !COMMENTS)?);
+            advance!(*buffer, eat_blanks(opts, buffer, stats)?);
 
             // %YAML 1.1
             //       ^
@@ -52,7 +52,7 @@ pub(in crate::scanner) fn scan_directive<'de>(
         DirectiveKind::Tag =>
         {
             // Chomp any spaces up to the handle
-            advance!(*buffer, eat_whitespace(opts, buffer, stats, !COMMENTS)?);
+            advance!(*buffer, eat_blanks(opts, buffer, stats)?);
 
             // Scan the directive, copying if necessary
             let (token, amt) = scan_tag_directive(opts, buffer, stats)?;
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c70f7d0..af104b8 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1022,6 +1022,28 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
     Ok(base.len() - buffer.len())
 }
 
+/// Chomp any spaces and tabs until the end of the line or
+/// another character is encountered, returning the amount
+/// chomped
+fn eat_blanks(opts: Flags, base: &str, stats: &mut MStats) -> Result<usize>
+{
+    let mut buffer = base;
+
+    loop
+    {
+        cache!(~buffer, 1, opts)?;
+
+        if !isBlank!(~buffer)
+        {
+            break;
+        }
+
+        advance!(buffer, :stats, 1);
+    }
+
+    Ok(base.len() - buffer.len())
+}
+
 /// Roll the indentation level and push a block collection
 /// indent token to the indent stack if required
 fn roll_indent<'de>(
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index c8842e0..2dca3bb 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -70,7 +70,7 @@
 
 use crate::{
     scanner::{
-        eat_whitespace,
+        eat_blanks,
         error::{ScanError, ScanResult as Result},
         flag::Flags,
         scalar::escape::tag_uri_unescape,
@@ -111,12 +111,18 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
     isBlank!(~buffer, else ScanError::InvalidTagPrefix)?;
 
     // Chomp whitespace to prefix
-    advance!(buffer, eat_whitespace(opts, buffer, stats, false)?);
+    advance!(buffer, eat_blanks(opts, buffer, stats)?);
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
     let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
 
+    // The prefix cannot be empty
+    if prefix.is_empty()
+    {
+        return Err(ScanError::InvalidTagPrefix);
+    }
+
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
     // Check there is whitespace or a newline after the tag
-- 
2.43.0


From 1420a5f568cc1fc55e29b2b41552e3780a7a2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 31/33] fix: reject tags without a suffix

---
 src/scanner/tag.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 2dca3bb..0fb3193 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -192,6 +192,13 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
         //   ^^^^^^^^^^^^^^^^^^^^
         let (verbatim, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
+        // !<>
+        //   ^ There must be a tag between the brackets
+        if verbatim.is_empty()
+        {
+            return Err(ScanError::InvalidTagSuffix);
+        }
+
         // !<global:verbatim:tag:> "node"
         //                       ^
         cache!(~buffer, @amt, 1, opts)?;
@@ -222,6 +229,12 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
                 //   ^^^^^^                  ^^^^^^
                 let (suffix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
 
+                // Only a lone '!' may lack a suffix
+                if suffix.is_empty()
+                {
+                    return Err(ScanError::InvalidTagSuffix);
+                }
+
                 let token = assemble_tag(h, suffix, can_borrow);
 
                 (token, amt)
-- 
2.43.0


From bb97a1d485e0918866f462c0611428346ac26ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:04 +0000
Subject: [PATCH 32/33] fix: report unbalanced ']' and '}' as syntax errors

---
 src/scanner/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index af104b8..cb93e97 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -688,6 +688,12 @@ impl Scanner
             false => Token::FlowSequenceEnd,
         };
 
+        // There must be a flow collection to end
+        if self.context.is_block()
+        {
+            return Err(ScanError::UnknownDelimiter);
+        }
+
         // Reset saved key
         self.remove_saved_key()?;
 
-- 
2.43.0


From fb710b975319d9882cb6c5ed0a6d0b35cf0b540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 33/33] fix: line breaks inside flow collections do not start
 keys

---
 src/scanner/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index cb93e97..290e27e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -956,10 +956,7 @@ impl Scanner
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
-        //
-        // FIXME: we don't track flow/block contexts yet, add check
-        // here when we do
-        if stats.lines != 0
+        if stats.lines != 0 && self.context.is_block()
         {
             self.simple_key_allowed = true;
         }
-- 
2.43.0

