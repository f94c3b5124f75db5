From d08f173e5b93c467f9528af5bbd3773607f8015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 1/7] fix: treat brackets inside a value as value text, not as
 an array header

---
 src/decode/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..a51c2d4 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -57,6 +57,11 @@ pub fn parse_array_header_line(
         return Ok(None);
     };
 
+    // A bracket after the key's colon belongs to the value, not to a header.
+    if find_unquoted_char(content, COLON, 0).is_some_and(|colon| colon < bracket_start) {
+        return Ok(None);
+    }
+
     let Some(bracket_end) = content[bracket_start..].find(CLOSE_BRACKET) else {
         return Ok(None);
     };
-- 
2.43.0


From c4d3d68178bf34a860784c48a593041ae1e0d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 2/7] fix: find the end of a header's field list outside quoted
 field names

---
 src/decode/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index a51c2d4..8d6100d 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -75,11 +75,16 @@ pub fn parse_array_header_line(
         .find(COLON)
         .map(|idx| bracket_end + 1 + idx);
 
+    // A quoted field name may itself contain a closing brace.
+    let brace_close = brace_start.and_then(|start| {
+        find_unquoted_char(content, CLOSE_BRACE, start)
+            .or_else(|| content[start..].find(CLOSE_BRACE).map(|idx| start + idx))
+    });
+
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = brace_close
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -119,9 +124,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = brace_close
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
-- 
2.43.0


From 40c11785cf92c88587f2cccfb82b33375c4624fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 3/7] fix: count a bare hyphen as an extra list item in strict
 mode

---
 src/decode/validation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 30e0ffe..301c193 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -1,7 +1,7 @@
 use crate::decode::parser::ArrayHeaderInfo;
 use crate::decode::scanner::{BlankLineInfo, Depth, ParsedLine};
 use crate::error::{Result, ToonError};
-use crate::shared::constants::{COLON, LIST_ITEM_PREFIX};
+use crate::shared::constants::{COLON, LIST_ITEM_MARKER, LIST_ITEM_PREFIX};
 use crate::shared::string_utils::find_unquoted_char;
 
 /// Assert the expected count in strict mode.
@@ -37,7 +37,7 @@ pub fn validate_no_extra_list_items(
     if strict
         && let Some(line) = next_line
         && line.depth == item_depth
-        && line.content.starts_with(LIST_ITEM_PREFIX)
+        && (line.content.starts_with(LIST_ITEM_PREFIX) || line.content == LIST_ITEM_MARKER)
     {
         return Err(ToonError::message(format!(
             "Expected {expected_count} list array items, but found more"
-- 
2.43.0


From 9bdcbd6a1bf75cc00454242a1fe98b9be6921392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 4/7] fix: report write errors that only surface when the
 output file is flushed

---
 src/cli/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..818ae0d 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,9 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +207,9 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From 412a3a840b4c29b353f5ba01c3d13d0ce812f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 5/7] fix: make the async decode stream yield the same events
 as the batch decoder

---
 src/decode/async_decode.rs | 76 +++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..cfcbf54 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -82,8 +82,10 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     state: DecoderState,
     /// Stack of object depths for tracking nested structures
     context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
-    line_buffer: Vec<ParsedLine>,
+    /// Every raw line read so far, kept for batch processing (arrays, nesting)
+    raw_lines: Vec<String>,
+    /// Number of events queued incrementally, which batch processing must not repeat
+    queued_events: usize,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
     /// Error encountered during processing
@@ -103,7 +105,8 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
             context_stack: Vec::new(),
-            line_buffer: Vec::new(),
+            raw_lines: Vec::new(),
+            queued_events: 0,
             lines_exhausted: false,
             error: None,
             last_depth: None,
@@ -152,6 +155,7 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         let indent_size = self.indent_size();
         let strict = self.strict();
         let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
+        self.raw_lines.push(raw_line);
 
         // Skip blank lines
         let Some(line) = parsed else {
@@ -164,12 +168,8 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             DecoderState::SimpleObject { base_depth } => {
                 self.process_simple_object_line(line, base_depth)
             }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
-                self.line_buffer.push(line);
-                Ok(None)
-            }
-            DecoderState::Finished => Ok(None),
+            // In array mode, lines are only kept for batch processing
+            DecoderState::ArrayMode | DecoderState::Finished => Ok(None),
         }
     }
 
@@ -181,7 +181,6 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         {
             // Array at root - need batch processing
             self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
             return Ok(None);
         }
 
@@ -191,16 +190,15 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             self.state = DecoderState::SimpleObject { base_depth: 0 };
             self.context_stack.push(0);
             self.event_queue.push_back(JsonStreamEvent::StartObject);
+            self.queued_events += 1;
             self.process_key_value_line(&line)?;
             self.last_depth = Some(depth);
             return Ok(self.event_queue.pop_front());
         }
 
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
+        // Single primitive value, unless more lines follow
+        self.state = DecoderState::ArrayMode;
+        Ok(None)
     }
 
     /// Process a line in simple object mode
@@ -227,13 +225,18 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             }
         }
 
+        // Only top-level fields are emitted incrementally
+        if current_depth != base_depth {
+            self.state = DecoderState::ArrayMode;
+            return Ok(self.event_queue.pop_front());
+        }
+
         // Check if this line starts an array
         if is_array_header_content(&line.content)
             && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
         {
             // Switch to array mode for batch processing
             self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
             // Return any pending EndObject events first
             return Ok(self.event_queue.pop_front());
         }
@@ -253,7 +256,12 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         if content.starts_with(LIST_ITEM_PREFIX) {
             // List items indicate we need batch processing for proper array handling
             self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
+            return Ok(());
+        }
+
+        // A keyed array header needs batch processing
+        if parse_array_header_line(content, DEFAULT_DELIMITER)?.is_some() {
+            self.state = DecoderState::ArrayMode;
             return Ok(());
         }
 
@@ -266,18 +274,18 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             // We can't know yet if it's an array or object, so switch to batch mode
             // This ensures correct Start{Array,Object} emission
             self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
             return Ok(());
         }
 
         // Key with inline value - can emit incrementally
+        let value = parse_primitive_token(rest)?;
         self.event_queue.push_back(JsonStreamEvent::Key {
             key,
             was_quoted: is_quoted,
         });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
+        self.event_queue
+            .push_back(JsonStreamEvent::Primitive { value });
+        self.queued_events += 2;
 
         Ok(())
     }
@@ -306,7 +314,7 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
     /// Finalize decoding when all lines are read
     fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
         // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
+        if self.state == DecoderState::ArrayMode {
             return self.batch_decode_remaining();
         }
 
@@ -333,15 +341,12 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         let indent_size = self.indent_size();
         let strict = self.strict();
         for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
-            }
+            parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
+            self.raw_lines.push(raw_line);
         }
 
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
+        // Use sync decoder on the whole document
+        let raw_lines = std::mem::take(&mut self.raw_lines);
 
         let events = decoder_impl::decode_stream_sync(
             raw_lines,
@@ -351,9 +356,9 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             }),
         )?;
 
-        // Queue all events
-        self.event_queue.extend(events);
-        self.line_buffer.clear();
+        // Queue the events that have not been queued incrementally
+        self.event_queue
+            .extend(events.into_iter().skip(self.queued_events));
         self.context_stack.clear();
         self.state = DecoderState::Finished;
 
@@ -376,7 +381,12 @@ impl<I: Iterator<Item = String> + Unpin> Stream for AsyncDecodeStream<I> {
                     }
                     // Not done yet, continue processing
                 }
-                Err(e) => return Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    // Nothing follows an error
+                    self.event_queue.clear();
+                    self.state = DecoderState::Finished;
+                    return Poll::Ready(Some(Err(e)));
+                }
             }
         }
     }
-- 
2.43.0


From e5c2762478906a2a7de4551affe9789cab1dbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 6/7] fix: bound container nesting while decoding so deep
 documents are an error, not a stack overflow

---
 src/decode/decoders.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..33a4e9b 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -15,10 +15,32 @@ use crate::options::DecodeStreamOptions;
 use crate::shared::constants::{COLON, DEFAULT_DELIMITER, LIST_ITEM_MARKER, LIST_ITEM_PREFIX};
 use crate::shared::string_utils::find_closing_quote;
 
+/// Hard cap on container nesting. Protects against stack overflow on
+/// pathologically nested TOON inputs, here and in every consumer of the
+/// resulting events or value.
+const MAX_NESTING_DEPTH: usize = 1000;
+
 #[derive(Debug, Clone, Copy)]
 pub struct DecoderContext {
     pub indent: usize,
     pub strict: bool,
+    /// Number of containers currently open
+    depth: usize,
+}
+
+impl DecoderContext {
+    /// The context inside one more container.
+    fn nested(self) -> Result<Self> {
+        if self.depth >= MAX_NESTING_DEPTH {
+            return Err(ToonError::message(format!(
+                "Document nesting exceeded maximum depth of {MAX_NESTING_DEPTH}"
+            )));
+        }
+        Ok(Self {
+            depth: self.depth + 1,
+            ..self
+        })
+    }
 }
 
 /// Decode TOON input into a stream of JSON events.
@@ -38,6 +60,7 @@ pub fn decode_stream_sync(
     let context = DecoderContext {
         indent: options.indent.unwrap_or(2),
         strict: options.strict.unwrap_or(true),
+        depth: 0,
     };
 
     let mut scan_state = create_scan_state();
@@ -143,6 +166,7 @@ fn decode_object_fields_sync(
     base_depth: Depth,
     options: DecoderContext,
 ) -> Result<()> {
+    let options = options.nested()?;
     let mut computed_depth: Option<Depth> = None;
 
     while !cursor.at_end_sync() {
@@ -304,6 +328,7 @@ fn decode_list_array_sync(
     base_depth: Depth,
     options: DecoderContext,
 ) -> Result<()> {
+    let options = options.nested()?;
     let item_depth = base_depth + 1;
     let mut item_count = 0usize;
     let mut start_line: Option<usize> = None;
@@ -407,6 +432,7 @@ fn decode_list_item_sync(
         && header_info.header.key.is_some()
         && header_info.header.fields.is_some()
     {
+        let options = options.nested()?;
         let header = header_info.header;
         events.push(JsonStreamEvent::StartObject);
         events.push(JsonStreamEvent::Key {
@@ -446,6 +472,7 @@ fn decode_list_item_sync(
     }
 
     if is_key_value_content(&after_hyphen) {
+        let options = options.nested()?;
         events.push(JsonStreamEvent::StartObject);
         decode_key_value_sync(events, &after_hyphen, cursor, base_depth + 1, options)?;
 
-- 
2.43.0


From e19d962333b9c3b647240c762faa1a7a61f0b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 7/7] fix: keep the first field of a list item a sibling when
 folding keys

An object in a list wrote its first field on the hyphen's line and folded
the others without looking at it, so a chain a: {b: ...} after a first
field "a.b" was written under that same key.
---
 src/encode/encoders.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 210720d..85dcb1a 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -365,13 +365,7 @@ fn encode_object_as_list_item_lines(
         return;
     }
 
-    let first = obj[0].clone();
-    let rest = if obj.len() > 1 {
-        obj[1..].to_vec()
-    } else {
-        Vec::new()
-    };
-    let (first_key, first_value) = first;
+    let (first_key, first_value) = obj[0].clone();
 
     if let JsonValue::Array(items) = &first_value
         && is_array_of_objects(items)
@@ -385,9 +379,7 @@ fn encode_object_as_list_item_lines(
         );
         out.push(indented_list_item(depth, &formatted, options.indent));
         write_tabular_rows_lines(items, &header, depth + 2, options, out);
-        if !rest.is_empty() {
-            encode_object_lines(&rest, depth + 1, options, None, None, None, out);
-        }
+        encode_fields_after_first_lines(obj, depth + 1, options, out);
         return;
     }
 
@@ -445,8 +437,30 @@ fn encode_object_as_list_item_lines(
         }
     }
 
-    if !rest.is_empty() {
-        encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+    encode_fields_after_first_lines(obj, depth + 1, options, out);
+}
+
+/// Encode the fields that follow the first one of an object in a list. The
+/// first field is still a sibling that no folded key may collide with.
+fn encode_fields_after_first_lines(
+    obj: &JsonObject,
+    depth: usize,
+    options: &ResolvedEncodeOptions,
+    out: &mut Vec<String>,
+) {
+    let keys: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
+    for (key, value) in obj.iter().skip(1) {
+        encode_key_value_pair_lines(
+            key,
+            value,
+            depth,
+            options,
+            &keys,
+            None,
+            None,
+            options.flatten_depth,
+            out,
+        );
     }
 }
 
-- 
2.43.0

