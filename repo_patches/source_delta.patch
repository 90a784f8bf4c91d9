From eb3530761efed11de39aaf2588629dc12b8826b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 01/20] fix: reader: consume UTF-16 input by bytes, and accept
 unpaired surrogates without asserting

---
 src/reader.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..3c474c2 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -174,10 +174,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
     for ch in core::char::decode_utf16(chunks) {
         match ch {
             Ok(ch) => {
-                push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
-                *offset += n;
-                used += n;
+                push_char(out, ch, *offset + used)?;
+                used += 2 * ch.len_utf16();
             }
             Err(_) => {
                 // An unpaired surrogate may either be a corrupt stream, but it
@@ -196,7 +194,6 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From edec6acc6832c1515e80e907cc70463032037af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 02/20] fix: reader: reject a lone low surrogate without
 reading past it

---
 src/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 3c474c2..36136f1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -212,6 +212,11 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
         u16::from_le_bytes(buffer)
     };
 
+    if matches!(first, 0xDC00..=0xDFFF) {
+        // A low surrogate cannot begin a character.
+        return Err(Error::reader("invalid UTF-16", *offset, first as _));
+    }
+
     if is_utf16_surrogate(first) {
         reader.read_exact(&mut buffer)?;
         let second = if BIG_ENDIAN {
-- 
2.43.0


From 170c5d5a21691dbfb2778b0c23af59c70f1320fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 03/20] fix: reader: accept input starting with byte 0xEF that
 is no byte order mark, and retry interrupted reads; report empty input as
 UTF-8

---
 src/reader.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 36136f1..8cde3f3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,29 +4,32 @@ use alloc::collections::VecDeque;
 
 use crate::{Encoding, Error, Result, scanner::Scanner};
 
-const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
+    let initial = loop {
+        match reader.fill_buf() {
+            Ok([]) => return Ok(None),
+            Ok(available) => break available[0],
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
 
-    match initial_bytes[0] {
+    match initial {
         0xef => {
-            let mut bom = [0; 3];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            // Either a byte order mark, or another character that happens to
+            // start with the same byte.
+            read_utf8_char_unbuffered(reader, out, initial, offset)?;
+            if out.back() == Some(&'\u{feff}') {
+                out.pop_back();
             }
+            Ok(Some(Encoding::Utf8))
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
@@ -297,9 +300,12 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) =
+            yaml_parser_determine_encoding(reader, &mut parser.buffer, &mut parser.offset)?
+        {
             parser.encoding = encoding;
         } else {
+            parser.encoding = Encoding::Utf8;
             parser.eof = true;
             return Ok(());
         }
-- 
2.43.0


From 23f15ec2d1dd834d995ce3c7163e724517ba90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 04/20] fix: reader: report a decoding error only where the
 input is needed, however it is buffered

---
 src/reader.rs | 107 +++++++++++++++++++++++++++++---------------------
 1 file changed, 62 insertions(+), 45 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8cde3f3..3ebb20a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -69,12 +69,8 @@ fn read_utf8_buffered(
 
     match core::str::from_utf8(available) {
         Ok(valid) => {
-            let used = valid.len();
             // The entire contents of the input buffer was valid UTF-8.
-            for ch in valid.chars() {
-                push_char(out, ch, *offset)?;
-                *offset += ch.len_utf8();
-            }
+            let used = push_str(out, valid, offset)?;
             reader.consume(used);
             Ok(true)
         }
@@ -87,41 +83,53 @@ fn read_utf8_buffered(
                 // SAFETY: This is safe because of `valid_up_to()`.
                 core::str::from_utf8_unchecked(&available[..valid_bytes])
             };
-            for ch in valid.chars() {
-                push_char(out, ch, *offset)?;
-                *offset += ch.len_utf8();
+            if valid_bytes != 0 {
+                // Some valid UTF-8 characters were present, and the tail end of
+                // the buffer was an incomplete or invalid sequence. Leave that
+                // sequence in the buffer, so that an error is only reported
+                // once the invalid character is actually needed.
+                let used = push_str(out, valid, offset)?;
+                reader.consume(used);
+                return Ok(true);
             }
 
             match err.error_len() {
-                Some(_invalid_len) => Err(Error::reader(
-                    "invalid UTF-8",
-                    *offset,
-                    available[valid_bytes] as _,
-                )),
+                Some(_invalid_len) => {
+                    Err(Error::reader("invalid UTF-8", *offset, available[0] as _))
+                }
                 None => {
-                    if valid_bytes != 0 {
-                        // Some valid UTF-8 characters were present, and the
-                        // tail end of the buffer was an incomplete sequence.
-                        // Leave the incomplete sequence in the buffer.
-                        reader.consume(valid_bytes);
-                        Ok(true)
-                    } else {
-                        // The beginning of the buffer was an incomplete UTF-8
-                        // sequence. Read the whole character unbuffered.
-                        //
-                        // This will return `UnexpectedEof` if the sequence
-                        // cannot be completed. Note that `read_exact()` handles
-                        // interrupt automatically.
-                        let initial = available[0];
-                        read_utf8_char_unbuffered(reader, out, initial, offset)?;
-                        Ok(true)
-                    }
+                    // The beginning of the buffer was an incomplete UTF-8
+                    // sequence. Read the whole character unbuffered.
+                    //
+                    // This will return `UnexpectedEof` if the sequence cannot
+                    // be completed. Note that `read_exact()` handles interrupt
+                    // automatically.
+                    let initial = available[0];
+                    read_utf8_char_unbuffered(reader, out, initial, offset)?;
+                    Ok(true)
                 }
             }
         }
     }
 }
 
+/// Append the characters of `valid` up to the first disallowed one, and return
+/// their length in bytes. Fails if the very first character is not allowed.
+fn push_str(out: &mut VecDeque<char>, valid: &str, offset: &mut usize) -> Result<usize> {
+    let mut used = 0;
+    for ch in valid.chars() {
+        match push_char(out, ch, *offset) {
+            Ok(()) => {
+                *offset += ch.len_utf8();
+                used += ch.len_utf8();
+            }
+            Err(_) if used != 0 => break,
+            Err(err) => return Err(err),
+        }
+    }
+    Ok(used)
+}
+
 fn read_utf8_char_unbuffered(
     reader: &mut dyn BufRead,
     out: &mut VecDeque<char>,
@@ -130,21 +138,26 @@ fn read_utf8_char_unbuffered(
 ) -> Result<()> {
     let width = utf8_char_width(initial);
     let mut buffer = [0; 4];
-    reader.read_exact(&mut buffer[..width])?;
-    if let Ok(valid) = core::str::from_utf8(&buffer[..width]) {
-        // We read a whole, valid character.
-        let ch = match valid.chars().next() {
-            Some(ch) => ch,
-            None => unreachable!(),
-        };
-        push_char(out, ch, *offset)?;
-        *offset += width;
-        Ok(())
-    } else {
-        // Since we read the exact character width, the only
-        // possible error here is invalid Unicode.
-        Err(Error::reader("invalid UTF-8", *offset, buffer[0] as _))
+    for i in 0..width {
+        // Read byte by byte, so that an invalid sequence is recognized as such
+        // even if the input ends before the full width of the character.
+        reader.read_exact(&mut buffer[i..=i])?;
+        match core::str::from_utf8(&buffer[..=i]) {
+            Ok(valid) => {
+                // We read a whole, valid character.
+                let ch = match valid.chars().next() {
+                    Some(ch) => ch,
+                    None => unreachable!(),
+                };
+                push_char(out, ch, *offset)?;
+                *offset += width;
+                return Ok(());
+            }
+            Err(err) if err.error_len().is_some() => break,
+            Err(_) => (),
+        }
     }
+    Err(Error::reader("invalid UTF-8", *offset, buffer[0] as _))
 }
 
 fn read_utf16_buffered<const BIG_ENDIAN: bool>(
@@ -177,7 +190,11 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
     for ch in core::char::decode_utf16(chunks) {
         match ch {
             Ok(ch) => {
-                push_char(out, ch, *offset + used)?;
+                match push_char(out, ch, *offset + used) {
+                    Ok(()) => (),
+                    Err(_) if used != 0 => break,
+                    Err(err) => return Err(err),
+                }
                 used += 2 * ch.len_utf16();
             }
             Err(_) => {
-- 
2.43.0


From 2ee1c8a599a08a50d444c20d4a6837ffb32c845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 05/20] fix: scanner: accept a block scalar whose last line is
 ended by the end of input

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..66a1f0b 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -163,7 +163,8 @@ impl<R: BufRead> Scanner<R> {
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            // There is no line break to read at the end of the input.
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From 078d4701ffd652deeb7f882dc52f5db3484d880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 06/20] fix: scanner: report an error for an escape cut off by
 the end of input

---
 src/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 66a1f0b..8e5a2a6 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1539,7 +1539,9 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        // At the end of the input there is nothing to escape,
+                        // which is reported as an unknown escape character.
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From 620643c5329e1d6778523a6a3543dce6c2d1505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 07/20] fix: scanner: accept a tag followed by a comma in a
 flow collection

---
 src/scanner.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 8e5a2a6..7178178 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1102,15 +1102,13 @@ impl<R: BufRead> Scanner<R> {
         }
 
         self.cache(1)?;
-        if !IS_BLANKZ!(self.buffer) {
-            if self.flow_level == 0 || !CHECK!(self.buffer, ',') {
-                return self.set_scanner_error(
-                    "while scanning a tag",
-                    start_mark,
-                    "did not find expected whitespace or line break",
-                );
-            }
-            panic!("TODO: What is expected here?");
+        // Inside a flow collection, a tag may also be ended by a comma.
+        if !IS_BLANKZ!(self.buffer) && (self.flow_level == 0 || !CHECK!(self.buffer, ',')) {
+            return self.set_scanner_error(
+                "while scanning a tag",
+                start_mark,
+                "did not find expected whitespace or line break",
+            );
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From 6cf5029dd60c0a1afdf7af2e3e00753ddaa84335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 08/20] fix: scanner: decode percent escapes in tags as UTF-8

---
 src/scanner.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 7178178..63eff11 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1224,7 +1224,9 @@ impl<R: BufRead> Scanner<R> {
         start_mark: Mark,
         string: &mut String,
     ) -> Result<()> {
-        let mut width: i32 = 0;
+        let mut width: usize = 0;
+        let mut length: usize = 0;
+        let mut octets = [0u8; 4];
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1254,7 +1256,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1277,16 +1278,30 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets[length] = octet;
+            length += 1;
             self.skip_char();
             self.skip_char();
             self.skip_char();
-            width -= 1;
-            if width == 0 {
+            if length == width {
                 break;
             }
         }
-        Ok(())
+        match core::str::from_utf8(&octets[..length]) {
+            Ok(decoded) => {
+                string.push_str(decoded);
+                Ok(())
+            }
+            Err(_) => self.set_scanner_error(
+                if directive {
+                    "while parsing a %TAG directive"
+                } else {
+                    "while parsing a tag"
+                },
+                start_mark,
+                "found an invalid UTF-8 sequence",
+            ),
+        }
     }
 
     fn scan_block_scalar(&mut self, literal: bool) -> Result<Token> {
-- 
2.43.0


From acf4ead8ecc024dc6d10d4be1527b3aca21f8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 09/20] fix: scanner: count the simple key limit in characters,
 not bytes

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 63eff11..a02b087 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -417,7 +417,7 @@ impl<R: BufRead> Scanner<R> {
         for simple_key in &mut self.simple_keys {
             let mark = simple_key.mark;
             if simple_key.possible
-                && (mark.line < self.mark.line || mark.index + 1024 < self.mark.index)
+                && (mark.line < self.mark.line || mark.column + 1024 < self.mark.column)
             {
                 if simple_key.required {
                     return self.set_scanner_error(
-- 
2.43.0


From 79e35a4d6f7feac6b44b1cd08ec513a4799aeff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 10/20] fix: parser: produce no further events after an error

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..e0ff153 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // The state is not recoverable, so nothing more can be produced.
+            self.inner.state = ParserState::End;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
-- 
2.43.0


From c3f252f0d4cf84a165bc96d39c3c5323f0ef3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 11/20] fix: document: return None for node numbers below one

---
 src/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..dd4a17f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -108,14 +108,14 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        self.nodes.get_mut(usize::try_from(index).ok()?.checked_sub(1)?)
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        self.nodes.get(usize::try_from(index).ok()?.checked_sub(1)?)
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From 5831ae82eaee9deb6c7225e183da630847be672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 12/20] fix: document: loading after an error reports the end
 instead of panicking

---
 src/document.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index dd4a17f..39e205b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,8 +2,8 @@ use std::io::BufRead;
 
 use crate::{
     AliasData, Anchors, DEFAULT_MAPPING_TAG, DEFAULT_SCALAR_TAG, DEFAULT_SEQUENCE_TAG, Emitter,
-    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, Result, ScalarStyle,
-    SequenceStyle, TagDirective, VersionDirective,
+    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, ParserState, Result,
+    ScalarStyle, SequenceStyle, TagDirective, VersionDirective,
 };
 
 /// The document structure.
@@ -252,7 +252,7 @@ impl Document {
         let mut document = Document::new(None, &[], false, false);
         document.nodes.reserve(16);
 
-        if !parser.scanner.stream_start_produced {
+        if parser.inner.state == ParserState::StreamStart {
             match parser.parse() {
                 Ok(Event {
                     data: EventData::StreamStart { .. },
@@ -265,7 +265,7 @@ impl Document {
                 }
             }
         }
-        if parser.scanner.stream_end_produced {
+        if parser.scanner.stream_end_produced || parser.inner.state == ParserState::End {
             return Ok(document);
         }
         let err: Error;
@@ -286,6 +286,8 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        // The rest of a document that could not be composed cannot be loaded.
+        parser.inner.state = ParserState::End;
         Err(err)
     }
 
-- 
2.43.0


From ecde23b89f8bd1ac9b69d7e0d9e6642427ce771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 13/20] fix: document: find shared nodes at any depth when
 dumping

---
 src/document.rs | 6 +++---
 src/emitter.rs  | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 39e205b..6a1b806 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -608,13 +608,13 @@ impl Document {
             match &node.data {
                 NodeData::Sequence { items, .. } => {
                     for item in items {
-                        emitter.anchor_node_sub(*item);
+                        self.anchor_node(emitter, *item);
                     }
                 }
                 NodeData::Mapping { pairs, .. } => {
                     for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                        self.anchor_node(emitter, pair.key);
+                        self.anchor_node(emitter, pair.value);
                     }
                 }
                 _ => {}
diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..fc6bb6e 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1816,14 +1816,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From f53c303cb523f0340c4ed21f083c1fb5b72c6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 14/20] fix: parser: an implicit document start is empty, as in
 libyaml

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e0ff153..3f9774b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -284,7 +284,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
-- 
2.43.0


From 37622b8723a51a2f51e62fe776c41ff4a745bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 15/20] fix: parser: collection ends that have no token of
 their own are empty, as in libyaml

---
 src/parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3f9774b..a3a1382 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -637,7 +637,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
@@ -808,12 +808,11 @@ impl<R: BufRead> Parser<R> {
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
         let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
             start_mark,
-            end_mark,
+            end_mark: start_mark,
         })
     }
 
-- 
2.43.0


From 46c0702c2eb2518cad92444128a40f4768b83560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 16/20] fix: emitter: look at the first character of the next
 line when folding

---
 src/emitter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index fc6bb6e..35b2e5b 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1734,9 +1734,8 @@ impl<'w> Emitter<'w> {
         while let Some(ch) = chars.next() {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
-                    let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    let following = chars.clone().find(|ch| !is_break(*ch));
+                    if !is_blankz(following) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From 6758db43de60264d75e30295fc0c80ce3aa5203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 17/20] fix: emitter: the byte order mark is U+FEFF

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From 5549fa9ab3f2b4c8ad38b1c9c74af90422948af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 18/20] fix: emitter: compare tag prefixes without slicing
 inside a character

---
 src/emitter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 35b2e5b..f877ed9 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1129,11 +1129,13 @@ impl<'w> Emitter<'w> {
         let mut suffix = tag;
 
         for tag_directive in tag_directives {
-            let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
-                handle = &tag_directive.handle;
-                suffix = &tag[prefix_len..];
-                break;
+            match tag.strip_prefix(tag_directive.prefix.as_str()) {
+                Some(rest) if !rest.is_empty() => {
+                    handle = &tag_directive.handle;
+                    suffix = rest;
+                    break;
+                }
+                _ => {}
             }
         }
 
-- 
2.43.0


From 36e56515183d8f077b187a2dc1709a2d69980438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 19/20] fix: emitter: tag directives end with their document,
 and survive an error

---
 src/emitter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index f877ed9..e3b645a 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -304,14 +304,19 @@ impl<'w> Emitter<'w> {
         while let Some(event) = self.needs_mode_events() {
             let tag_directives = core::mem::take(&mut self.tag_directives);
 
-            let mut analysis = self.analyze_event(&event, &tag_directives)?;
-            self.state_machine(&event, &mut analysis)?;
+            let result = match self.analyze_event(&event, &tag_directives) {
+                Ok(mut analysis) => self.state_machine(&event, &mut analysis),
+                Err(err) => Err(err),
+            };
 
             // The DOCUMENT-START event populates the tag directives, and this
-            // happens only once, so don't swap out the tags in that case.
-            if self.tag_directives.is_empty() {
+            // happens only once, so don't swap out the tags in that case. The
+            // end of a document (after which another one is expected) discards
+            // them.
+            if self.tag_directives.is_empty() && self.state != EmitterState::DocumentStart {
                 self.tag_directives = tag_directives;
             }
+            result?;
         }
         Ok(())
     }
-- 
2.43.0


From d948b93e26c954b8894df7bef27c217c7c209938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 20/20] fix: count the UTF-16 byte order mark in reader error
 offsets

An error in UTF-16 input with a byte order mark was reported two bytes
before its place, unlike in UTF-8 input and in libyaml.
---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 3ebb20a..b061b73 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -35,8 +35,10 @@ fn yaml_parser_determine_encoding(
             let mut bom = [0; 2];
             reader.read_exact(&mut bom)?;
             if bom == BOM_UTF16LE {
+                *offset += 2;
                 Ok(Some(Encoding::Utf16Le))
             } else if bom == BOM_UTF16BE {
+                *offset += 2;
                 Ok(Some(Encoding::Utf16Be))
             } else {
                 Err(Error::reader(
-- 
2.43.0

