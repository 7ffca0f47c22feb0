From 3023bcb68ae4c80309a1d8a2c068d8a0fae363d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 01/16] fix: Struct::with and Tuple::with require the item to
 be closed

---
 core/src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..c5a7c15 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -405,7 +405,7 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Struct::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
@@ -489,7 +489,7 @@ impl<'a, O: Outliner + ?Sized> Tuple<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Tuple::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
-- 
2.43.0


From d4e67cf82eb8ba23988d647a770a71cda190ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 02/16] fix: a consumed Value refuses get_tag and raw access

---
 core/src/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index c5a7c15..f2b6aa5 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -34,6 +34,7 @@ impl<'a, O: Outliner + ?Sized> Value<'a, O> {
 
     /// Gets an immutable reference to the underlying [`Outliner`] for this  [`Value`].
     pub fn as_raw(&self) -> &O {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         self.source
     }
 
@@ -42,6 +43,7 @@ impl<'a, O: Outliner + ?Sized> Value<'a, O> {
     /// should be set to `true` when the value at the top of the stack has been popped, and no
     /// lower stack items should be affected.
     pub fn into_raw(self) -> (&'a mut O, &'a mut bool) {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         (self.source, self.done_flag)
     }
 
@@ -341,6 +343,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
-- 
2.43.0


From 17047049dbc39577e8d994176de07c144934a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 03/16] fix: List::next keeps track of the remaining length

---
 core/src/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index f2b6aa5..4774228 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -585,8 +585,11 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            assert!(!self.is_len_known || self.rem_len > 0, "{}", LIST_OVERFLOW_ERROR);
+            self.rem_len = self.rem_len.wrapping_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
+            assert!(!self.is_len_known || self.rem_len == 0, "{}", LIST_UNDERFLOW_ERROR);
             *self.done_flag = true;
             None
         })
-- 
2.43.0


From 22fcefe51fe4b3c91949701b932b3d4bc3fb1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 04/16] fix: to_writer checks that exactly one value was
 written

---
 json/src/serialize/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/src/serialize/mod.rs b/json/src/serialize/mod.rs
index cae5d35..fb5e807 100644
--- a/json/src/serialize/mod.rs
+++ b/json/src/serialize/mod.rs
@@ -49,9 +49,7 @@ pub fn to_writer_using<
     context: &mut Ctx,
 ) -> Result<(), Writer::Error> {
     let mut s = TextSerializer::new(TextSerializerConfig::default(), writer);
-    let mut done_flag = false;
-    value.serialize(Value::new(&mut s, &mut done_flag), context)?;
-    Ok(())
+    Value::with(&mut s, |target| value.serialize(target, context))
 }
 
 /// Serializes a value of type `T` as a JSON string.
-- 
2.43.0


From 82c607d5650e97b4a7ad54d12de8843dbfc13dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 05/16] fix: support unicode escape sequences in strings

---
 json/src/deserialize/text.rs | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..ed89a0e 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1656,12 +1656,50 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => return self.read_unicode_escape(pos),
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads the remainder of a unicode escape sequence (which began at `pos`), following the `u`.
+    /// Characters outside the basic multilingual plane are given by a pair of escape sequences.
+    fn read_unicode_escape(
+        &mut self,
+        pos: Self::Position,
+    ) -> Result<char, DeserializeError<Self::Position>> {
+        let mut code = self.read_hex_code(&pos)?;
+        if (0xD800..0xDC00).contains(&code) {
+            if !self.read_exact("\\u") {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            let low = self.read_hex_code(&pos)?;
+            if !(0xDC00..0xE000).contains(&low) {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            code = 0x10000 + (code - 0xD800) * 0x400 + (low - 0xDC00);
+        }
+        char::from_u32(code).ok_or_else(|| DeserializeError::new(pos, UnrecognizedEscape))
+    }
+
+    /// Reads the four hexadecimal digits of a unicode escape sequence which began at `pos`.
+    fn read_hex_code(
+        &mut self,
+        pos: &Self::Position,
+    ) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut code = 0;
+        for _ in 0..4 {
+            let Some(ch) = self.next() else {
+                return Err(DeserializeError::new(self.position(), UnexpectedEof));
+            };
+            let Some(digit) = ch.to_digit(16) else {
+                return Err(DeserializeError::new(pos.clone(), UnrecognizedEscape));
+            };
+            code = code * 16 + digit;
+        }
+        Ok(code)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From 4afce0eac853276cbb7b03e6353f01458983899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 06/16] fix: reject unescaped control characters in strings

---
 json/src/deserialize/text.rs | 47 ++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index ed89a0e..7af94cd 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -683,8 +683,8 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
         match &mut self.state {
-            DeserializerState::StreamingString { is_key } => match self.reader.next() {
-                Some('"') => {
+            DeserializerState::StreamingString { is_key } => match self.reader.next_str_char()? {
+                None => {
                     // TODO: Update `error_pos`
                     if *is_key {
                         self.reader.skip_past_colon(self.config.allow_comments)?;
@@ -698,9 +698,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                     }
                     Ok(None)
                 }
-                Some('\\') => Ok(Some(self.reader.read_escape_sequence()?)),
                 Some(ch) => Ok(Some(ch)),
-                None => Err(DeserializeError::new(self.reader.position(), UnexpectedEof)),
             },
             DeserializerState::LookbackString {
                 head_index,
@@ -1700,6 +1698,19 @@ trait TextReaderExt: TextReader {
         Ok(code)
     }
 
+    /// Reads the next character inside a quoted string, or advances past the end quote and returns
+    /// [`None`]. Control characters are only accepted as escape sequences.
+    fn next_str_char(&mut self) -> Result<Option<char>, DeserializeError<Self::Position>> {
+        let pos = self.position();
+        match self.next() {
+            Some('"') => Ok(None),
+            Some('\\') => Ok(Some(self.read_escape_sequence()?)),
+            Some('\0'..='\x1F') => Err(DeserializeError::new(pos, UnexpectedChar)),
+            Some(ch) => Ok(Some(ch)),
+            None => Err(DeserializeError::new(pos, UnexpectedEof)),
+        }
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
@@ -1711,15 +1722,13 @@ trait TextReaderExt: TextReader {
         let mut suffix = expected;
         loop {
             if let Some(exp_ch) = suffix.peek() {
-                let act_ch = match self.next() {
-                    Some('"') => {
+                let act_ch = match self.next_str_char()? {
+                    None => {
                         // Actual key is shorter than expected key
                         data.extend_from_slice(prefix(expected, suffix).as_bytes());
                         return Ok(false);
                     }
-                    Some('\\') => self.read_escape_sequence()?,
                     Some(ch) => ch,
-                    None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
                 if exp_ch != act_ch {
                     // Keys have a discrepancy
@@ -1730,14 +1739,12 @@ trait TextReaderExt: TextReader {
                     suffix.next();
                 }
             } else {
-                let extra_ch = match self.next() {
-                    Some('"') => {
+                let extra_ch = match self.next_str_char()? {
+                    None => {
                         // Keys match
                         return Ok(true);
                     }
-                    Some('\\') => self.read_escape_sequence()?,
                     Some(ch) => ch,
-                    None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
 
                 // Actual key is longer than expected key
@@ -1758,13 +1765,7 @@ trait TextReaderExt: TextReader {
         &mut self,
         data: &mut Vec<u8>,
     ) -> Result<(), DeserializeError<Self::Position>> {
-        loop {
-            let ch = match self.next() {
-                Some('"') => break,
-                Some('\\') => self.read_escape_sequence()?,
-                Some(ch) => ch,
-                None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
-            };
+        while let Some(ch) = self.next_str_char()? {
             data.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
         }
         Ok(())
@@ -1773,13 +1774,7 @@ trait TextReaderExt: TextReader {
     /// Reads a quoted string into `data`, starting from the first character inside the quotes, and
     /// ending after the end quote.
     fn read_str_into(&mut self, str: &mut String) -> Result<(), DeserializeError<Self::Position>> {
-        loop {
-            let ch = match self.next() {
-                Some('"') => break,
-                Some('\\') => self.read_escape_sequence()?,
-                Some(ch) => ch,
-                None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
-            };
+        while let Some(ch) = self.next_str_char()? {
             str.push(ch);
         }
         Ok(())
-- 
2.43.0


From 131f5c348f6fa5a0645782b8fd8f78fefdbb462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 07/16] fix: implement reading a single character and closing a
 string

---
 json/src/deserialize/text.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 7af94cd..16244a1 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -453,7 +453,10 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            return Err(self.error("expected end of string".into()));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
@@ -678,7 +681,12 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        let Some(ch) = self.next_char()? else {
+            return Err(self.error("expected a character, found an empty string".into()));
+        };
+        self.close_str()?;
+        Ok(ch)
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From e155d63b0d585637cf31af08bc3e7382b5445f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 08/16] fix: tag errors about strings, keys and missing entries
 with their own position

---
 json/src/deserialize/text.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 16244a1..e6a3da7 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -396,7 +396,9 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 streaming_depth,
                 ..
             } => {
-                // TODO: Update `error_pos`
+                if let Some(collection) = self.outline.stack_items.last() {
+                    self.error_pos = collection.pos.clone();
+                }
                 self.state = DeserializerState::Collection {
                     at_start,
                     streaming_depth,
@@ -414,6 +416,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 match self.reader.next() {
                     Some('"') => {
                         self.state = DeserializerState::StreamingString { is_key: false };
+                        self.error_pos = pos;
                         Ok(())
                     }
                     Some(_) => Err(DeserializeError::new(
@@ -429,6 +432,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    let pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
@@ -437,6 +441,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                         value_index: None,
                         streaming_depth,
                     };
+                    self.error_pos = pos;
                     Ok(())
                 } else {
                     Err(DeserializeError::new(
@@ -693,7 +698,6 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
         match &mut self.state {
             DeserializerState::StreamingString { is_key } => match self.reader.next_str_char()? {
                 None => {
-                    // TODO: Update `error_pos`
                     if *is_key {
                         self.reader.skip_past_colon(self.config.allow_comments)?;
                         self.reader.skip_whitespace(self.config.allow_comments)?;
@@ -1087,6 +1091,9 @@ impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
             // Clear active flag
             item.key_len_active &= !1;
 
+            // The position of the key itself is not kept
+            self.error_pos = item.pos.clone();
+
             // Return key and value
             let key_data = key_data.as_ptr_range();
             let base_ptr = self.outline.lookback_data.as_ptr();
@@ -1108,7 +1115,8 @@ impl<Reader: TextReader> JsonDeserializer for TextDeserializer<Reader> {
             } else {
                 self.reader.skip_to_next_entry(self.config.allow_comments)?
             };
-            if key_pos.is_some() {
+            if let Some(key_pos) = key_pos {
+                self.error_pos = key_pos;
                 self.state = DeserializerState::StreamingString { is_key: true };
                 return Ok(true);
             } else {
-- 
2.43.0


From 21d401dd9da141c86817b2765327f28c045d6e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 09/16] fix: accept comments before the value of a skipped-over
 entry

---
 json/src/deserialize/text.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index e6a3da7..b12d3b4 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1839,6 +1839,11 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From 53a9e93b4a88dd3b6a0873c9c62ffc246587bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 10/16] fix: keep the whole exponent of a skipped-over number

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index b12d3b4..d4afe50 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1865,12 +1864,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From 7e8ed07e756a19835a76298b7f150f4d1c41dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 11/16] fix: skip nested values without recursion

---
 json/src/deserialize/mod.rs | 63 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..1c1e9fa 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,53 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // The number of collections opened here. They are counted, rather than skipped recursively,
+        // so that deeply nested input doesn't exhaust the call stack.
+        let mut depth: usize = 0;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Go to the next value in the innermost opened collection that has one.
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                let has_value = match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        let has_entry = self.next_entry()?;
+                        if has_entry {
+                            self.skip_str()?;
+                        }
+                        has_entry
+                    }
+                    CollectionType::Array => self.next_item()?,
+                };
+                if has_value {
+                    break;
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From 7fe918cad9a8f91f81244ce7662530ac0e04565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 12/16] fix: report an error when an unnamed virtual null is
 read as a value

---
 json/src/deserialize/text.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index d4afe50..a0d1c22 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -327,14 +327,20 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
         &self,
         key: Option<&'static str>,
     ) -> DeserializeError<Reader::Position> {
-        if let Some(key) = key {
-            DeserializeError::new(
-                self.outline.stack_items.last().unwrap().pos.clone(),
-                DeserializeErrorMessage::MissingKey(key.to_owned()),
-            )
-        } else {
-            todo!()
-        }
+        DeserializeError::new(
+            self.outline.stack_items.last().unwrap().pos.clone(),
+            if let Some(key) = key {
+                DeserializeErrorMessage::MissingKey(key.to_owned())
+            } else {
+                DeserializeErrorMessage::Expected(&[
+                    ValueType::String,
+                    ValueType::Number,
+                    ValueType::Object,
+                    ValueType::Array,
+                    ValueType::Bool,
+                ])
+            },
+        )
     }
 }
 
-- 
2.43.0


From 6dce6012093980a07ce1e532a00650710cb089b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 13/16] fix: escape all control characters when writing strings

---
 json/src/serialize/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..fb08ccd 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,14 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\0'..='\x1F' => {
+                self.writer.write_str("\\u00")?;
+                for digit in [value as u32 / 16, value as u32 % 16] {
+                    self.writer
+                        .write_char(char::from_digit(digit, 16).unwrap())?;
+                }
+                Ok(())
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From 1c981a2d927d45074d2037c745ccc478d50385c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 14/16] fix: write non-finite numbers as null

---
 json/src/serialize/text.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index fb08ccd..a57cbc5 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -203,13 +203,19 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
     }
 
     fn put_f32(&mut self, value: f32) -> Result<(), Self::Error> {
-        // TODO: Special cases
+        if !value.is_finite() {
+            // There is no JSON literal for this value
+            return self.writer.write_str("null");
+        }
         let mut buffer = ryu::Buffer::new();
         self.writer.write_str(buffer.format(value))
     }
 
     fn put_f64(&mut self, value: f64) -> Result<(), Self::Error> {
-        // TODO: Special cases
+        if !value.is_finite() {
+            // There is no JSON literal for this value
+            return self.writer.write_str("null");
+        }
         let mut buffer = ryu::Buffer::new();
         self.writer.write_str(buffer.format(value))
     }
-- 
2.43.0


From 736f467776b9cdc00c131c38466a46b0e1847ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 15/16] fix: read_utf8 reports invalid UTF-8 as an error

---
 core/src/text_reader.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..60f6c91 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -196,38 +196,55 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
     if x < 0b10000000 {
         return Ok(Some(x.into()));
     } 
-    let ch = if x < 0b11100000 {
+    let (ch, min) = if x < 0b11000000 {
+        return Err(invalid_utf8());
+    } else if x < 0b11100000 {
         let mut buf = [0u8; 1];
         r.read_exact(&mut buf)?;
+        check_continuation(&buf)?;
         let ch = (x as u32) & 0b00011111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
+        (char::from_u32(ch), '\u{80}')
     } else if x < 0b11110000 {
         let mut buf = [0u8; 2];
         r.read_exact(&mut buf)?;
+        check_continuation(&buf)?;
         let ch = (x as u32) & 0b00001111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
+        (char::from_u32(ch), '\u{800}')
     } else if x < 0b11111000 {
         let mut buf = [0u8; 3];
         r.read_exact(&mut buf)?;
+        check_continuation(&buf)?;
         let ch = (x as u32) & 0b00000111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
+        (char::from_u32(ch), '\u{10000}')
     } else {
-        None
+        return Err(invalid_utf8());
     };
-    if let Some(ch) = ch {
-        Ok(Some(ch))
+    match ch {
+        Some(ch) if ch >= min => Ok(Some(ch)),
+        _ => Err(invalid_utf8()),
+    }
+}
+
+/// Checks that all of the given bytes are UTF-8 continuation bytes.
+fn check_continuation(buf: &[u8]) -> std::io::Result<()> {
+    if buf.iter().all(|x| x & 0b11000000 == 0b10000000) {
+        Ok(())
     } else {
-        // Error
-        todo!();
+        Err(invalid_utf8())
     }
 }
 
+/// Constructs an error which says that a stream does not contain valid UTF-8.
+fn invalid_utf8() -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, "stream is not valid UTF-8")
+}
+
 #[test]
 fn test_read_utf8() {
     let str = "ab\u{0014}\u{0162}\u{0651}\u{1485}\u{0482}\u{95832}";
-- 
2.43.0


From ed10b85c793035f0d77818c2277d50479962e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 16/16] fix: Object::inline_using verifies that the inlined
 struct was fully read

---
 core/src/helper.rs | 6 ++++++
 json/src/helper.rs | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4774228..d1934e5 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -412,6 +412,12 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(res)
     }
 
+    /// Indicates whether the struct is at the top of the stack, i.e. every value obtained from it
+    /// has been fully consumed.
+    pub fn is_ready(&self) -> bool {
+        self.ready_flag
+    }
+
     /// Gets the value of a named field in the struct. Note that fields must be accessed in the
     /// order they are defined.
     pub fn field(&mut self, name: &'static str) -> Result<Value<O>, O::Error> {
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..4e029ec 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -157,10 +157,13 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         context: &mut Ctx,
     ) -> Result<T, D::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+        self.ready_flag = false;
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let value = T::deserialize_content(&mut st, context)?;
+        assert!(st.is_ready(), "{}", INVALID_STATE_ERROR);
+        self.ready_flag = true;
+        Ok(value)
     }
 }
 
-- 
2.43.0

