From 06d6547661a568931977b5b096943a00e94fbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 01/22] fix: Struct::with and Tuple::with asserted the opposite
 of completion

---
 core/src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..c5a7c15 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -405,7 +405,7 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Struct::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
@@ -489,7 +489,7 @@ impl<'a, O: Outliner + ?Sized> Tuple<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Tuple::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
-- 
2.43.0


From 006ac31ad72c5c2c061397c61b304a3e5d770764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 02/22] fix: Value::get_tag on a consumed value now panics like
 every other accessor

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index c5a7c15..60aad77 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -341,6 +341,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
-- 
2.43.0


From 02d790ac95a4f2e5c5d1ee4829571fcb9557f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 03/22] fix: List::next did not count down the known remaining
 length

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 60aad77..d860715 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -583,6 +583,7 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            self.rem_len = self.rem_len.saturating_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From 49074c8f1c9865c6d0d6a53d57be440ea70e3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/22] fix: JSON-specific Value methods on a consumed value
 now panic like the core ones

---
 json/src/helper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..b857fa1 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -16,6 +16,7 @@ pub trait ValueExt<'a, O: JsonOutliner + ?Sized> {
 impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
     fn into_null(self) -> Result<(), O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.pop_null()?;
         *done_flag = true;
         Ok(())
@@ -23,6 +24,7 @@ impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
 
     fn into_object(self) -> Result<Object<'a, O>, O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_object()?;
         Ok(Object::new(source, done_flag))
     }
@@ -37,6 +39,7 @@ pub trait ValueSerialierExt<'a, S: JsonSerializer + ?Sized> {
 impl<'a, S: JsonSerializer + ?Sized> ValueSerialierExt<'a, S> for Value<'a, S> {
     fn into_list_streaming(self) -> Result<List<'a, S>, S::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_list_streaming()?;
         Ok(List::new(source, done_flag, None))
     }
@@ -61,6 +64,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn skip(self) -> Result<(), D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.skip_value()?;
         *done_flag = true;
         Ok(())
@@ -68,6 +72,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn into_collection(self) -> Result<Collection<'a, D>, D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         if source.peek_value_type() == ValueType::Object {
             source.open_object()?;
             Ok(Object::new(source, done_flag).into())
-- 
2.43.0


From 3d32130cf00831863171f13722bb17f396adf34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/22] fix: Object::inline did not notice incomplete or failed
 content

---
 core/src/helper.rs | 6 ++++++
 json/src/helper.rs | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index d860715..6da1e85 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -410,6 +410,12 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(res)
     }
 
+    /// Indicates whether the struct is ready for its next field, i.e. whether the values of all
+    /// fields accessed so far have been fully processed.
+    pub fn is_ready(&self) -> bool {
+        self.ready_flag
+    }
+
     /// Gets the value of a named field in the struct. Note that fields must be accessed in the
     /// order they are defined.
     pub fn field(&mut self, name: &'static str) -> Result<Value<O>, O::Error> {
diff --git a/json/src/helper.rs b/json/src/helper.rs
index b857fa1..98d8728 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -162,10 +162,13 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         context: &mut Ctx,
     ) -> Result<T, D::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+        self.ready_flag = false;
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let res = T::deserialize_content(&mut st, context)?;
+        assert!(st.is_ready(), "{}", INVALID_STATE_ERROR);
+        self.ready_flag = true;
+        Ok(res)
     }
 }
 
-- 
2.43.0


From 32d72fbc0c0baa28d123c6df6c0e184c2ba3acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 06/22] fix: read_utf8 accepted or panicked on ill-formed UTF-8
 and failed on interrupted reads

---
 core/src/text_reader.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..c3be810 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -190,25 +190,34 @@ impl std::fmt::Display for LineColumnPosition {
 /// has no data remaining and returns an error if an invalid or partial character is encountered.
 pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Option<char>> {
     let mut x = 0;
-    if r.read(std::slice::from_mut(&mut x))? == 0 {
-        return Ok(None);
+    loop {
+        match r.read(std::slice::from_mut(&mut x)) {
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
     }
     if x < 0b10000000 {
         return Ok(Some(x.into()));
     } 
-    let ch = if x < 0b11100000 {
+    let is_cont = |x: &u8| x & 0b11000000 == 0b10000000;
+    let ch = if x < 0b11000000 {
+        // Stray continuation byte
+        None
+    } else if x < 0b11100000 {
         let mut buf = [0u8; 1];
         r.read_exact(&mut buf)?;
         let ch = (x as u32) & 0b00011111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
+        char::from_u32(ch).filter(|ch| buf.iter().all(is_cont) && ch.len_utf8() == 2)
     } else if x < 0b11110000 {
         let mut buf = [0u8; 2];
         r.read_exact(&mut buf)?;
         let ch = (x as u32) & 0b00001111;
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
+        char::from_u32(ch).filter(|ch| buf.iter().all(is_cont) && ch.len_utf8() == 3)
     } else if x < 0b11111000 {
         let mut buf = [0u8; 3];
         r.read_exact(&mut buf)?;
@@ -216,15 +225,14 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
         let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
         let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
+        char::from_u32(ch).filter(|ch| buf.iter().all(is_cont) && ch.len_utf8() == 4)
     } else {
         None
     };
     if let Some(ch) = ch {
         Ok(Some(ch))
     } else {
-        // Error
-        todo!();
+        Err(io::ErrorKind::InvalidData.into())
     }
 }
 
-- 
2.43.0


From 581e88cb74da6b9bdd6d6ca65b8d2cd2a3f0893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 07/22] fix: errors about a string or an absent field were
 positioned at an earlier value

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..0ea02f0 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -396,7 +396,9 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 streaming_depth,
                 ..
             } => {
-                // TODO: Update `error_pos`
+                if let Some(item) = self.outline.stack_items.last() {
+                    self.error_pos = item.pos.clone();
+                }
                 self.state = DeserializerState::Collection {
                     at_start,
                     streaming_depth,
@@ -413,6 +415,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 let pos = self.reader.position();
                 match self.reader.next() {
                     Some('"') => {
+                        self.error_pos = pos;
                         self.state = DeserializerState::StreamingString { is_key: false };
                         Ok(())
                     }
@@ -429,6 +432,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    self.error_pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
-- 
2.43.0


From 1b20ec40ac8db4fc087e863145e51e4e68848e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 08/22] fix: closing a string being deserialized panicked

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 0ea02f0..7eb4574 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -457,7 +457,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            self.skip_str()?;
+            return Err(self.error("expected end of string".into()));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
-- 
2.43.0


From 103b0e46ac59f0c79068b48f55e429450bf7319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 09/22] fix: deserializing a char panicked

---
 json/src/deserialize/text.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 7eb4574..adf0870 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -686,7 +686,14 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        if let Some(ch) = self.next_char()? {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+            self.skip_str()?;
+        }
+        Err(self.error("expected a string with exactly one character".into()))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From 5ba1a3aa2ee2850e59817b36346b26a28d159c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 10/22] fix: reading an anonymous virtual null as a value
 panicked

---
 json/src/deserialize/text.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index adf0870..0d4ddee 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -328,14 +328,14 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
         &self,
         key: Option<&'static str>,
     ) -> DeserializeError<Reader::Position> {
-        if let Some(key) = key {
-            DeserializeError::new(
-                self.outline.stack_items.last().unwrap().pos.clone(),
-                DeserializeErrorMessage::MissingKey(key.to_owned()),
-            )
-        } else {
-            todo!()
-        }
+        DeserializeError::new(
+            self.outline.stack_items.last().unwrap().pos.clone(),
+            if let Some(key) = key {
+                DeserializeErrorMessage::MissingKey(key.to_owned())
+            } else {
+                DeserializeErrorMessage::Custom("unexpected `null`".into())
+            },
+        )
     }
 }
 
-- 
2.43.0


From bd124ef296879fb9a1771306779195378063cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 11/22] fix: \u escapes in strings panicked

---
 json/src/deserialize/text.rs | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 0d4ddee..9e2aa30 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1671,12 +1671,50 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => return self.read_unicode_escape(pos),
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads a `\u` escape sequence (or a surrogate pair of them) in a quoted string, following the
+    /// `u`. `pos` is the position reported if the sequence does not encode a character.
+    fn read_unicode_escape(
+        &mut self,
+        pos: Self::Position,
+    ) -> Result<char, DeserializeError<Self::Position>> {
+        let mut code = self.read_utf16_unit(&pos)?;
+        if let 0xD800..=0xDBFF = code {
+            if !self.read_exact("\\u") {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            }
+            let low = self.read_utf16_unit(&pos)?;
+            let 0xDC00..=0xDFFF = low else {
+                return Err(DeserializeError::new(pos, UnrecognizedEscape));
+            };
+            code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+        }
+        char::from_u32(code).ok_or_else(|| DeserializeError::new(pos, UnrecognizedEscape))
+    }
+
+    /// Reads the four hexadecimal digits of a `\u` escape sequence.
+    fn read_utf16_unit(
+        &mut self,
+        pos: &Self::Position,
+    ) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut unit = 0;
+        for _ in 0..4 {
+            let Some(ch) = self.next() else {
+                return Err(DeserializeError::new(self.position(), UnexpectedEof));
+            };
+            let Some(digit) = ch.to_digit(16) else {
+                return Err(DeserializeError::new(pos.clone(), UnrecognizedEscape));
+            };
+            unit = (unit << 4) | digit;
+        }
+        Ok(unit)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From 902a7b6df67313a5c4a3f8775e796e8f0ac0b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 12/22] fix: raw control characters in strings were accepted in
 strict JSON

---
 json/src/deserialize/text.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 9e2aa30..d5a8170 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -697,6 +697,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
+        let pos = self.reader.position();
         match &mut self.state {
             DeserializerState::StreamingString { is_key } => match self.reader.next() {
                 Some('"') => {
@@ -714,6 +715,9 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                     Ok(None)
                 }
                 Some('\\') => Ok(Some(self.reader.read_escape_sequence()?)),
+                Some('\0'..='\x1F') => {
+                    return Err(DeserializeError::new(pos, UnexpectedChar))
+                }
                 Some(ch) => Ok(Some(ch)),
                 None => Err(DeserializeError::new(self.reader.position(), UnexpectedEof)),
             },
@@ -1726,6 +1730,7 @@ trait TextReaderExt: TextReader {
         let mut suffix = expected;
         loop {
             if let Some(exp_ch) = suffix.peek() {
+                let pos = self.position();
                 let act_ch = match self.next() {
                     Some('"') => {
                         // Actual key is shorter than expected key
@@ -1733,6 +1738,9 @@ trait TextReaderExt: TextReader {
                         return Ok(false);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => {
+                        return Err(DeserializeError::new(pos, UnexpectedChar))
+                    }
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1745,12 +1753,16 @@ trait TextReaderExt: TextReader {
                     suffix.next();
                 }
             } else {
+                let pos = self.position();
                 let extra_ch = match self.next() {
                     Some('"') => {
                         // Keys match
                         return Ok(true);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => {
+                        return Err(DeserializeError::new(pos, UnexpectedChar))
+                    }
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1774,9 +1786,13 @@ trait TextReaderExt: TextReader {
         data: &mut Vec<u8>,
     ) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => {
+                    return Err(DeserializeError::new(pos, UnexpectedChar))
+                }
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
@@ -1789,9 +1805,13 @@ trait TextReaderExt: TextReader {
     /// ending after the end quote.
     fn read_str_into(&mut self, str: &mut String) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => {
+                    return Err(DeserializeError::new(pos, UnexpectedChar))
+                }
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
-- 
2.43.0


From 410ae860ab2dd0da6df5b9f59ce694a3bb088969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 13/22] fix: comments before the value of a buffered entry were
 rejected

---
 json/src/deserialize/text.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index d5a8170..d8195a8 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1863,6 +1863,11 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From e57dca6a45b8b2570b5b280db14dd028909358c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 14/22] fix: syntax errors inside buffered values were
 positioned at the start of the entry value

---
 json/src/deserialize/text.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index d8195a8..4d7efe1 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1849,7 +1849,6 @@ trait TextReaderExt: TextReader {
         mut key_len_active: u32,
         outline: &mut Outline<Self::Position>,
     ) -> Result<usize, DeserializeError<Self::Position>> {
-        let pos = self.position();
         let mut depth = outline.top_depth().unwrap();
         let mut last_child_index = usize::MAX;
         let mut collection_type = CollectionType::Object; // Default value prior to being set.
@@ -2034,13 +2033,13 @@ trait TextReaderExt: TextReader {
                 }
                 Some(_) => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedChar,
                     ))
                 }
                 None => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedEof,
                     ))
                 }
-- 
2.43.0


From 7ab3b9700722f090414e7af0f0e346781519f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 15/22] fix: numbers with large exponents were rejected only
 when buffered

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 4d7efe1..1b8468f 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1888,12 +1887,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From a37bf79189823f3e6ce12e8cbf5c7d9cae122c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 16/22] fix: a line comment at the end of input was rejected

---
 json/src/deserialize/text.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 1b8468f..6abdfc1 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1331,9 +1331,8 @@ trait TextReaderExt: TextReader {
         match self.next() {
             Some('/') => loop {
                 match self.next() {
-                    Some('\n') => return Ok(()),
+                    Some('\n') | None => return Ok(()),
                     Some(_) => (),
-                    None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 }
             },
             Some('*') => loop {
-- 
2.43.0


From 084fca86e9b7d251566583d93da66fa0aefffe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 17/22] fix: integers written with trailing zeros or zero with
 an exponent were rejected

---
 json/src/deserialize/number.rs | 50 ++++++++++++++++++++++++++--------
 json/src/deserialize/text.rs   |  2 +-
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/json/src/deserialize/number.rs b/json/src/deserialize/number.rs
index c7bcd7b..0fe9f5b 100644
--- a/json/src/deserialize/number.rs
+++ b/json/src/deserialize/number.rs
@@ -16,14 +16,27 @@ pub trait NumBuilder {
     fn push_digit(&mut self, digit: u8) -> bool;
 }
 
+/// The [`NumBuilder`] for an integer. Trailing zeros are kept separate from the other digits because
+/// they may be cancelled out by a negative exponent.
+#[derive(Default)]
+pub struct IntBuilder<T> {
+    value: T,
+    zeros: u32,
+}
+
 macro_rules! impl_unsigned {
     ($ty:ty) => {
         impl Num for $ty {
-            type Builder = Self;
-            fn from_builder(value: Self, negate: bool, exp_10: i32) -> Option<Self> {
-                if negate && value != 0 {
+            type Builder = IntBuilder<Self>;
+            fn from_builder(builder: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
+                let value = builder.value;
+                if value == 0 {
+                    return Some(0);
+                }
+                if negate {
                     return None;
                 }
+                let exp_10 = exp_10.checked_add(builder.zeros.try_into().ok()?)?;
                 let ten: Self = 10;
                 if let Ok(exp_10) = u32::try_from(exp_10) {
                     let pow = ten.checked_pow(exp_10)?;
@@ -39,12 +52,22 @@ macro_rules! impl_unsigned {
             }
         }
 
-        impl NumBuilder for $ty {
+        impl NumBuilder for IntBuilder<$ty> {
             fn push_digit(&mut self, digit: u8) -> bool {
-                if let Some(x) = self.checked_mul(10) {
-                    if let Some(x) = x.checked_add(Self::from(digit)) {
-                        *self = x;
-                        return true;
+                if digit == 0 {
+                    if self.value != 0 {
+                        self.zeros = self.zeros.saturating_add(1);
+                    }
+                    return true;
+                }
+                let ten: $ty = 10;
+                if let Some(pow) = ten.checked_pow(self.zeros.saturating_add(1)) {
+                    if let Some(x) = self.value.checked_mul(pow) {
+                        if let Some(x) = x.checked_add(<$ty>::from(digit)) {
+                            self.value = x;
+                            self.zeros = 0;
+                            return true;
+                        }
                     }
                 }
                 false
@@ -62,9 +85,14 @@ impl_unsigned!(u128);
 macro_rules! impl_signed {
     ($ty:ty, $unsigned_ty:ty) => {
         impl Num for $ty {
-            type Builder = $unsigned_ty;
-            fn from_builder(mut value: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
-                let ten: Self::Builder = 10;
+            type Builder = IntBuilder<$unsigned_ty>;
+            fn from_builder(builder: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
+                let mut value = builder.value;
+                if value == 0 {
+                    return Some(0);
+                }
+                let exp_10 = exp_10.checked_add(builder.zeros.try_into().ok()?)?;
+                let ten: $unsigned_ty = 10;
                 if let Ok(exp_10) = u32::try_from(exp_10) {
                     let pow = ten.checked_pow(exp_10)?;
                     value = value.checked_mul(pow)?;
diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 6abdfc1..64f7e1e 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1616,7 +1616,7 @@ trait TextReaderExt: TextReader {
         }
 
         // Parse exponent (we already read the 'e'/'E').
-        let mut exp_builder: u32 = 0;
+        let mut exp_builder = <i32 as Num>::Builder::default();
         let mut negate_exp = false;
         match self.next() {
             Some(ch @ '0'..='9') => {
-- 
2.43.0


From 78c27ff738e6941f80fffc0316c249cc5693ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 18/22] fix: control characters were written unescaped, making
 the output invalid JSON

---
 json/src/serialize/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..0d6c347 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,14 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\0'..='\x1F' => {
+                const HEX: [char; 16] = [
+                    '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f',
+                ];
+                self.writer.write_str("\\u00")?;
+                self.writer.write_char(HEX[value as usize >> 4])?;
+                self.writer.write_char(HEX[value as usize & 0xF])
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From aa7ed7ea8df480760b1bde48dc0ce7ed685048c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 19/22] fix: skipping a deeply nested value overflowed the
 stack

---
 json/src/deserialize/mod.rs | 62 +++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..acc8b5b 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,52 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // The number of collections opened (and not yet closed) within the skipped value.
+        let mut depth = 0usize;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Find the next value to skip
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                let has_next = match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        let has_next = self.next_entry()?;
+                        if has_next {
+                            self.skip_str()?;
+                        }
+                        has_next
+                    }
+                    CollectionType::Array => self.next_item()?,
+                };
+                if has_next {
+                    break;
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From 1157cc7b62dd69756ca8edd3297dcdc862726a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 20/22] fix: derived Serialize did not compile for fields named
 `st` or `ctx`

---
 derive/src/serialize.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 9b3afe8..376e4b6 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -227,11 +227,13 @@ fn serialize_fields(
         syn::Fields::Named(fields) => {
             let mut cons = TokenStream::new();
             let mut body = TokenStream::new();
-            for field in &fields.named {
+            for (index, field) in fields.named.iter().enumerate() {
                 let field_ident = field.ident.as_ref().unwrap();
                 let field_repr = FieldRepr::get(field)?;
-                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #field_ident });
-                cons.extend(quote! { #field_ident, });
+                // Don't bind to the field name, it could shadow `st` or `ctx`
+                let binding = quote::format_ident!("field_{}", index, span = Span::mixed_site());
+                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #binding });
+                cons.extend(quote! { #field_ident: #binding, });
                 body.extend(serialize);
             }
             (quote! { { #cons } }, body)
-- 
2.43.0


From 074157b72a55ecc87de14ccdf245e97bc6405a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 21/22] fix: options and unit enums could be read from or
 written to a value already consumed

---
 core/src/deserialize.rs   | 7 +++----
 core/src/serialize.rs     | 3 ++-
 derive/src/deserialize.rs | 1 +
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/deserialize.rs b/core/src/deserialize.rs
index b1d4d3d..1671277 100644
--- a/core/src/deserialize.rs
+++ b/core/src/deserialize.rs
@@ -335,12 +335,11 @@ impl<D: Deserializer + ?Sized, Ctx: ?Sized, T: Deserialize<D, Ctx>> Deserialize<
     const NULLABLE: bool = true;
     fn deserialize(value: Value<D>, context: &mut Ctx) -> Result<Self, D::Error> {
         if !T::NULLABLE && value.as_raw().supports_null() {
-            let (d, done) = value.into_raw();
-            if d.check_null()? {
-                *done = true;
+            let mut value = value;
+            if value.check_null()? {
                 Ok(None)
             } else {
-                T::deserialize(Value::new(d, done), context).map(Some)
+                T::deserialize(value, context).map(Some)
             }
         } else {
             // Fallback to using a regular struct
diff --git a/core/src/serialize.rs b/core/src/serialize.rs
index 3b3c146..cbe7d67 100644
--- a/core/src/serialize.rs
+++ b/core/src/serialize.rs
@@ -1,6 +1,6 @@
 #[allow(unused_imports)]
 use crate::Deserializer;
-use crate::{Outliner, Struct, Value};
+use crate::{Outliner, Struct, Value, INVALID_STATE_ERROR};
 
 /// An interface for writing arbitrarily-complex data to a data source. This uses a stack-based
 /// API, described in [`Outliner`].
@@ -244,6 +244,7 @@ impl<S: Serializer + ?Sized, Ctx: ?Sized, T: Serialize<S, Ctx>> Serialize<S, Ctx
                 inner.serialize(value, context)
             } else {
                 let (s, done) = value.into_raw();
+                assert!(!*done, "{}", INVALID_STATE_ERROR);
                 s.pop_null()?;
                 *done = true;
                 Ok(())
diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 78ec71f..d085f99 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -39,6 +39,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream> {
                         quote! {{
                             const NAMES: &#ser::NameMap<usize> = #name_map;
                             let (de, done_flag) = value.into_raw();
+                            ::core::assert!(!*done_flag, "{}", #ser::INVALID_STATE_ERROR);
                             let index = de.get_tag(#max_index, NAMES)?;
                             *done_flag = true;
                             match index {
-- 
2.43.0


From 36c317faed41c902b47c3372880c9f6c88228617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 22/22] fix: do not repeat defaults of generic parameters in
 derived impls

---
 derive/src/deserialize.rs |  2 +-
 derive/src/lib.rs         | 22 ++++++++++++++++++++++
 derive/src/serialize.rs   |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index d085f99..8dec0dd 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -139,7 +139,7 @@ impl<'a> DeserializeImplContext<'a> {
         let d_ty = syn::Ident::new("D", Span::call_site());
         let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
-        let mut impl_generics_params = input.generics.params.clone();
+        let mut impl_generics_params = without_defaults(&input.generics);
         impl_generics_params
             .push(syn::parse2(quote! { #d_ty: #ser::Deserializer + ?Sized }).unwrap());
         impl_generics_params.push(syn::parse2(quote! { #ctx_ty: ?Sized }).unwrap());
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index fe5a54b..a240cc5 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -22,6 +22,28 @@ pub fn derive_deserialize(input: proc_macro::TokenStream) -> proc_macro::TokenSt
         .into()
 }
 
+/// Gets the parameters of the given generics without their defaults, which are not allowed in an
+/// `impl` block.
+fn without_defaults(
+    generics: &syn::Generics,
+) -> syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> {
+    let mut params = generics.params.clone();
+    for param in params.iter_mut() {
+        match param {
+            syn::GenericParam::Type(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            syn::GenericParam::Const(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            syn::GenericParam::Lifetime(_) => {}
+        }
+    }
+    params
+}
+
 /// The default name for the field which contains the tag for an enum.
 const DEFAULT_TAG: &str = "type";
 
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 376e4b6..07e7e34 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -123,7 +123,7 @@ impl<'a> SerializeImplContext<'a> {
         let s_ty = syn::Ident::new("S", Span::call_site());
         let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
-        let mut impl_generics_params = input.generics.params.clone();
+        let mut impl_generics_params = without_defaults(&input.generics);
         impl_generics_params
             .push(syn::parse2(quote! { #s_ty: #ser::Serializer + ?Sized }).unwrap());
         impl_generics_params.push(syn::parse2(quote! { #ctx_ty: ?Sized }).unwrap());
-- 
2.43.0

