From effeb8882c46bd9219e6613301d21477e6df73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:35 +0000
Subject: [PATCH 01/23] fix: json enums directly inside unlabeled enums closing
 too many objects

---
 json/src/to_fmt.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..490b380 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -326,10 +326,11 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        // An enum may itself be the variant of another enum
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From 911431b2176a3d1c4d23a1c1457752944f759362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:35 +0000
Subject: [PATCH 02/23] fix: json map values following a labeled key being
 treated as enum variants

---
 json/src/to_fmt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 490b380..48e5997 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -254,6 +254,9 @@ where
     }
 
     fn map_value_begin(&mut self) -> sval::Result {
+        // The key may have been a labeled value
+        self.is_internally_tagged = false;
+
         Ok(())
     }
 
-- 
2.43.0


From 3f97c1c2b976d2d0608077f91eed9f7700fa663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:14 +0000
Subject: [PATCH 03/23] fix: json numbers losing their zero integral before an
 exponent

---
 json/src/to_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 48e5997..67ab107 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -609,8 +609,8 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
-                    // If we encounter a decimal point we might need to write a leading `0`
-                    b'.' => {
+                    // If we encounter a decimal point or exponent we might need to write a leading `0`
+                    b'.' | b'e' | b'E' => {
                         if self.at_start {
                             if self.sign_negative {
                                 _try_no_conv!(out.write_char('-'));
-- 
2.43.0


From e2f40b813991e92bc8d538ea881ffb0264570080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:14 +0000
Subject: [PATCH 04/23] fix: json writers that stop accepting bytes truncating
 the output silently

---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From 09b8ed4e5746c0e2b1bc5dcb259e733f676264d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:24 +0000
Subject: [PATCH 05/23] fix: json enum variants tagged as numbers or embedded
 JSON failing with an invalid key

---
 json/src/to_fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 67ab107..ba39213 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -342,6 +342,9 @@ where
         label: Option<&sval::Label>,
         index: Option<&sval::Index>,
     ) -> sval::Result {
+        // This needs to come first because the tag may apply to the variant's value, not its label
+        _try_no_conv!(self.internally_tagged_begin(label, index));
+
         match tag {
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
@@ -364,7 +367,6 @@ where
             _ => (),
         }
 
-        _try_no_conv!(self.internally_tagged_begin(label, index));
         self.is_current_depth_empty = true;
 
         Ok(())
-- 
2.43.0


From 807be98012677ddcc43f3f1a4cbd3b2e9b85e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:11 +0000
Subject: [PATCH 06/23] fix: buffer text and binary collection panicking when
 the value itself fails to stream

---
 buffer/src/fragments.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..2724b25 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -40,9 +40,11 @@ impl<'sval> TextBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("streaming failed"))
+        })?;
 
         Ok(collector.buf)
     }
@@ -297,9 +299,11 @@ impl<'sval> BinaryBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("streaming failed"))
+        })?;
 
         Ok(collector.buf)
     }
-- 
2.43.0


From b274fb9e8bae984c678ed01439f2ab551ca35c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:24 +0000
Subject: [PATCH 07/23] fix: buffer tag hints between fragments failing the
 rest of the text or binary value

---
 buffer/src/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..2b215c7 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -639,6 +639,11 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
         &mut self,
         tag: &sval::Tag,
     ) -> sval::Result {
+        // Hints given between fragments can't be positioned within the contiguous buffer
+        if self.is_in_text_or_binary {
+            return Ok(());
+        }
+
         self.try_catch(|buf| {
             buf.push_kind(ValueKind::TagHint {
                 tag: tag.clone(),
-- 
2.43.0


From 8a95fad1caae3c4c38be86926f620e637dca69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:44 +0000
Subject: [PATCH 08/23] fix: owned labels losing their tag when cloned or
 converted

---
 src/data.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..4ea56fa 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -163,7 +163,10 @@ impl<'computed> Label<'computed> {
         #[cfg(not(feature = "alloc"))]
         {
             self.as_static_str()
-                .map(Label::new)
+                .map(|label| Label {
+                    tag: self.tag.clone(),
+                    ..Label::new(label)
+                })
                 .ok_or_else(crate::Error::new)
         }
     }
@@ -570,7 +573,9 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut label = Label::new_owned(unsafe { &*owned }.to_owned());
+                label.tag = self.tag.clone();
+                label
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +595,14 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut label = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+
+            label.tag = self.tag.clone();
+            label
         }
     }
 
-- 
2.43.0


From aa10bd6e8f9e473896cd6801113b8682a4f80eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:20 +0000
Subject: [PATCH 09/23] fix: flatten nested maps never ending their keys

---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..83f6d65 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From 86ce64ca8ea41927eaa4d958f499267ae0a3f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:26 +0000
Subject: [PATCH 10/23] fix: flatten complex map keys dropping all but their
 last number

---
 flatten/src/label.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..4ede84c 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,36 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        let v = v.try_into().map_err(|_| sval::Error::new())?;
+
+        if let LabelBuf::Empty = self {
+            *self = LabelBuf::I128(v);
+            Ok(())
+        } else {
+            self.text_fragment_computed(itoa::Buffer::new().format(v))
+        }
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        let v = v.try_into().map_err(|_| sval::Error::new())?;
+
+        if let LabelBuf::Empty = self {
+            *self = LabelBuf::U128(v);
+            Ok(())
+        } else {
+            self.text_fragment_computed(itoa::Buffer::new().format(v))
+        }
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        let v = v.try_into().map_err(|_| sval::Error::new())?;
+
+        if let LabelBuf::Empty = self {
+            *self = LabelBuf::F64(v);
+            Ok(())
+        } else {
+            self.text_fragment_computed(ryu::Buffer::new().format(v))
+        }
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +116,17 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let mut buf = TextBuf::new();
+
+                // Complex keys are concatenated, so keep any number that's already been buffered
+                if !matches!(self, LabelBuf::Empty) {
+                    self.with_label(|label| {
+                        buf.push_fragment_computed(label.as_str())
+                            .map_err(|_| sval::Error::new())
+                    })?;
+                }
+
+                *self = LabelBuf::Text(buf);
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From 4b56a02ef6cf990a56fbd04f6798dd57eece1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 11/23] fix: values converting to integers only when they
 stream the 128bit type itself

---
 src/value.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..023aa0a 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -601,6 +601,10 @@ pub mod default_value {
                 Ok(())
             }
 
+            fn u128(&mut self, value: u128) -> Result {
+                self.i128(value.try_into().map_err(|_| crate::Error::new())?)
+            }
+
             fn null(&mut self) -> Result {
                 crate::error()
             }
@@ -621,8 +625,8 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.i128(value as i128)
             }
 
             fn f64(&mut self, _: f64) -> Result {
@@ -691,6 +695,10 @@ pub mod default_value {
                 Ok(())
             }
 
+            fn i128(&mut self, value: i128) -> Result {
+                self.u128(value.try_into().map_err(|_| crate::Error::new())?)
+            }
+
             fn null(&mut self) -> Result {
                 crate::error()
             }
@@ -711,8 +719,8 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.i128(value as i128)
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From 7a737b1304542890c405c9f031ade4d5eaca42d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 12/23] fix: buffers holding only a tag hint being reported as
 complete

---
 buffer/src/value.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 2b215c7..1158b4e 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -165,7 +165,16 @@ impl<'sval> ValueBuf<'sval> {
     Whether or not the contents of the value buffer are complete.
     */
     pub fn is_complete(&self) -> bool {
-        self.stack.len() == 0 && self.parts.len() > 0 && !self.is_in_text_or_binary
+        // A hint belongs to the value that follows it; it isn't a value by itself
+        let ends_with_value = match self.parts.last() {
+            Some(ValuePart {
+                kind: ValueKind::TagHint { .. },
+            })
+            | None => false,
+            Some(_) => true,
+        };
+
+        self.stack.len() == 0 && ends_with_value && !self.is_in_text_or_binary
     }
 
     /**
-- 
2.43.0


From a0102f7e14323eabfd30a00bb3c6e00903596ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 13/23] fix: formatting enums that hold an empty value as if
 they held nothing

---
 fmt/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..17e8eb6 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -304,6 +304,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_map_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // An empty value still counts as a value in whatever contains it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -335,6 +338,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_seq_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // An empty value still counts as a value in whatever contains it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +477,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // An empty value still counts as a value in whatever contains it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +530,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // An empty value still counts as a value in whatever contains it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From 2bdae73c7bc80f5e58630cd06f21be8e909d5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 14/23] fix: end empty enums streamed through sval_nested
 instead of recursing forever

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..856dd26 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -40,7 +40,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From 507af1969eba3278c1289c2a850c6e42886230b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 15/23] fix: buffer the element boundaries of nested sequences
 in sval_nested

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..296924b 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -250,11 +250,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From 7eb221829e443f2503935fd9fadabd87ace28f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 16/23] fix: report values that fail after completing a
 sval_nested stream

---
 nested/src/flat.rs |  9 +++++++++
 nested/src/lib.rs  | 16 ++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 296924b..0ce80b9 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -165,6 +165,15 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         }
     }
 
+    pub fn finish_with(&mut self, result: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // The stream may have been completed by a value that then failed
+        result.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
+
     pub fn finish(&mut self) -> Result<S::Ok> {
         if let State::Done(ref mut r) = self.state {
             r.take()
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..1dd9105 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -937,8 +937,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(r)
     }
 
     /**
@@ -959,8 +959,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(r)
     }
 
     /**
@@ -992,8 +992,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
@@ -1033,8 +1033,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
-- 
2.43.0


From dc79ea476709807e72b5ac2a5bfee6b96f791f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:46 +0000
Subject: [PATCH 17/23] fix: stream record and tuple variants of nested enums
 through sval_nested

---
 nested/src/flat.rs      | 32 ++++++++++++++++++++++++++++++++
 nested/src/flat_enum.rs |  4 ++++
 2 files changed, 36 insertions(+)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 0ce80b9..8a953dd 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -426,6 +426,8 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
+
         self.buffer_or_begin_with(
             |buf| buf.record_begin(tag, label, index, num_entries),
             |stream| {
@@ -501,6 +503,8 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
+
         self.buffer_or_begin_with(
             |buf| buf.tuple_begin(tag, label, index, num_entries),
             |stream| {
@@ -1173,6 +1177,16 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
                     let buf = mem::take(buf);
                     *buffered = None;
 
+                    if let State::Enum(ref mut state) = stream.state {
+                        let state = state.take().ok_or_else(|| {
+                            Error::invalid_value(
+                                "cannot stream enum value; the stream is already completed",
+                            )
+                        })?;
+
+                        return Ok(Some(state.stream.value_computed(&buf)?));
+                    }
+
                     return stream
                         .state
                         .value_computed(&buf, |stream, value| stream.value_computed(value));
@@ -1189,6 +1203,24 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         Ok(())
     }
 
+    /**
+    Start buffering if the next value is the variant of a nested enum.
+
+    Nested enums are entered through a callback once their variant is known, so variants that are
+    made up of more than one call need to be buffered.
+    */
+    fn buffer_nested_variant(&mut self) {
+        if let FlatStream {
+            buffered: None,
+            state: State::Enum(Some(state)),
+        } = self
+        {
+            if state.stream.is_nested() {
+                self.buffered = Some(Buffered::Value(ValueBuf::new()));
+            }
+        }
+    }
+
     fn put_buffer(&mut self, buf: Buffered<'sval>) -> Result {
         match self.buffered {
             None => {
diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 856dd26..91e79dc 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -39,6 +39,10 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         })
     }
 
+    pub fn is_nested(&self) -> bool {
+        !self.queue.is_empty()
+    }
+
     pub fn end(self) -> Result<S::Ok> {
         self.value_or_recurse(
             |stream, _| stream.stream.empty(),
-- 
2.43.0


From aef3ed7eb1e10bcd35b712f523caf5c6b1e093c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 18/23] fix: flatten enums inside tagged values without
 panicking

---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 83f6d65..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From e97926384d516c6f10747410f0ba30808b60d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:06 +0000
Subject: [PATCH 19/23] fix: report the tag of a transparent newtype's field

---
 derive_macros/src/derive/derive_newtype.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index 6662826..2567948 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -86,7 +86,12 @@ pub(crate) fn derive_newtype<'a>(
         attrs.transparent(),
     );
 
-    let tag = quote_optional_tag_owned(attrs.tag());
+    // A transparent newtype has whatever tag its field does
+    let tag = if attrs.transparent() {
+        None
+    } else {
+        Some(quote_optional_tag_owned(attrs.tag()))
+    };
 
     impl_tokens(
         impl_generics,
@@ -100,6 +105,6 @@ pub(crate) fn derive_newtype<'a>(
 
             Ok(())
         }),
-        Some(tag),
+        tag,
     )
 }
-- 
2.43.0


From 91aa965eee111b5421497ae0031695f93d18d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:06 +0000
Subject: [PATCH 20/23] fix: take explicit indexes into account when numbering
 enum variants

---
 derive_macros/src/derive/derive_enum.rs       | 22 +++++++++----------
 derive_macros/src/derive/derive_newtype.rs    |  4 ++++
 derive_macros/src/derive/derive_struct.rs     |  4 ++++
 .../src/derive/derive_unit_struct.rs          |  4 ++++
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/derive_macros/src/derive/derive_enum.rs b/derive_macros/src/derive/derive_enum.rs
index 41e107c..0524ce5 100644
--- a/derive_macros/src/derive/derive_enum.rs
+++ b/derive_macros/src/derive/derive_enum.rs
@@ -92,14 +92,12 @@ pub(crate) fn derive_enum<'a>(
     let mut variant_match_arms = Vec::new();
     let mut index_allocator = IndexAllocator::new();
 
-    let mut variant_index = |index: Option<Index>, discriminant: Option<IndexValue>| {
-        index.or_else(|| {
-            if attrs.dynamic || attrs.unindexed_variants {
-                None
-            } else {
-                Some(index_allocator.next_const_index(discriminant))
-            }
-        })
+    let mut variant_index = |index: Option<IndexValue>, discriminant: Option<IndexValue>| {
+        if attrs.dynamic || attrs.unindexed_variants {
+            index.map(IndexAllocator::const_index_of)
+        } else {
+            Some(index_allocator.next_const_index(index.or(discriminant)))
+        }
     };
 
     let variant_label = |label: Option<LabelValue>, ident: &Ident| {
@@ -153,7 +151,7 @@ pub(crate) fn derive_enum<'a>(
                     &fields.unnamed[0],
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.explicit_index(), discriminant),
                     variant_transparent,
                 )
             }
@@ -164,7 +162,7 @@ pub(crate) fn derive_enum<'a>(
                     quote!(#ident :: #variant_ident),
                     attrs.tag(),
                     unit_variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.explicit_index(), discriminant),
                 )
             }
             Fields::Named(ref fields) => {
@@ -176,7 +174,7 @@ pub(crate) fn derive_enum<'a>(
                     RecordTupleTarget::named_fields(),
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.explicit_index(), discriminant),
                     attrs.unlabeled_fields(),
                     attrs.unindexed_fields(),
                 )
@@ -190,7 +188,7 @@ pub(crate) fn derive_enum<'a>(
                     RecordTupleTarget::unnamed_fields(),
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(attrs.explicit_index(), discriminant),
                     attrs.unlabeled_fields(),
                     attrs.unindexed_fields(),
                 )
diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index 2567948..4a0ced0 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -57,6 +57,10 @@ impl NewtypeAttrs {
         self.label.clone()
     }
 
+    pub(crate) fn explicit_index(&self) -> Option<IndexValue> {
+        self.index.clone()
+    }
+
     pub(crate) fn index(&self) -> Option<Index> {
         self.index.clone().map(IndexAllocator::const_index_of)
     }
diff --git a/derive_macros/src/derive/derive_struct.rs b/derive_macros/src/derive/derive_struct.rs
index d6bd4ef..0535bae 100644
--- a/derive_macros/src/derive/derive_struct.rs
+++ b/derive_macros/src/derive/derive_struct.rs
@@ -57,6 +57,10 @@ impl StructAttrs {
         self.label.clone()
     }
 
+    pub(crate) fn explicit_index(&self) -> Option<IndexValue> {
+        self.index.clone()
+    }
+
     pub(crate) fn index(&self) -> Option<Index> {
         self.index.clone().map(IndexAllocator::const_index_of)
     }
diff --git a/derive_macros/src/derive/derive_unit_struct.rs b/derive_macros/src/derive/derive_unit_struct.rs
index 58ce057..c8180bf 100644
--- a/derive_macros/src/derive/derive_unit_struct.rs
+++ b/derive_macros/src/derive/derive_unit_struct.rs
@@ -38,6 +38,10 @@ impl UnitStructAttrs {
         self.label.clone()
     }
 
+    pub(crate) fn explicit_index(&self) -> Option<IndexValue> {
+        self.index.clone()
+    }
+
     pub(crate) fn index(&self) -> Option<Index> {
         self.index.clone().map(IndexAllocator::const_index_of)
     }
-- 
2.43.0


From a9beccde6c2c40b06ce9e15f77862ed87c9c473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:15 +0000
Subject: [PATCH 21/23] fix: keep flattened indexes clear of explicit ones

---
 derive_macros/src/index.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/derive_macros/src/index.rs b/derive_macros/src/index.rs
index b1e9d21..72f418d 100644
--- a/derive_macros/src/index.rs
+++ b/derive_macros/src/index.rs
@@ -49,17 +49,36 @@ impl IndexAllocator {
         ident: &syn::Ident,
         explicit: Option<IndexValue>,
     ) -> Index {
-        match self.next_const_index(explicit) {
-            Index::Implicit(_) => Index::Implicit(quote!({
-                let index = #ident;
-                #ident += 1;
-                index
+        // Flattened fields may move the index along by any amount at runtime,
+        // so explicit indexes need to keep it up to date
+        let advance = match explicit {
+            Some(IndexValue::Const(explicit)) => {
+                let next_index = explicit.wrapping_add(1);
+                Some(quote!(#ident = #next_index))
+            }
+            Some(IndexValue::Ident(_)) => Some(quote!(#ident += 1)),
+            None => None,
+        };
+
+        match (self.next_const_index(explicit), advance) {
+            (Index::Explicit(index), Some(advance)) => Index::Explicit(quote!({
+                #advance;
+                #index
             })),
-            Index::Explicit(index) => Index::Explicit(index),
+            (Index::Explicit(_), None) => Index::Explicit(quote_next_index(ident)),
+            (Index::Implicit(_), _) => Index::Implicit(quote_next_index(ident)),
         }
     }
 }
 
+fn quote_next_index(ident: &syn::Ident) -> proc_macro2::TokenStream {
+    quote!({
+        let index = #ident;
+        #ident += 1;
+        index
+    })
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum IndexValue {
     Const(isize),
-- 
2.43.0


From fb7ab2436cb3b8be53a624262013ab86921f0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:45 +0000
Subject: [PATCH 22/23] fix: honour the no_debug_assertions feature of
 sval_nested

The cfg tested a custom flag instead of the crate's feature, so enabling the
feature had no effect and debug builds without alloc still panicked.
---
 nested/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/error.rs b/nested/src/error.rs
index 38f89dd..f8138f5 100644
--- a/nested/src/error.rs
+++ b/nested/src/error.rs
@@ -53,11 +53,11 @@ impl Error {
         The pattern here is the same as what's used in `sval_buffer`.
         */
 
-        #[cfg(all(debug_assertions, not(no_debug_assertions), not(test)))]
+        #[cfg(all(debug_assertions, not(feature = "no_debug_assertions"), not(test)))]
         {
             panic!("attempt to allocate for {} would fail; add the `alloc` feature of `sval_nested` or the depdendent `sval_*` library to support allocation. This call will error instead of panicking in release builds. Add the `no_debug_assertions` feature of `sval_nested` if this error is expected.", method);
         }
-        #[cfg(not(all(debug_assertions, not(no_debug_assertions), not(test))))]
+        #[cfg(not(all(debug_assertions, not(feature = "no_debug_assertions"), not(test))))]
         {
             Error(ErrorKind::NoAlloc { method })
         }
-- 
2.43.0


From ffb534bca47ca24613e88972bbe5f844485b3e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:45 +0000
Subject: [PATCH 23/23] fix: keep the tags of labels in sval_nested when alloc
 is disabled

---
 nested/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index 1dd9105..765e23e 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,8 +914,13 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
+        if let Some(text) = label.as_static_str() {
+            let owned = sval::Label::new(text);
+
+            Ok(match label.tag() {
+                Some(tag) => owned.with_tag(tag),
+                None => owned,
+            })
         } else {
             Err(Error::no_alloc("streaming value"))
         }
-- 
2.43.0

