From d9829bc74e4ad835645859ed635c987210a8c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 1/9] fix: encode values given to
 Data/Value::from_unencoded_str

---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..317bb2b 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into()),
+            ),
         }
     }
 
-- 
2.43.0


From 5af574b0c646b8c2bfe03db449d8052f01c605b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 2/9] fix: keep leading whitespace of attribute values when
 parsing

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From bf19044b0a42f9dbac098499bff46311fb138c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 3/9] fix: name the right tags in closing tag error messages

---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..a6eb965 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From b05afc54e85ab655a3a598989757807154e92f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 4/9] fix: report the start of the tag for unfinished tags

---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a6eb965..6b7ff10 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -534,7 +534,7 @@ fn try_parse_tag_close(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedClosingTagClose {
             tag: (*identifier).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
@@ -643,7 +643,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedOpeningTagClose {
             tag: (*tag).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
-- 
2.43.0


From 493438755c120034cf3139a089d73b81fef84a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 5/9] fix: decode files with characters spanning read chunks

---
 src/template.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..aed9ea0 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut input = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,22 +177,8 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                input.extend_from_slice(data);
+                data.len()
             };
 
             if input.len() > limit {
@@ -205,7 +191,14 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        // decoding needs the whole input, since characters can span multiple chunks
+        let input = str::from_utf8(&input)
+            .map_err(|error| FileError::Decode {
+                path: path.into(),
+                error,
+            })?;
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From 7f4ef05e743a5b2ad3fc77bdce8ee8a6a87edc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 6/9] fix: compare texts by value instead of by storage

---
 src/text/deferred.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/text/deferred.rs b/src/text/deferred.rs
index 6b6c09f..dcf8070 100644
--- a/src/text/deferred.rs
+++ b/src/text/deferred.rs
@@ -3,7 +3,7 @@ use std::ops;
 use std::str;
 use std::fmt;
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub(crate) enum Deferred<T> {
     StaticStr(&'static str),
     Actual(T),
@@ -29,6 +29,15 @@ impl<T> Deferred<T> where T: From<&'static str> {
     }
 }
 
+impl<T> PartialEq for Deferred<T> where T: ops::Deref<Target=str> {
+
+    fn eq(&self, other: &Deferred<T>) -> bool {
+        **self == **other
+    }
+}
+
+impl<T> Eq for Deferred<T> where T: ops::Deref<Target=str> {}
+
 impl<T> fmt::Display for Deferred<T> where T: fmt::Display {
 
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From 5230ede6c9a2e07c4352a0060c9b961797ddc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 7/9] fix: reject identifiers with single quotes

The parser ends identifiers at single quotes, so a rendered template containing
such an identifier could not be parsed again.
---
 src/text/identifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/identifier.rs b/src/text/identifier.rs
index ffcef58..4489e9b 100644
--- a/src/text/identifier.rs
+++ b/src/text/identifier.rs
@@ -103,7 +103,7 @@ impl error::Error for IdentifierError {
 pub(crate) fn validate(value: &str) -> Result<&str, IdentifierError> {
     use std::ascii::{ AsciiExt };
 
-    const FORBIDDEN: &[char] = &['=', '"', '/', '>', '<', '&', ',', ';'];
+    const FORBIDDEN: &[char] = &['=', '"', '\'', '/', '>', '<', '&', ',', ';'];
 
     if value.is_empty() {
         return Err(IdentifierError::Empty);
-- 
2.43.0


From 66834bd56d9c089a08a33cab7509ba51223c3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 8/9] fix: reject tag names starting with an exclamation mark

They were rendered as comments or doctypes, so the output of a template could
mean something else than the template.
---
 src/input.rs           | 9 +++++++++
 src/parse.rs           | 2 +-
 src/template.rs        | 2 +-
 src/text/identifier.rs | 8 ++++++++
 src/text/mod.rs        | 1 +
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 5bae473..b80e8ea 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -139,4 +139,13 @@ impl<'i> Input<'i> {
             },
         }
     }
+
+    pub fn take_tag_identifier(&self)
+    -> Result<Option<Split<'i, text::Identifier>>, text::IdentifierError> {
+        match self.take_identifier()? {
+            None => Ok(None),
+            Some((identifier, rest)) => text::validate_tag(identifier)
+                .map(|identifier| Some((identifier, rest))),
+        }
+    }
 }
diff --git a/src/parse.rs b/src/parse.rs
index 6b7ff10..5cf180f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -619,7 +619,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest.skip_whitespace(),
         None => return None,
     };
-    let (tag, rest) = match rest.take_identifier() {
+    let (tag, rest) = match rest.take_tag_identifier() {
         Ok(Some((identifier, rest))) => (identifier, rest.skip_whitespace()),
         Ok(None) => return Some(Err(Error::ExpectedOpeningTagIdentifier {
             location: rest.location(),
diff --git a/src/template.rs b/src/template.rs
index aed9ea0..3ca445f 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,7 +262,7 @@ impl Template {
     /// ```
     pub fn with_element<T>(tag: T) -> Result<Template, text::IdentifierError>
     where T: text::IntoIdentifier {
-        let tag = tag.into_identifier()?;
+        let tag = text::validate_tag(tag.into_identifier()?)?;
         let event = {
             let attributes = event::Attributes::new(Vec::new());
             if parse::is_void_tag(&tag) {
diff --git a/src/text/identifier.rs b/src/text/identifier.rs
index 4489e9b..463ef84 100644
--- a/src/text/identifier.rs
+++ b/src/text/identifier.rs
@@ -123,6 +123,14 @@ pub(crate) fn validate(value: &str) -> Result<&str, IdentifierError> {
     Ok(value)
 }
 
+pub(crate) fn validate_tag(tag: Identifier) -> Result<Identifier, IdentifierError> {
+    // a tag name starting with `!` would be rendered as a comment or doctype
+    if tag.starts_with('!') {
+        return Err(IdentifierError::Forbidden { forbidden: '!' });
+    }
+    Ok(tag)
+}
+
 impl str::FromStr for Identifier {
 
     type Err = IdentifierError;
diff --git a/src/text/mod.rs b/src/text/mod.rs
index 1c35563..036f8e3 100644
--- a/src/text/mod.rs
+++ b/src/text/mod.rs
@@ -16,6 +16,7 @@ use self::deferred::{ Deferred };
 
 pub(crate) use self::identifier::{ identifier_eq };
 pub(crate) use self::identifier::{ validate as validate_identifier };
+pub(crate) use self::identifier::{ validate_tag };
 pub(crate) use self::encoded::{ EncodedText };
 
 pub use self::encoded::{ EncodedStr };
-- 
2.43.0


From ace32e68f4e2b826580c7a1aca9ae35dc569edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 9/9] fix: find the end of raw text in linear time

---
 src/input.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index b80e8ea..487ec36 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -62,10 +62,12 @@ impl<'i> Input<'i> {
 
     pub fn take_until_end_char<F>(&self, chr: char, check: F) -> Option<StrSplit<'i>>
     where F: Fn(Input<'i>) -> bool {
+        let mut rest = *self;
         for (index, _) in self.content.match_indices(chr) {
-            let rest = self.advanced(index);
+            let consumed = self.content.len() - rest.content.len();
+            rest = rest.advanced(index - consumed);
             if check(rest) {
-                return Some(self.consumed(index));
+                return Some((&self.content[..index], rest));
             }
         }
         None
-- 
2.43.0

