From 84b7f7b359fe55a5aeb18457e59c1900769f1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 01/14] fix: brackets and braces inside strings do not nest

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..54bdc5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,19 +433,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -527,7 +527,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -535,7 +535,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -543,7 +543,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -551,7 +551,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From 8dfe854f53743626dae229d6f3a9705267cbfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 02/14] fix: whitespace inside an array element or object
 member is not dropped

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54bdc5b..0d74e32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -404,7 +404,7 @@ impl Json {
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -422,7 +422,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -457,7 +457,7 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
+                Some(ch) if inner.is_empty() && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -481,8 +481,8 @@ impl Json {
         loop {
             match iter.next() {
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -503,8 +503,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         k.clear();
                         v.clear();
                         on_key = true;
@@ -577,7 +577,7 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
+                Some(ch) if (if on_key { k.is_empty() } else { v.is_empty() }) && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From cca3fb7ec6a7bdc77ec6134ece3d81a652ec441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 03/14] fix: empty arrays and objects may contain whitespace
 and may not be followed by anything else

---
 src/lib.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d74e32..dcefcb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,17 +394,15 @@ impl Json {
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut inner = String::new();
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::parse(&inner)?);
+                    if !array.is_empty() || !inner.is_empty() {
+                        array.push(Json::parse(&inner)?);
+                    }
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -469,10 +467,6 @@ impl Json {
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut k = String::new();
@@ -480,21 +474,23 @@ impl Json {
         let mut on_key = true;
         loop {
             match iter.next() {
-                Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                Some('}') if i == 0 && j == 0 && (!on_key || object.is_empty() && k.is_empty()) => {
+                    if on_key {
+                        // empty object
+                    } else if let Ok(Json::String(key)) = Json::parse(&k) {
                         object_insert(&mut object, key, Json::parse(&v)?);
-                        loop {
-                            match iter.next() {
-                                Some(ch) if is_whitespace(ch) => (),
-                                Some(ch) => return Err(Error::new(ParseObjectError,
-                                                                  format!("invalid trailing character: {}.", ch))),
-                                None => break
-                            }
-                        }
-                        return Ok(Json::Object(object));
                     } else {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
+                    loop {
+                        match iter.next() {
+                            Some(ch) if is_whitespace(ch) => (),
+                            Some(ch) => return Err(Error::new(ParseObjectError,
+                                                              format!("invalid trailing character: {}.", ch))),
+                            None => break
+                        }
+                    }
+                    return Ok(Json::Object(object));
                 }
                 Some(',') if i == 0 && j == 0 && !on_key => {
                     if k.is_empty() || v.is_empty() {
-- 
2.43.0


From 874432d6f907d47bcc5f262884e2ec6e7784e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 04/14] fix: only one colon separates a key from its value

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index dcefcb2..3ef46fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -508,7 +508,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From 81e9ba04eb6f2cc3a9ece57df62222b95010d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 05/14] fix: numbers have no leading zeros

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ef46fc..fd4ec05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -743,7 +743,7 @@ fn valid_number(num: &str) -> bool {
         _ => ()
     }
 
-    true
+    iter.peek().is_none()
 }
 
 #[inline]
-- 
2.43.0


From ff783773dbf78292ee6443be5d456c96f052bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 06/14] fix: removing an index that is out of range is an
 error, not a panic

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fd4ec05..dd0025c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 553f127fb49aaa46b1e9e409e236861ed929d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 07/14] fix: numbers that are not finite encode as null

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index dd0025c..48ca46e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,7 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 56031698a30049ce32c02e194c800ef72a45dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 08/14] fix: a string or byte literal loses exactly its own
 quotes

---
 json_derive/parse/src/meta.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 6ec8067..7b4ed7c 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -280,9 +280,7 @@ macro_rules! fix_bytes {
         $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
             return Ok(
                 Lit::Bytes {
-                    bytes: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
+                    bytes: $ident[$prefix.len()..$ident.len() - $suffix.len()]
                         .as_bytes()
                         .to_vec(),
                     raw: $ident,
@@ -297,9 +295,7 @@ macro_rules! fix_string {
         $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
             return Ok(
                 Lit::String {
-                    string: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
+                    string: $ident[$prefix.len()..$ident.len() - $suffix.len()]
                         .to_string(),
                     raw: $ident,
                 }
-- 
2.43.0


From dcdd7b02d0d92c171e5ae0210b829c317187e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 09/14] fix: keep the lifetime of a reference type apart from
 the type's name

---
 json_derive/parse/src/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..075980b 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -295,6 +295,7 @@ impl ToString for Type {
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-- 
2.43.0


From a221581bb0cac8d50ae2721c03759ef125ebb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 10/14] fix: parse structs without any fields

---
 json_derive/parse/src/field.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index d211a28..17da359 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -124,6 +124,8 @@ impl Parse for Fields {
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
                 return Ok(Fields::StructFields(utils::split_tokens_by(group.stream(), ",")
                     .into_iter()
+                    // remove empty token
+                    .filter(|x| !x.is_empty())
                     .map(|x| StructFieldItem::parse(x))
                     .collect::<Result<Vec<StructFieldItem>>>()?));
             }
-- 
2.43.0


From 5b4179edf95e8b7cd9a54d5d754c2bdbb65d1493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 11/14] fix: accept an attribute with an empty argument list

---
 json_derive/parse/src/meta.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 7b4ed7c..c797df7 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -402,11 +402,6 @@ impl ToString for NestedMeta {
 
 impl Parse for NestedMeta {
     fn parse(input: TokenStream) -> Result<NestedMeta> {
-        // handle empty input
-        if input.is_empty() {
-            return Err(Error::new("got empty input when parsing nested meta item."));
-        }
-
         // convert single TokenStream to Vec<MetaItem> split by ','
         let items: Vec<MetaItem> = input
             // into iterator
-- 
2.43.0


From 98f41074d25e70cf4712a044af7fc5ed5bcc8c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 12/14] fix: use the literal of a key attribute as it is
 written

---
 json_derive/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..e70ac25 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -22,14 +22,15 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().expect("key attribute should be string");
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("\"{}\"", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("\"{}\"", x.ident)
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -74,14 +75,15 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().expect("key attribute should be string");
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("\"{}\"", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("\"{}\"", x.ident)
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (k, x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From b8e7cb46aa09bc5cceac0c2556a3e173214dcf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 13/14] fix: derive for type parameters with defaults

---
 json_derive/parse/src/generic.rs | 26 +++++++++++++++++++++++---
 json_derive/src/lib.rs           |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..a4124c1 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -28,6 +28,19 @@ impl Generics {
         self.n + 2
     }
 
+    // parameters with their bounds but without their defaults
+    pub fn without_defaults(&self) -> String {
+        if !self.items.is_empty() {
+            format!("<{}>", self.items
+                .iter()
+                .map(|x| x.declaration())
+                .collect::<Vec<String>>()
+                .join(", "))
+        } else {
+            String::default()
+        }
+    }
+
     pub fn only_idents(&self) -> String {
         if !self.items.is_empty() {
             format!("<{}>", self.items
@@ -176,10 +189,9 @@ impl GenericItem {
     pub fn is_static(&self) -> bool {
         &self.ident == "'static"
     }
-}
 
-impl ToString for GenericItem {
-    fn to_string(&self) -> String {
+    // name and bounds
+    fn declaration(&self) -> String {
         let mut gen = self.ident.clone();
 
         let mut buf = self.traits
@@ -199,6 +211,14 @@ impl ToString for GenericItem {
             gen.push_str(&buf.join(" + "));
         }
 
+        gen
+    }
+}
+
+impl ToString for GenericItem {
+    fn to_string(&self) -> String {
+        let mut gen = self.declaration();
+
         if let Some(ref default) = self.default {
             gen.push_str(" = ");
             gen.push_str(&default.to_string());
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index e70ac25..8348145 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.without_defaults()))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn to_json(&self) -> json::Json {
@@ -87,7 +87,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.without_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn from_json(json: &json::Json) -> Result<Self, json::Error> {
-- 
2.43.0


From 7f599bf332c8e92647b9d2b4681e691e718190da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 14/14] fix: parse items whose parts come from macro fragments

---
 json_derive/parse/src/lib.rs   |  2 ++
 json_derive/parse/src/utils.rs | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index e9b0d01..43a6eb6 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -103,6 +103,8 @@ impl Parse for Item {
             return Err(Error::new("got empty input when parsing item."));
         }
 
+        let input = utils::flatten(input);
+
         let keyword = input
             .clone()
             .into_iter()
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 1b02187..561f902 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -1,5 +1,5 @@
 use std::iter::FromIterator;
-use proc_macro::{TokenTree, TokenStream};
+use proc_macro::{TokenTree, TokenStream, Delimiter, Group};
 
 // punct_eq generate a closure to judge whether a TokenTree is
 // the given punct, which usually use in iter.filter() method.
@@ -12,6 +12,25 @@ pub fn punct_eq(c: char) -> impl FnMut(&TokenTree) -> bool {
     }
 }
 
+// macro fragments(such as $t:ty) are wrapped into groups without
+// delimiter, replace these groups with their tokens.
+pub fn flatten(input: TokenStream) -> TokenStream {
+    input
+        .into_iter()
+        .flat_map(|x| {
+            match x {
+                TokenTree::Group(ref group) if group.delimiter() == Delimiter::None => flatten(group.stream()),
+                TokenTree::Group(ref group) => {
+                    let mut flat = Group::new(group.delimiter(), flatten(group.stream()));
+                    flat.set_span(group.span());
+                    TokenTree::from(flat).into()
+                }
+                other => TokenStream::from(other)
+            }
+        })
+        .collect()
+}
+
 // split the given TokenStream to a Vec<TokenStream> by char, usually
 // use to split generic parameters because rust does not treated angle
 // bracket as a valid group delimiter. It is preferred to use split_tokens_by
-- 
2.43.0

