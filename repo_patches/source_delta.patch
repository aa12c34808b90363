From 016b286de4792aa7d9143bdeff5b2f7e7ce3668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 1/4] fix: do not append an empty element to an object path

Appending an empty element returned true and left an invalid path like "/x/".
---
 src/value/object_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..56abda2 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -164,7 +164,8 @@ impl ObjectPath {
     /// Append an element to the object path.
     ///
     /// Returns `true` if the new element could be appended, otherwise `false`.
-    /// An element cannot be appended if the element contain a character, which is not allowed.
+    /// An element cannot be appended if the element is empty or contain a character, which is not
+    /// allowed.
     ///
     /// # Example
     /// ```
@@ -179,6 +180,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From 47742f2ad05e1b9e164f7720ae6d5f176ef318d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 2/4] fix: match everything below the root path in path
 namespaces

path_namespace='/' and argNpath='/' matched only the path "/" itself.
---
 src/match_rule/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..abcc014 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,7 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From 0341dc27517a6f905aa6661455e02b0dab0ec0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 3/4] fix: do not encode a body signature for an empty body

A header constructed with a signature field and an empty body was encoded to a
message, which cannot be decoded.
---
 src/encode/message/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..056f837 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,8 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            // Without a body there is nothing the signature could describe
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From a265b2e5b169aa7c0cbc260d4ad0051bc63d53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 4/4] fix: do not print a signature with an empty struct

An empty struct type was printed as "()", which is not a valid signature.
---
 src/value/type_enum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..db771f0 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -243,6 +243,9 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                if signature.is_empty() {
+                    return Err(TypeError::InvalidChar(b')'));
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0

