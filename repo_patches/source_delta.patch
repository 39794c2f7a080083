From d063359a358399f1601657c9fe0ad5219ebe6dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 01/46] fix: keep a parsed request's arguments when the parser
 resets

---
 engine/src/command/request/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..78b4a6b 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -2,7 +2,10 @@ use super::{super::ContextConclusion, Request};
 use crate::{command::CommandId, state::KeyType};
 use alloc::borrow::Cow;
 use arrayvec::ArrayVec;
-use core::convert::{TryFrom, TryInto};
+use core::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 type Conclusion<'a> = ContextConclusion<(CommandId, Option<KeyType>)>;
 
@@ -87,13 +90,16 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
+                    // The positions belong to the finished request, so take
+                    // them before resetting for the next one.
+                    let positions = mem::replace(&mut self.positions, ArrayVec::new());
                     self.reset();
 
                     return Ok(Some(Request {
                         buf: Cow::Borrowed(buf),
                         command_id,
                         key_type,
-                        positions: Cow::Borrowed(&self.positions),
+                        positions: Cow::Owned(positions),
                     }));
                 }
                 Conclusion::Incomplete => return Ok(None),
-- 
2.43.0


From b8aa72acbe061a78bfecad9334d46415d8aceb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 02/46] fix: read the request's key type from its own byte

---
 engine/src/command/request/context.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 78b4a6b..0f8b7fb 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -120,26 +120,31 @@ impl Context {
         // If the first bit is 0, then this byte is the argument length, and the
         // type of key to work with is not a requirement.
         let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+            let key_type_id = match buf.get(1) {
+                Some(key_type_id) => *key_type_id,
+                None => return Ok(Conclusion::Incomplete),
+            };
 
             Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
         } else {
             None
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        self.idx = self.idx.wrapping_add(1 + key_type.is_some() as usize);
 
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Ok(Conclusion::Finished((command_id, key_type)));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From aaabace8568e857f03b179597e6a1f452a1c3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 03/46] fix: locate parsed arguments after their length prefix

---
 engine/src/command/request/context.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 0f8b7fb..afb9941 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -184,13 +184,15 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let arg_end = self.idx + Self::ARG_LEN_BYTES + arg_len;
+
+        if buf.len() < arg_end {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // Positions are the index of the last byte of each argument.
+        self.positions.push(arg_end - 1);
+        self.idx = arg_end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
-- 
2.43.0


From a0448acaa9990ef5a6d9acc12bdd16f95054c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 04/46] fix: finish parsing a request that has no arguments

---
 engine/src/command/request/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index afb9941..5fc59be 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -167,6 +167,10 @@ impl Context {
         };
         self.idx = self.idx.saturating_add(1);
 
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         Ok(Conclusion::Next)
     }
 
-- 
2.43.0


From c504c644df29bcaf1c5accefdd1e4e3b92e3f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 05/46] fix: limit a parsed request to its own bytes

---
 engine/src/command/request/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 5fc59be..e2b65fa 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -93,10 +93,12 @@ impl Context {
                     // The positions belong to the finished request, so take
                     // them before resetting for the next one.
                     let positions = mem::replace(&mut self.positions, ArrayVec::new());
+                    // The buffer may already hold data following the request.
+                    let end = self.idx;
                     self.reset();
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        buf: Cow::Borrowed(&buf[..end]),
                         command_id,
                         key_type,
                         positions: Cow::Owned(positions),
-- 
2.43.0


From 69424fadf1a973b4cc7faec50c628cb11afab76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 06/46] fix: create a missing float key as a float when
 incrementing it

---
 engine/src/command/impl/increment_by.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..3b5a4f8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -11,7 +11,7 @@ impl IncrementBy {
         amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+        let mut key = hop.state().key_or_insert_with(key, Value::float);
         let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         *float += amount;
-- 
2.43.0


From 648ae9aa19989d6bd4c8022faeee99c8ddf51003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 07/46] fix: wrap instead of panicking when an integer key
 overflows

---
 engine/src/command/impl/decrement_by.rs | 2 +-
 engine/src/command/impl/increment_by.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..b094bc1 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -12,7 +12,7 @@ impl Dispatch for DecrementBy {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
         if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 3b5a4f8..7a7bc85 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -32,7 +32,7 @@ impl IncrementBy {
             .as_integer_mut()
             .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int += amount;
+        *int = int.wrapping_add(amount);
 
         response::write_int(resp, *int);
 
-- 
2.43.0


From 4f596913e75d03de364144b707a8a2abe3827b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 08/46] fix: increment and decrement float keys as floats

---
 engine/src/command/impl/decrement.rs    |  2 +-
 engine/src/command/impl/decrement_by.rs | 12 +++++++-----
 engine/src/command/impl/increment.rs    |  2 +-
 engine/src/command/impl/increment_by.rs | 20 +++++++++++++++-----
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..afeeacd 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -11,7 +11,7 @@ impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
+        if IncrementBy::key_type(hop, req, key) == Some(KeyType::Float) {
             IncrementBy::increment_float_by(hop, key, -1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, -1, resp)
diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index b094bc1..402c099 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::Hop;
+use crate::{state::KeyType, Hop};
 use alloc::vec::Vec;
 
 pub struct DecrementBy;
@@ -11,12 +11,14 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if IncrementBy::key_type(hop, req, key) == Some(KeyType::Float) {
+            let float: f64 = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int: i64 = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         }
     }
 }
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..e82153e 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -11,7 +11,7 @@ impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
+        if IncrementBy::key_type(hop, req, key) == Some(KeyType::Float) {
             IncrementBy::increment_float_by(hop, key, 1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, 1, resp)
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7a7bc85..d3834c8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,10 +1,18 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
 
 impl IncrementBy {
+    /// The type requested to work with, or else the type the key already has.
+    pub fn key_type(hop: &Hop, req: &Request, key: &[u8]) -> Option<KeyType> {
+        req.key_type().or_else(|| hop.state().key_type(key))
+    }
+
     pub fn increment_float_by(
         hop: &Hop,
         key: &[u8],
@@ -44,12 +52,14 @@ impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if Self::key_type(hop, req, key) == Some(KeyType::Float) {
+            let float = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
             Self::increment_float_by(hop, key, float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+
+            Self::increment_int_by(hop, key, int, resp)
         }
     }
 }
-- 
2.43.0


From fb7e615bb489f83a599418b1ce413dc14e0e46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 09/46] fix: don't overwrite concurrently created keys when
 inserting a default

---
 engine/src/state/mod.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..fdb89a9 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,9 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        // Hold the entry's lock across the check and the insert, or else a value
+        // that was concurrently inserted could be overwritten.
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From ad1bc3b358fd8584aa74fb42ca9bf0e3b2a9b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 10/46] fix: replace a key's value in one step when setting it

---
 engine/src/command/impl/set.rs | 36 ++++++++--------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..da7b85f 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -10,13 +10,9 @@ pub struct Set;
 impl Set {
     fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *boolean = arg;
+        *key = Value::Boolean(arg);
 
         response::write_bool(resp, arg);
 
@@ -27,11 +23,9 @@ impl Set {
         let arg = req
             .typed_arg::<&[u8]>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *bytes = arg.to_vec();
+        *key = Value::Bytes(arg.to_vec());
 
         response::write_bytes(resp, arg);
 
@@ -40,11 +34,9 @@ impl Set {
 
     fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *float = arg;
+        *key = Value::Float(arg);
 
         response::write_float(resp, arg);
 
@@ -53,13 +45,9 @@ impl Set {
 
     fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int = arg;
+        *key = Value::Integer(arg);
 
         response::write_int(resp, arg);
 
@@ -68,11 +56,9 @@ impl Set {
 
     fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *list = args.map(ToOwned::to_owned).collect();
+        *key = Value::List(args.map(ToOwned::to_owned).collect());
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
 
         response::write_list(resp, args);
@@ -82,26 +68,22 @@ impl Set {
 
     fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_map(resp, &args);
 
-        *map = args;
+        *key = Value::Map(args);
 
         Ok(())
     }
 
     fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_set(resp, &args);
 
-        *set = args;
+        *key = Value::Set(args);
 
         Ok(())
     }
@@ -110,11 +92,9 @@ impl Set {
         let arg = req
             .typed_arg::<&str>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *string = arg.to_owned();
+        *key = Value::String(arg.to_owned());
 
         response::write_str(resp, arg);
 
-- 
2.43.0


From cb4a602f9a5bbaeb855c3ffbd6f60ea870e7f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 11/46] fix: never overwrite an existing key when renaming

---
 engine/src/command/impl/rename.rs |  9 ++++++++-
 engine/src/state/mod.rs           | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index 45d6c8c..976377f 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -23,7 +23,14 @@ impl Dispatch for Rename {
         }
 
         let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
-        state.insert(arg.to_vec(), v);
+
+        // The new name might have been taken since it was checked, in which case
+        // the value keeps its name instead of overwriting the other one.
+        if let Err(v) = state.insert_new(arg.to_vec(), v) {
+            let _ = state.insert_new(key.to_vec(), v);
+
+            return Err(DispatchError::PreconditionFailed);
+        }
 
         response::write_bytes(resp, arg);
 
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index fdb89a9..7265855 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -5,7 +5,10 @@ pub use self::value::Value;
 use alloc::{borrow::ToOwned, string::String, sync::Arc, vec::Vec};
 use core::convert::TryFrom;
 use dashmap::{
-    mapref::one::{Ref, RefMut},
+    mapref::{
+        entry::Entry,
+        one::{Ref, RefMut},
+    },
     DashMap,
 };
 
@@ -87,6 +90,19 @@ impl State {
         self.0.insert(key, value)
     }
 
+    /// Insert a value by key if the key isn't taken, returning the given value
+    /// otherwise.
+    pub(crate) fn insert_new(&self, key: Vec<u8>, value: Value) -> Result<(), Value> {
+        match self.0.entry(key) {
+            Entry::Occupied(_) => Err(value),
+            Entry::Vacant(entry) => {
+                entry.insert(value);
+
+                Ok(())
+            }
+        }
+    }
+
     /// Remove a value by key, returning both the owned key and value if
     /// present.
     ///
-- 
2.43.0


From 9355ce5edad2fabf6102dd1e7e8ee3b79f1b55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 12/46] fix: make Value::is_string match strings

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From be5c5ec98ef0987ecb800850c3f0df2f144705b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 13/46] fix: allocate session ids atomically

---
 engine/src/session/manager.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..715fa36 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,9 +27,10 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        let id = self.next_id();
+        let session = Session::new(client_token, id);
 
-        let value = match self.0.sessions.entry(self.next_id()) {
+        let value = match self.0.sessions.entry(id) {
             Entry::Occupied(_) => {
                 unreachable!();
             }
@@ -38,10 +39,6 @@ impl SessionManager {
 
         self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
-
         value
     }
 
@@ -50,7 +47,7 @@ impl SessionManager {
     }
 
     fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
+        self.0.next_id.fetch_add(1, Ordering::SeqCst)
     }
 }
 
-- 
2.43.0


From fb0a12662b37fd71abd1f5c935db9d7f8ad5d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 14/46] fix: count ended sessions

---
 engine/src/command/impl/stats.rs | 1 +
 engine/src/session/manager.rs    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 715fa36..9219639 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -43,7 +43,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 
     fn next_id(&self) -> u32 {
-- 
2.43.0


From dca30e3604224b10da3f78b5a4b9c6971efeeeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 15/46] fix: let several sessions subscribe to one key

---
 engine/src/pubsub/manager.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..34f1726 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
-- 
2.43.0


From cf15e0124ac4d933d8c8b683da5484a56536c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 16/46] fix: forget a removed session's subscriptions in both
 indices

---
 engine/src/pubsub/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 34f1726..acd3685 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,8 +80,12 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                for (key, sub) in subscriptions.into_iter() {
                     sub.close();
+
+                    if let Some(sessions) = self.0.keys.get(&key) {
+                        sessions.remove(&session_id);
+                    }
                 }
             })
             .is_some()
-- 
2.43.0


From 40ffc7a474727bda844c6e6210d9df878d152740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 17/46] fix: decode empty bytes, lists and sets

---
 engine/src/command/response/context.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..7e6450a 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -390,11 +390,21 @@ impl Context {
             ResponseType::Bytes => {
                 let len = u32::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(
+                        Response::Value(Value::bytes()),
+                    )));
+                }
+
                 Stage::Bytes { len }
             }
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::list()))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +425,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::set()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From 36eec970728efb892d6669fd78ca4d15ab12c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 18/46] fix: report invalid error codes instead of panicking
 when decoding

---
 engine/src/command/response/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 7e6450a..707ccf4 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -215,7 +215,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant =
+            DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -366,7 +367,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
-- 
2.43.0


From be0602b14ced68394f88b641b1596a1128eaca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 19/46] fix: don't underflow when a response is shorter than
 its length field

---
 engine/src/command/response/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 707ccf4..ac9e1a0 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -383,7 +383,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
-- 
2.43.0


From 1b808d94f39bd3875973c5d8666b8538d8f74cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 20/46] fix: refuse more arguments than a request can hold

---
 engine/src/command/request/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..ae888e1 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,7 +171,7 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -184,7 +184,7 @@ impl RequestBuilder {
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len() * 2) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,8 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        self.argument_count as usize + amount > u8::MAX as usize
     }
 
     fn update_count(&mut self) {
@@ -242,6 +242,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
-- 
2.43.0


From 24d18e7ce3deb1aca07eac2c3bc5d1cc991880c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 21/46] fix: refuse arguments to commands that take none

---
 engine/src/command/request/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index ae888e1..9e18cf7 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -223,7 +223,14 @@ impl RequestBuilder {
     }
 
     fn arguments_would_overfill(&self, amount: usize) -> bool {
-        self.argument_count as usize + amount > u8::MAX as usize
+        // Simple commands have no arguments.
+        let max = if self.command_id.is_simple() {
+            0
+        } else {
+            u8::MAX as usize
+        };
+
+        self.argument_count as usize + amount > max
     }
 
     fn update_count(&mut self) {
-- 
2.43.0


From 950eee130c1791a00f550b2e4d3fea7f893b78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 22/46] fix: refuse empty lists and collections with empty
 items

---
 engine/src/command/request/builder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 9e18cf7..0742d27 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -175,11 +175,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
+                if list.is_empty() || list.iter().any(Vec::is_empty) {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
 
+                for item in list {
                     self.push_argument(item)?;
                 }
             }
@@ -188,7 +188,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if map.is_empty() {
+                if map.is_empty()
+                    || map
+                        .iter()
+                        .any(|r| r.key().is_empty() || r.value().is_empty())
+                {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
@@ -202,7 +206,7 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if set.is_empty() {
+                if set.is_empty() || set.iter().any(|item| item.is_empty()) {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
-- 
2.43.0


From 29588769be3d013ca5b5910a3f1b57b4ba57558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 23/46] fix: keep the argument count when turning a request
 into a builder

---
 engine/src/command/request/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 0742d27..e19ffee 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -292,6 +292,7 @@ impl RequestBuilder {
 impl From<Request<'_>> for RequestBuilder {
     fn from(request: Request) -> Self {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
+        builder.argument_count = request.arg_count() as u8;
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
 
-- 
2.43.0


From bbb6f768dd32613d07bf20c996afd2154ce1600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 24/46] fix: report the number of arguments left in an argument
 iterator

---
 engine/src/command/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..0483451 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -101,7 +101,7 @@ pub struct Arguments<'a> {
 
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
-        self.to
+        self.to.saturating_sub(self.idx)
     }
 }
 
-- 
2.43.0


From 2601df454bf8df2b7c3d8dd9dd4550bcb9146a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 25/46] fix: answer requests when they are complete, not at
 newlines

---
 server/src/main.rs | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..73e2b28 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,7 +14,7 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
@@ -83,36 +83,41 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut input = Vec::new();
     let mut ctx = Context::new();
 
-    let (reader, mut writer) = socket.into_split();
-    let mut reader = BufReader::new(reader);
+    let (mut reader, mut writer) = socket.into_split();
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    while let Ok(size) = reader.read_buf(&mut input).await {
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        // What was read can be a part of a request, or several requests.
+        loop {
+            let consumed = match ctx.feed(&input) {
+                Ok(Some(req)) => {
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+
+                    req.as_bytes().len()
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
 
-                res.copy_to(&mut resp);
-            }
-        };
+                    input.len()
+                }
+            };
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+            writer.write_all(&resp).await?;
+            resp.clear();
+            input.drain(..consumed);
+        }
     }
 
     Ok(())
-- 
2.43.0


From 1e113444ca21ecc89a041027ed57347ea6fee908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 26/46] fix: keep accepting connections after failing to accept
 one

---
 server/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 73e2b28..86b61ff 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -61,8 +61,18 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            Err(why) => {
+                // Such as the peer being gone already or there being too many
+                // open sockets, after which there can be more connections.
+                warn!("Accepting a connection failed: {:?}", why);
+                task::yield_now().await;
+            }
+        }
     }
 
     Ok(())
-- 
2.43.0


From 5601348fa49ea955a52a5c013fb2b1b6f439070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 27/46] fix: don't panic when a peer is gone before it is
 handled

---
 server/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 86b61ff..42ec848 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -79,7 +79,14 @@ async fn main() -> Result<(), Box<dyn Error>> {
 }
 
 async fn handle_socket(socket: TcpStream, hop: Hop) {
-    let addr = socket.peer_addr().unwrap();
+    let addr = match socket.peer_addr() {
+        Ok(addr) => addr,
+        Err(why) => {
+            warn!("Peer is already gone: {:?}", why);
+
+            return;
+        }
+    };
 
     log::debug!("Connected to peer {}", addr);
 
-- 
2.43.0


From 8e71ad0c940f18939f0f5d18a44f9bc068087e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 28/46] fix: read the server's responses

---
 client/src/backend/server.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..701f61e 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -15,7 +15,10 @@ use hop_engine::{
     },
     state::{KeyType, Value},
 };
-use std::{error::Error as StdError, io::Error as IoError};
+use std::{
+    error::Error as StdError,
+    io::{Error as IoError, ErrorKind},
+};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{
@@ -123,20 +126,11 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = Vec::new();
 
         let mut reader = self.reader.lock().await;
 
         loop {
-            let read_amount = reader
-                .read_exact(&mut resp)
-                .await
-                .map_err(|source| Error::ReadingMessage { source })?;
-
-            if read_amount == 0 {
-                return Err(Error::ConnectionClosed);
-            }
-
             match ctx.feed(&resp).unwrap() {
                 Instruction::Concluded(response) => {
                     return match response {
@@ -146,7 +140,16 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    let start = resp.len();
+                    resp.resize(start + bytes, 0);
+
+                    reader
+                        .read_exact(&mut resp[start..])
+                        .await
+                        .map_err(|source| match source.kind() {
+                            ErrorKind::UnexpectedEof => Error::ConnectionClosed,
+                            _ => Error::ReadingMessage { source },
+                        })?;
                 }
             }
         }
-- 
2.43.0


From 9c0efbcd54fc26d26b70e8414edbd99fa45e941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 29/46] fix: report undecodable responses instead of panicking

---
 client/src/backend/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 701f61e..50bd364 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -131,7 +131,7 @@ impl ServerBackend {
         let mut reader = self.reader.lock().await;
 
         loop {
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
-- 
2.43.0


From 6bfdcf264fb91b43d702a569157f2dd1c8f013a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 30/46] fix: send the key type when incrementing on a server

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 50bd364..a0af4b0 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -290,8 +290,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From 595cdafc50e983416390621d37df9a21b6248877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 31/46] fix: return connection errors instead of panicking

---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From c75065e80ce6b9d2cc9de214c5b620d96338cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 32/46] fix: never return another request's response

---
 client/src/backend/server.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index a0af4b0..cc56df2 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -6,6 +6,7 @@ use core::{
     convert::TryInto,
     fmt::{Display, Formatter, Result as FmtResult},
     result::Result as StdResult,
+    sync::atomic::{AtomicBool, Ordering},
 };
 use hop_engine::{
     command::{
@@ -99,6 +100,8 @@ impl From<RequestBuilderError> for Error {
 
 #[derive(Debug)]
 pub struct ServerBackend {
+    /// Whether a request's response hasn't been fully read.
+    in_flight: AtomicBool,
     reader: Mutex<BufReader<OwnedReadHalf>>,
     writer: Mutex<OwnedWriteHalf>,
 }
@@ -112,15 +115,25 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
+            in_flight: AtomicBool::new(false),
             reader: Mutex::new(BufReader::new(reader)),
             writer: Mutex::new(writer),
         })
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        self.writer
-            .lock()
-            .await
+        // Responses come in the order of the requests, so nothing else may be sent
+        // until this request's response was read.
+        let mut writer = self.writer.lock().await;
+        let mut reader = self.reader.lock().await;
+
+        // If the previous request was cancelled or failed part-way, then what
+        // is next on the connection isn't known to be this request's response.
+        if self.in_flight.swap(true, Ordering::Relaxed) {
+            return Err(Error::ConnectionClosed);
+        }
+
+        writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
@@ -128,16 +141,16 @@ impl ServerBackend {
         let mut ctx = Context::new();
         let mut resp = Vec::new();
 
-        let mut reader = self.reader.lock().await;
-
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
+                    self.in_flight.store(false, Ordering::Relaxed);
+
                     return match response {
                         Response::Value(value) => Ok(value),
                         Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
                         Response::ParseError(reason) => Err(Error::BadRequest { reason }),
-                    }
+                    };
                 }
                 Instruction::ReadBytes(bytes) => {
                     let start = resp.len();
-- 
2.43.0


From d3cecb9f59e94d60b4c2fb4e44bb4d50aeae07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 33/46] fix: print lists, maps and sets in full

---
 cli/lib/src/print.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..9b3b49e 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,8 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    // The last item isn't followed by a newline.
+    output.pop();
 
     output
 }
@@ -36,7 +37,8 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    // The last item isn't followed by a newline.
+    output.pop();
 
     output
 }
-- 
2.43.0


From 4d1ed6fbee59a8eab913be6a085946e78f2494d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 34/46] fix: refuse a map key without a value

---
 cli/lib/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..d876f8f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -159,7 +159,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From 8c5b6bfe4cd40cdfb8427fe237b8aba7b6226974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 35/46] fix: don't name a key type that the command line
 doesn't

---
 cli/lib/src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index d876f8f..231845f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,13 +69,12 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
 
     let mut arg_iter = split.peekable();
 
     if arg_iter.peek().is_some() {
-        for arg in input_args(arg_iter, cmd_id, key_type)? {
+        for arg in input_args(arg_iter, cmd_id, key_type.unwrap_or(KeyType::Bytes))? {
             builder.bytes(arg)?;
         }
     }
-- 
2.43.0


From 841e9bba85abad23d29260a9362e050644379b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 36/46] fix: increment and decrement by the key type on the
 command line

---
 cli/lib/src/process.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..5878ced 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -211,7 +214,12 @@ where
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => client.decrement(key).float().await.map(Value::Float),
+                Some(KeyType::Integer) => client.decrement(key).int().await.map(Value::Integer),
+                _ => client.decrement(key).await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(v).into())
         }
@@ -267,7 +275,12 @@ where
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => client.increment(key).float().await.map(Value::Float),
+                Some(KeyType::Integer) => client.increment(key).int().await.map(Value::Integer),
+                _ => client.increment(key).await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(v).into())
         }
-- 
2.43.0


From 3622f3118c8c5495229c9b986cde13e86bc0e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 37/46] hook: let verification harnesses name a session

---
 engine/src/session/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine/src/session/mod.rs b/engine/src/session/mod.rs
index 9d81aeb..71167a3 100644
--- a/engine/src/session/mod.rs
+++ b/engine/src/session/mod.rs
@@ -5,6 +5,14 @@ pub use manager::SessionManager;
 #[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub struct SessionId(u32);
 
+#[cfg(hop_verif)]
+impl SessionId {
+    /// Lets verification harnesses name a session.
+    pub fn verif_new(id: u32) -> Self {
+        Self(id)
+    }
+}
+
 #[derive(Debug)]
 pub struct Session {
     pub client_token: [u8; 32],
-- 
2.43.0


From 77a756c37933e5dc702321fd64daa5adbde55014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 38/46] fix: unsubscribe a session from a key exactly once

---
 engine/src/pubsub/manager.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index acd3685..924b3a5 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -54,22 +54,22 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
+        // The session is kept locked until the key has been updated too, so that
+        // subscribing and unsubscribing a session take turns.
+        let session = match self.0.sessions.get(&session_id) {
+            Some(session) => session,
+            None => return false,
+        };
+
+        if session.remove(object_key).is_none() {
+            return false;
+        }
+
+        if let Some(sessions) = self.0.keys.get(object_key) {
+            sessions.remove(&session_id);
+        }
 
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        true
     }
 
     /// Unsubscribes a session from all of its subscriptions.
-- 
2.43.0


From 0717b92bab5ce11ee99171b107faec4dbf6c8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:59 +0000
Subject: [PATCH 39/46] fix: get a key as a type only if it is of that type

---
 client/src/backend/memory.rs          | 4 ++--
 client/src/backend/mod.rs             | 2 +-
 client/src/backend/server.rs          | 4 ++--
 client/src/request/get/get_boolean.rs | 4 ++--
 client/src/request/get/get_bytes.rs   | 4 ++--
 client/src/request/get/get_float.rs   | 4 ++--
 client/src/request/get/get_integer.rs | 4 ++--
 client/src/request/get/get_list.rs    | 4 ++--
 client/src/request/get/get_map.rs     | 7 +++++--
 client/src/request/get/get_set.rs     | 7 +++++--
 client/src/request/get/get_string.rs  | 4 ++--
 client/src/request/get/mod.rs         | 2 +-
 12 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/client/src/backend/memory.rs b/client/src/backend/memory.rs
index 1d00a44..c216280 100644
--- a/client/src/backend/memory.rs
+++ b/client/src/backend/memory.rs
@@ -216,8 +216,8 @@ impl Backend for MemoryBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send(builder)
diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..3483158 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -52,7 +52,7 @@ pub trait Backend: Send + Sync {
     where
         Self: Sized;
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error>
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error>
     where
         Self: Sized;
 
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index cc56df2..c38036d 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -275,8 +275,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send_and_wait(builder).await
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..dfd34ce 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Boolean)).await?;
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..0f10cb3 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Bytes)).await?;
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..dc4c2f4 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Float)).await?;
 
                 match value {
                     Value::Float(float) => Ok(float),
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..cd09047 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Integer)).await?;
 
                 match value {
                     Value::Integer(int) => Ok(int),
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..5a0afc6 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::List)).await?;
 
                 match value {
                     Value::List(list) => Ok(list),
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..cad04e6 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,10 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{
+    dashmap::DashMap,
+    state::{KeyType, Value},
+};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -41,7 +44,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Map)).await?;
 
                 match value {
                     Value::Map(map) => Ok(map),
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..ae382b5 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,10 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{
+    dashmap::DashSet,
+    state::{KeyType, Value},
+};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -41,7 +44,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Set)).await?;
 
                 match value {
                     Value::Set(set) => Ok(set),
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..fc7c444 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::String)).await?;
 
                 match value {
                     Value::String(string) => Ok(string),
diff --git a/client/src/request/get/mod.rs b/client/src/request/get/mod.rs
index 770d270..9819d4c 100644
--- a/client/src/request/get/mod.rs
+++ b/client/src/request/get/mod.rs
@@ -281,7 +281,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin + 'a>
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                backend.get(key).await
+                backend.get(key, None).await
             }));
         }
 
-- 
2.43.0


From da3e675d071544a6445c0da162b92861d68fb6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 40/46] fix: refuse responses that aren't of the type asked for

---
 client/src/backend/server.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index c38036d..18e9e6e 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -121,6 +121,20 @@ impl ServerBackend {
         })
     }
 
+    /// Sends a request whose response has to be a value of a type.
+    async fn send_for(
+        &self,
+        request: impl Into<Request<'_>>,
+        key_type: Option<KeyType>,
+    ) -> Result<Value> {
+        let value = self.send_and_wait(request).await?;
+
+        match key_type {
+            Some(key_type) if key_type != value.kind() => Err(Error::BadResponse),
+            _ => Ok(value),
+        }
+    }
+
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
         // Responses come in the order of the requests, so nothing else may be sent
         // until this request's response was read.
@@ -195,7 +209,7 @@ impl Backend for ServerBackend {
             _ => return Err(Error::KeyTypeUnsupported { key_type }),
         }
 
-        self.send_and_wait(builder).await
+        self.send_for(builder, Some(key_type)).await
     }
 
     async fn decrement_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -211,7 +225,7 @@ impl Backend for ServerBackend {
 
         builder.value(value)?;
 
-        let value = self.send_and_wait(builder).await?;
+        let value = self.send_for(builder, Some(key_type)).await?;
 
         match value {
             Value::Float(float) => Ok(Value::Float(float)),
@@ -279,7 +293,7 @@ impl Backend for ServerBackend {
         let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
-        self.send_and_wait(builder).await
+        self.send_for(builder, key_type).await
     }
 
     async fn increment_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -294,7 +308,7 @@ impl Backend for ServerBackend {
         builder.bytes(key)?;
         builder.value(value)?;
 
-        let value = self.send_and_wait(builder).await?;
+        let value = self.send_for(builder, Some(key_type)).await?;
 
         match value {
             Value::Float(float) => Ok(Value::Float(float)),
@@ -343,7 +357,7 @@ impl Backend for ServerBackend {
 
         match value {
             Value::Integer(int) => {
-                let number = int as u8;
+                let number: u8 = int.try_into().map_err(|_| Error::BadResponse)?;
 
                 number
                     .try_into()
@@ -411,7 +425,7 @@ impl Backend for ServerBackend {
         builder.bytes(key)?;
         builder.value(value)?;
 
-        self.send_and_wait(builder).await
+        self.send_for(builder, Some(key_type)).await
     }
 }
 
-- 
2.43.0


From 393bfbd9eda32692a4e2fa17a7d6b8b84bf53e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:09 +0000
Subject: [PATCH 41/46] fix: get a key by the key type on the command line

---
 cli/lib/src/process.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index 5878ced..bffe1f0 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -268,7 +268,18 @@ where
         CommandId::Get => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let value = client.get(key).await.map_err(backend_err)?;
+            let value = match req.key_type() {
+                Some(KeyType::Boolean) => client.get(key).bool().await.map(Value::Boolean),
+                Some(KeyType::Bytes) => client.get(key).bytes().await.map(Value::Bytes),
+                Some(KeyType::Float) => client.get(key).float().await.map(Value::Float),
+                Some(KeyType::Integer) => client.get(key).int().await.map(Value::Integer),
+                Some(KeyType::List) => client.get(key).list().await.map(Value::List),
+                Some(KeyType::Map) => client.get(key).map().await.map(Value::Map),
+                Some(KeyType::Set) => client.get(key).set().await.map(Value::Set),
+                Some(KeyType::String) => client.get(key).str().await.map(Value::String),
+                None => client.get(key).await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(value).into())
         }
-- 
2.43.0


From 72f3b6199a02f5a7013d50648a5996ca1fdfd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:10 +0000
Subject: [PATCH 42/46] fix: refuse key types that a command can't be given on
 the command line

---
 cli/lib/src/process.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index bffe1f0..f4bb78c 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -211,6 +211,18 @@ where
     B::Error: Error,
 {
     match req.command_id() {
+        CommandId::Delete
+        | CommandId::Exists
+        | CommandId::Rename
+        | CommandId::Stats
+        | CommandId::Type
+            if req.key_type().is_some() =>
+        {
+            Err(InnerProcessError::KeyTypeUnexpected)
+        }
+        CommandId::Keys if req.key_type().map_or(false, |kind| kind != KeyType::Map) => {
+            Err(InnerProcessError::KeyTypeInvalid)
+        }
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-- 
2.43.0


From 67a3483c4ee2143a3603fa6681794c1df96f369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 43/46] fix: count in integers by other key types on the
 command line

---
 cli/lib/src/process.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index f4bb78c..5e856a1 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -228,8 +228,8 @@ where
 
             let v = match req.key_type() {
                 Some(KeyType::Float) => client.decrement(key).float().await.map(Value::Float),
-                Some(KeyType::Integer) => client.decrement(key).int().await.map(Value::Integer),
-                _ => client.decrement(key).await,
+                Some(_) => client.decrement(key).int().await.map(Value::Integer),
+                None => client.decrement(key).await,
             }
             .map_err(backend_err)?;
 
@@ -300,8 +300,8 @@ where
 
             let v = match req.key_type() {
                 Some(KeyType::Float) => client.increment(key).float().await.map(Value::Float),
-                Some(KeyType::Integer) => client.increment(key).int().await.map(Value::Integer),
-                _ => client.increment(key).await,
+                Some(_) => client.increment(key).int().await.map(Value::Integer),
+                None => client.increment(key).await,
             }
             .map_err(backend_err)?;
 
-- 
2.43.0


From c01ae786ba1e24abca40c48e6782f88a32177c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:47 +0000
Subject: [PATCH 44/46] fix: a range of arguments ended or started outside the
 arguments

Request::args with a range that ends beyond the last argument reported more
arguments than it yielded, and one that starts behind its end yielded the
arguments behind it.
---
 engine/src/command/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 0483451..41e17e3 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -148,9 +148,10 @@ impl<'a> Request<'a> {
             Bound::Included(amt) => *amt + 1,
             Bound::Unbounded => self.arg_count(),
         };
+        let end = end.min(self.arg_count());
 
         Some(Arguments {
-            idx: start,
+            idx: start.min(end),
             request: self,
             to: end,
         })
-- 
2.43.0


From c144de0b9c8de822b31a73d76ef4a048666520ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:22 +0000
Subject: [PATCH 45/46] fix: adding a session panicked when the ids had started
 over

Once 2^32 sessions had been added the ids start over, and adding a session
panicked if a session that was there since then still had the id.
---
 engine/src/session/manager.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 9219639..31c7467 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,14 +27,14 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let id = self.next_id();
-        let session = Session::new(client_token, id);
+        let value = loop {
+            let id = self.next_id();
 
-        let value = match self.0.sessions.entry(id) {
-            Entry::Occupied(_) => {
-                unreachable!();
+            // The ids start over at some point, and a session that's been
+            // there since may still have this one.
+            if let Entry::Vacant(v) = self.0.sessions.entry(id) {
+                break v.insert(Session::new(client_token, id));
             }
-            Entry::Vacant(v) => v.insert(session),
         };
 
         self.0.metrics_writer.increment(Metric::SessionsStarted);
-- 
2.43.0


From 8d59eed1b33eacdca29e545cdc3badad1d8c6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:26 +0000
Subject: [PATCH 46/46] hook: set the next session id (cfg hop_verif)

---
 engine/src/session/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 31c7467..4a2af52 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -52,6 +52,12 @@ impl SessionManager {
         removed
     }
 
+    /// Lets verification harnesses have the ids start over.
+    #[cfg(hop_verif)]
+    pub fn verif_set_next_id(&self, id: u32) {
+        self.0.next_id.store(id, Ordering::SeqCst);
+    }
+
     fn next_id(&self) -> u32 {
         self.0.next_id.fetch_add(1, Ordering::SeqCst)
     }
-- 
2.43.0

