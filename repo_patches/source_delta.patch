From 9a096dff0f0aed92ec3fd072e2ec1ed815378249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 01/36] fix: a collection that loses its last element no longer
 exists

---
 component/dict/src/cmd/deque/pop.rs                      | 3 +++
 component/dict/src/cmd/kvp/del.rs                        | 9 +++++----
 component/dict/src/cmd/set/remove.rs                     | 9 +++++----
 component/dict/src/cmd/sorted_set/add.rs                 | 8 ++++++--
 component/dict/src/cmd/sorted_set/remove.rs              | 9 +++++----
 component/dict/src/cmd/sorted_set/remove_by_lex_range.rs | 3 +++
 .../dict/src/cmd/sorted_set/remove_by_rank_range.rs      | 3 +++
 .../dict/src/cmd/sorted_set/remove_by_score_range.rs     | 3 +++
 8 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/component/dict/src/cmd/deque/pop.rs b/component/dict/src/cmd/deque/pop.rs
index 439dbde..4b69edd 100644
--- a/component/dict/src/cmd/deque/pop.rs
+++ b/component/dict/src/cmd/deque/pop.rs
@@ -33,6 +33,9 @@ impl<D: Dict> Write<Vec<DataType>, D> for Req {
                     let len = deque.len();
                     deque.drain(len - count..).rev().collect()
                 };
+                if deque.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/kvp/del.rs b/component/dict/src/cmd/kvp/del.rs
index 20e330f..0cd7231 100644
--- a/component/dict/src/cmd/kvp/del.rs
+++ b/component/dict/src/cmd/kvp/del.rs
@@ -36,10 +36,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for f in self.fields {
                     kvp.remove(&f);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: kvp.len(),
-                })
+                let new_len = kvp.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             };
diff --git a/component/dict/src/cmd/set/remove.rs b/component/dict/src/cmd/set/remove.rs
index d803f48..e1d0175 100644
--- a/component/dict/src/cmd/set/remove.rs
+++ b/component/dict/src/cmd/set/remove.rs
@@ -35,10 +35,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for ref m in self.members {
                     set.remove(m);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: set.len(),
-                })
+                let new_len = set.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 92659bd..bf8a83f 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -40,7 +40,7 @@ impl From<Req> for WriteCmd {
 impl<D: Dict> Write<Resp, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Resp> {
-        let old = dict.get_or_insert_with(self.key, || Value {
+        let old = dict.get_or_insert_with(self.key.clone(), || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
             visit_log: Value::new_visit_log(),
@@ -76,10 +76,14 @@ impl<D: Dict> Write<Resp, D> for Req {
                     sorted_set.value.insert(node);
                 }
             }
+            let new_len = sorted_set.hash.len();
+            if new_len == 0 {
+                dict.remove(&self.key);
+            }
             Ok(Resp {
                 old_len,
                 update_len,
-                new_len: sorted_set.hash.len(),
+                new_len,
             })
         } else {
             Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove.rs b/component/dict/src/cmd/sorted_set/remove.rs
index 1fdf352..347ec58 100644
--- a/component/dict/src/cmd/sorted_set/remove.rs
+++ b/component/dict/src/cmd/sorted_set/remove.rs
@@ -36,10 +36,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                         sorted_set.value.remove(on);
                     }
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: sorted_set.hash.len(),
-                })
+                let new_len = sorted_set.hash.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 1d2bc65..dec6d24 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -52,6 +52,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
index eaf0f49..0bc1b46 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
@@ -55,6 +55,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f08e729..f97e5b1 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -51,6 +51,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
-- 
2.43.0


From a8f1d12a5ba8c4cd59a1c5d633ffd9aa36980b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 02/36] fix: only values that are wholly an integer count as
 integers

---
 component/dict/src/data_type/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 893e199..def483f 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -58,7 +58,9 @@ impl TryFrom<&DataType> for i64 {
     #[inline]
     fn try_from(value: &DataType) -> Result<Self, Self::Error> {
         let res = match value {
-            DataType::String(b) | DataType::Bytes(b) => atoi::atoi::<i64>(b)
+            DataType::String(b) | DataType::Bytes(b) => std::str::from_utf8(b)
+                .ok()
+                .and_then(|s| s.parse().ok())
                 .ok_or_else::<Self::Error, _>(|| {
                     "value is not an integer or out of range".into()
                 })?,
-- 
2.43.0


From 3116fa0a0e0fe171a798f59e4da5eaf4eb9e024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 03/36] fix: refuse INCR/DECRBY/HINCRBY whose result overflows
 64 bits

---
 component/dict/src/cmd/kvp/incr.rs      |  4 +++-
 component/dict/src/cmd/simple/incr.rs   |  4 +++-
 component/server/src/cmd/base/decrby.rs | 17 +++++++++++------
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/component/dict/src/cmd/kvp/incr.rs b/component/dict/src/cmd/kvp/incr.rs
index feb7c7d..c567470 100644
--- a/component/dict/src/cmd/kvp/incr.rs
+++ b/component/dict/src/cmd/kvp/incr.rs
@@ -35,7 +35,9 @@ impl<D: Dict> Write<i64, D> for Req {
             DataType::Kvp(ref mut kvp) => {
                 if let Some(s) = kvp.get_mut(&self.field) {
                     let old: i64 = (&*s).try_into()?;
-                    let new = old + self.value;
+                    let new = old
+                        .checked_add(self.value)
+                        .ok_or("increment or decrement would overflow")?;
                     *s = DataType::Integer(new);
                     Ok(new)
                 } else {
diff --git a/component/dict/src/cmd/simple/incr.rs b/component/dict/src/cmd/simple/incr.rs
index cd1e5bb..37c17f1 100644
--- a/component/dict/src/cmd/simple/incr.rs
+++ b/component/dict/src/cmd/simple/incr.rs
@@ -27,7 +27,9 @@ impl<D: Dict> Write<i64, D> for Req {
     fn apply(self, dict: &mut D) -> common::Result<i64> {
         if let Some(v) = dict.get(&self.key) {
             let old: i64 = (&v.data).try_into()?;
-            let new = old + self.value;
+            let new = old
+                .checked_add(self.value)
+                .ok_or("increment or decrement would overflow")?;
             v.data = DataType::Integer(new);
             Ok(new)
         } else {
diff --git a/component/server/src/cmd/base/decrby.rs b/component/server/src/cmd/base/decrby.rs
index 8108612..2024be3 100644
--- a/component/server/src/cmd/base/decrby.rs
+++ b/component/server/src/cmd/base/decrby.rs
@@ -10,20 +10,25 @@ pub struct Decrby {
     pub value: i64,
 }
 
-impl From<Decrby> for dict::cmd::simple::incr::Req {
+impl TryFrom<Decrby> for dict::cmd::simple::incr::Req {
+    type Error = common::Error;
+
     #[inline]
-    fn from(old: Decrby) -> Self {
-        Self {
+    fn try_from(old: Decrby) -> common::Result<Self> {
+        Ok(Self {
             key: old.key,
-            value: -old.value,
-        }
+            value: old
+                .value
+                .checked_neg()
+                .ok_or("decrement would overflow")?,
+        })
     }
 }
 
 impl Decrby {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let response = db.incr(self.into())?;
+        let response = db.incr(self.try_into()?)?;
         Ok(Frame::Integer(response))
     }
 }
-- 
2.43.0


From 475049d60ee255edee9179eff090941d3ce27bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 04/36] fix: command integers must be wholly numeric

---
 component/common/src/connection/parse/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index 011a946..01e54e4 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -18,6 +18,12 @@ pub struct Parse<'a> {
     /// Array frame iterator.
     parts: UnsafeCell<vec::IntoIter<Frame<'a>>>,
 }
+/// The whole of `data` as a decimal integer
+#[inline]
+fn parse_i64(data: &[u8]) -> Option<i64> {
+    str::from_utf8(data).ok()?.parse().ok()
+}
+
 #[allow(clippy::module_name_repetitions)]
 /// Error encountered while parsing a frame.
 ///
@@ -147,8 +153,6 @@ impl<'a> Parse<'a> {
     /// returned.
     #[inline]
     pub fn next_int(&self) -> Result<i64, ParseError> {
-        use atoi::atoi;
-
         const INVALID: &str = "protocol error; invalid number";
 
         match self.next_frame()? {
@@ -157,7 +161,7 @@ impl<'a> Parse<'a> {
             // Simple and bulk frames must be parsed as integers. If the parsing
             // fails, an error is returned.
             Frame::Bulk(data) | Frame::Simple(data) => {
-                atoi::<i64>(data).map_or_else(|| Err(INVALID.into()), Ok)
+                parse_i64(data).ok_or_else(|| INVALID.into())
             }
             frame => Err(format!("protocol error; expected int frame but got {:?}", frame).into()),
         }
-- 
2.43.0


From dd09fa5c2366f59880abf86a4f5d0eb7dc1f0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 05/36] fix: refuse RESP lengths and integers that are not
 numbers

---
 component/common/src/connection/parse/frame.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index b37a839..0fe0f4a 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -6,10 +6,11 @@ use std::{convert::TryFrom, fmt, vec};
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_while, take_while1, take_while_m_n},
-    combinator::map,
+    combinator::map_opt,
     sequence::delimited,
 };
 
+use super::parse_i64;
 use crate::float::Float;
 
 /// A frame in the Redis protocol.
@@ -106,9 +107,7 @@ fn parse_error(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, int) = delimited(
         tag(":"),
-        map(take_while1(|c| c != b'\r' && c != b'\n'), |int: &[u8]| {
-            atoi::atoi::<i64>(int).unwrap_or(0)
-        }),
+        map_opt(take_while1(|c| c != b'\r' && c != b'\n'), parse_i64),
         tag(b"\r\n"),
     )(i)?;
     Ok((i, Frame::Integer(int)))
@@ -117,9 +116,7 @@ fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("$")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), parse_i64)(i)?;
     let (i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
@@ -134,9 +131,7 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), parse_i64)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
-- 
2.43.0


From a2a28cb72e87a3c72695bf3163bdedff2969ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 06/36] fix: bound the nesting of RESP arrays (stack overflow
 killed the server)

---
 .../common/src/connection/parse/frame.rs      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 0fe0f4a..106f629 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -13,6 +13,9 @@ use nom::{
 use super::parse_i64;
 use crate::float::Float;
 
+/// Arrays nested deeper than this are refused: parsing them is recursive.
+const MAX_DEPTH: usize = 64;
+
 /// A frame in the Redis protocol.
 ///
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
@@ -129,8 +132,14 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 }
 
 #[inline]
-fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+fn parse_array(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
+    if depth >= MAX_DEPTH {
+        return Err(nom::Err::Failure(nom::error::Error::new(
+            i,
+            nom::error::ErrorKind::TooLarge,
+        )));
+    }
     let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), parse_i64)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
@@ -138,7 +147,7 @@ fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     } else {
         let mut res = vec![];
         for _ in 0..len {
-            let (ni, f) = parse_alt(i)?;
+            let (ni, f) = parse_nested(i, depth + 1)?;
             res.push(f);
             i = ni;
         }
@@ -158,12 +167,17 @@ fn parse_ping(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 /// parse failed
 #[inline]
 fn parse_alt(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+    parse_nested(i, 0)
+}
+
+#[inline]
+fn parse_nested(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     alt((
         parse_simple,
         parse_error,
         parse_int,
         parse_bulk,
-        parse_array,
+        |i| parse_array(i, depth),
         parse_ping,
     ))(i)
 }
-- 
2.43.0


From 1aeb0af724c53c0de963994101a9155ead3222ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 07/36] fix: SET with NX or XX that does not set replies nil

---
 component/server/src/cmd/base/set.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index e621fa1..0fc799e 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -31,7 +31,8 @@ impl Set {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply<'a>(self, db: &Db) -> common::Result<Frame<'a>> {
         let get = self.get;
-        let res = db.set(dict::cmd::simple::set::Req {
+        let nx_xx = self.nx_xx;
+        let req = dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
             expires_at: match self.expires {
@@ -42,14 +43,24 @@ impl Set {
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
-            nx_xx: self.nx_xx,
-        })?;
+            nx_xx,
+        };
+        let res = db.set(req)?;
+        let performed = match (nx_xx.is_nx(), nx_xx.is_xx()) {
+            (true, _) => res == DataType::Null,
+            (_, true) => res != DataType::Null,
+            _ => true,
+        };
         let response = if get {
             data_type_to_frame(res)
         } else {
             // async drop
             tokio::spawn(async { res });
-            Frame::ok()
+            if performed {
+                Frame::ok()
+            } else {
+                Frame::Null
+            }
         };
         Ok(response)
     }
-- 
2.43.0


From 2634242351dc6dd1d1b8857842e63d6c085ed34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 08/36] fix: GET option of SET refuses keys that hold a
 collection

---
 component/db/src/lib.rs              |  4 ++++
 component/db/src/slot.rs             |  5 +++++
 component/dict/src/cmd/simple/set.rs | 29 ++++++++++++++++++++++++++++
 component/server/src/cmd/base/set.rs |  6 +++++-
 4 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index caf9b76..2daeb50 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -128,6 +128,10 @@ impl Db {
         self.get_slot(&cmd.key).set(cmd)
     }
     #[inline]
+    pub fn set_get(&self, cmd: cmd::simple::set::GetReq) -> common::Result<DataType> {
+        self.get_slot(&cmd.0.key).set_get(cmd)
+    }
+    #[inline]
     pub fn del(&self, cmd: cmd::simple::del::Req) -> common::Result<Option<dict::Value>> {
         self.get_slot(&cmd.key).del(cmd)
     }
diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 5589406..0e12f13 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -178,6 +178,11 @@ impl Slot {
         self.call_expires_write(cmd)
     }
 
+    #[inline]
+    pub fn set_get(&self, cmd: cmd::simple::set::GetReq) -> common::Result<DataType> {
+        self.call_expires_write(cmd)
+    }
+
     #[inline]
     pub fn del(&self, cmd: cmd::simple::del::Req) -> common::Result<Option<Value>> {
         self.call_expires_write(cmd)
diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index 95acf2d..fa73823 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -22,6 +22,35 @@ impl From<Req> for WriteCmd {
     }
 }
 
+/// SET with the GET option: the old value is returned, so it must be a string
+#[derive(Debug, Clone)]
+pub struct GetReq(pub Req);
+
+impl From<GetReq> for WriteCmd {
+    #[inline]
+    fn from(req: GetReq) -> Self {
+        req.0.into()
+    }
+}
+
+impl<D: Dict> ExpiresOp<DataType, D> for GetReq {
+    #[tracing::instrument(skip(dict), level = "debug")]
+    fn apply(self, dict: &mut D) -> common::Result<ExpiresOpResp<DataType>> {
+        if let Some(v) = dict.get(&self.0.key) {
+            if let DataType::Kvp(_)
+            | DataType::Deque(_)
+            | DataType::Set(_)
+            | DataType::SortedSet(_) = v.data
+            {
+                return Err(
+                    "WRONGTYPE Operation against a key holding the wrong kind of value".into(),
+                );
+            }
+        }
+        self.0.apply(dict)
+    }
+}
+
 impl<D: Dict> ExpiresOp<DataType, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<ExpiresOpResp<DataType>> {
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index 0fc799e..a6b28b0 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -45,7 +45,11 @@ impl Set {
             },
             nx_xx,
         };
-        let res = db.set(req)?;
+        let res = if get {
+            db.set_get(dict::cmd::simple::set::GetReq(req))?
+        } else {
+            db.set(req)?
+        };
         let performed = match (nx_xx.is_nx(), nx_xx.is_xx()) {
             (true, _) => res == DataType::Null,
             (_, true) => res != DataType::Null,
-- 
2.43.0


From d0a78da0a02e9d11547eeffdaa24fad3c0f1c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 09/36] fix: publish only writes that took effect, in the order
 they took effect

---
 component/db/src/slot.rs | 76 ++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 0e12f13..ba14334 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -77,17 +77,16 @@ impl Slot {
     fn call_write<T, C: Write<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
         // 加锁执行命令
-        let (res, id) = {
-            let mut share_status = self.share_status.lock();
-            let s = match &mut *share_status {
-                Some(s) => s,
-                None => return Err("slot not support".into()),
-            };
-            let id = s.dict.next_id();
-            (cc.apply(&mut s.dict), id)
+        let mut share_status = self.share_status.lock();
+        let s = match &mut *share_status {
+            Some(s) => s,
+            None => return Err("slot not support".into()),
         };
+        let res = cc.apply(&mut s.dict)?;
+        let id = s.dict.next_id();
 
         // 转发执行完成的请求
+        // 持有锁时发送, 保证转发顺序和执行顺序一致
         if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
             id,
             slot: self.slot_id,
@@ -96,47 +95,42 @@ impl Slot {
             error!("call_write: {:?}", e);
         };
 
-        res
+        Ok(res)
     }
 
     #[inline]
     fn call_expires_write<T, C: ExpiresOp<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
         // 加锁执行命令
-        let (res, id) = {
-            let mut share_status = self.share_status.lock();
-            let s = match &mut *share_status {
-                Some(s) => s,
-                None => return Err("slot not support".into()),
-            };
-            let id = s.dict.next_id();
-            (cc.apply(&mut s.dict), id)
+        let mut share_status = self.share_status.lock();
+        let s = match &mut *share_status {
+            Some(s) => s,
+            None => return Err("slot not support".into()),
         };
-
-        let res = match res {
-            Ok(ExpiresOpResp {
-                expires_status,
-                payload,
-            }) => {
-                match expires_status {
-                    cmd::ExpiresStatus::None => (),
-                    cmd::ExpiresStatus::Update(u) => {
-                        if u.before != u.new {
-                            if let Err(e) = self.bg_task.expire_sender.send(
-                                expire::Message::Update(expire::Update {
-                                    status: u,
-                                    slot: self.slot_id,
-                                }),
-                            ) {
-                                error!("call_expires_write expire_sender: {:?}", e);
-                            };
-                        }
-                    }
+        let ExpiresOpResp {
+            expires_status,
+            payload,
+        } = cc.apply(&mut s.dict)?;
+        let id = s.dict.next_id();
+
+        // 持有锁时发送, 保证过期时间的更新和转发的顺序与执行顺序一致
+        match expires_status {
+            cmd::ExpiresStatus::None => (),
+            cmd::ExpiresStatus::Update(u) => {
+                if u.before != u.new {
+                    if let Err(e) =
+                        self.bg_task
+                            .expire_sender
+                            .send(expire::Message::Update(expire::Update {
+                                status: u,
+                                slot: self.slot_id,
+                            }))
+                    {
+                        error!("call_expires_write expire_sender: {:?}", e);
+                    };
                 }
-                Ok(payload)
             }
-            Err(e) => Err(e),
-        };
+        }
 
         // 转发执行完成的请求
         if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
@@ -147,7 +141,7 @@ impl Slot {
             error!("call_expires_write forward_sender: {:?}", e);
         };
 
-        res
+        Ok(payload)
     }
 
     #[inline]
-- 
2.43.0


From ae5b1665593ee3aa7491cce6bfad9d5368fdd21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 10/36] fix: SET ... GET does not return an expired value

---
 component/dict/src/cmd/simple/set.rs | 10 ++++++++--
 component/dict/src/lib.rs            |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index fa73823..dd797af 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -1,4 +1,7 @@
-use common::options::{ExpiresAt, NxXx};
+use common::{
+    now_timestamp_ms,
+    options::{ExpiresAt, NxXx},
+};
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -83,8 +86,11 @@ impl<D: Dict> ExpiresOp<DataType, D> for Req {
                 );
                 (old, ExpiresStatus::None)
             };
+            let now = now_timestamp_ms();
             return Ok(ExpiresOpResp {
-                payload: old.map_or(DataType::Null, |v| v.data),
+                payload: old
+                    .filter(|v| !v.is_expired(now))
+                    .map_or(DataType::Null, |v| v.data),
                 expires_status,
             });
         }
diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 9df8e65..3f7f603 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -102,6 +102,13 @@ impl Value {
         Self::create_visit_log(last_visit_time, last_desc_time, 5)
     }
 
+    /// whether the key is gone at `now`
+    #[inline]
+    #[must_use]
+    pub const fn is_expired(&self, now: u64) -> bool {
+        self.expires_at > 0 && self.expires_at <= now
+    }
+
     #[inline]
     pub fn update_visit_log(&mut self) {
         let now = now_timestamp_ms();
-- 
2.43.0


From 5c7f0c11e0578cd3d223f7b8cc734fa2c06f21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 11/36] fix: DEL does not count expired keys

---
 component/dict/src/cmd/simple/del.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/simple/del.rs b/component/dict/src/cmd/simple/del.rs
index 7d69ac8..5d5cf3d 100644
--- a/component/dict/src/cmd/simple/del.rs
+++ b/component/dict/src/cmd/simple/del.rs
@@ -1,3 +1,4 @@
+use common::now_timestamp_ms;
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -38,7 +39,7 @@ impl<D: Dict> ExpiresOp<Option<Value>, D> for Req {
                 };
 
                 ExpiresOpResp {
-                    payload: Some(v),
+                    payload: Some(v).filter(|v| !v.is_expired(now_timestamp_ms())),
                     expires_status,
                 }
             },
-- 
2.43.0


From 02db5fe4b158f3e2f50a9c4610b26288083b1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 12/36] fix: OBJECT does not answer for expired keys

---
 component/dict/src/cmd/simple/get_last_visit_time.rs | 5 ++++-
 component/dict/src/cmd/simple/get_visit_times.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/simple/get_last_visit_time.rs b/component/dict/src/cmd/simple/get_last_visit_time.rs
index f45bce2..c71ff7b 100644
--- a/component/dict/src/cmd/simple/get_last_visit_time.rs
+++ b/component/dict/src/cmd/simple/get_last_visit_time.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,8 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        let now = now_timestamp_ms();
+        if let Some(v) = dict.raw_get(self.key).filter(|v| !v.is_expired(now)) {
             return Ok(Some(v.get_last_visit_time() * 10));
         }
         Ok(None)
diff --git a/component/dict/src/cmd/simple/get_visit_times.rs b/component/dict/src/cmd/simple/get_visit_times.rs
index 6b92065..a3d1866 100644
--- a/component/dict/src/cmd/simple/get_visit_times.rs
+++ b/component/dict/src/cmd/simple/get_visit_times.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,8 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        let now = now_timestamp_ms();
+        if let Some(v) = dict.raw_get(self.key).filter(|v| !v.is_expired(now)) {
             return Ok(Some(v.get_visit_times()));
         }
         Ok(None)
-- 
2.43.0


From a9cfde29b42646cb2e061e619410820c2fe69315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 13/36] fix: visit log survives the wrap of its 16-bit minute
 counter

---
 component/dict/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 3f7f603..28e200e 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -117,7 +117,8 @@ impl Value {
         let old_last_desc_time = self.get_last_desc_time();
         let last_desc_time = Self::get_min(now);
         // todo diff / minutes
-        let diff = last_desc_time - old_last_desc_time;
+        // both are minutes modulo 1 << 16
+        let diff = last_desc_time.wrapping_sub(old_last_desc_time) & ((1 << 16) - 1);
         let mut visit_times = self.get_visit_times();
         if diff > visit_times {
             visit_times = 0;
-- 
2.43.0


From 76e1d90efda70a70ed17f9cad90625e1a6a623cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 14/36] fix: the expiry task really removes expired keys

---
 component/db/src/expire.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index b36062a..ade7211 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -153,7 +153,8 @@ impl Expiration {
                     None => continue,
                 };
                 debug!("before: slot: {}, dict_len: {}", entry.slot, dict.len());
-                let res = match dict.get(&entry.key) {
+                // 过期的 key 用 get 是取不到的
+                let res = match dict.raw_get(&entry.key) {
                     // 如果过期时间更新过，可能会有时间不一样的情况
                     Some(value) if value.expires_at == entry.expires_at => {
                         Some(dict.remove(&entry.key))
@@ -182,7 +183,7 @@ pub fn scan_all(db: &Db) {
             None => return false,
         };
         // 只保留key存在，且过期时间能对上的记录
-        matches!(dict.get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
+        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
     });
 }
 
-- 
2.43.0


From eb8eee3ee76cafeb139fc7dd048f50919ea44965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 15/36] fix: EXPIRE XX LT needs an existing deadline

---
 component/dict/src/cmd/simple/expire.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/simple/expire.rs b/component/dict/src/cmd/simple/expire.rs
index 11e1735..a0e6728 100644
--- a/component/dict/src/cmd/simple/expire.rs
+++ b/component/dict/src/cmd/simple/expire.rs
@@ -38,11 +38,12 @@ impl<D: Dict> ExpiresOp<bool, D> for Req {
                     {
                         true
                     }
-                    (NxXx::Xx | NxXx::None, GtLt::Lt)
+                    (NxXx::None, GtLt::Lt)
                         if v.expires_at == 0 || v.expires_at > self.expires_at =>
                     {
                         true
                     }
+                    (NxXx::Xx, GtLt::Lt) if v.expires_at > self.expires_at => true,
                     (NxXx::Xx, GtLt::None) if v.expires_at > 0 => true,
                     _ => false,
                 };
-- 
2.43.0


From a7b033964063123c045349544fdb822a39b064cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 16/36] fix: refuse negative counts instead of wrapping them

---
 component/macros/src/parse_frames.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 6d5dd9b..bc90d80 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -57,8 +57,16 @@ fn parse_simple(field_type: &Type, has_next: bool) -> proc_macro2::TokenStream {
             if *ident == "DataType" {
                 return quote! { crate::frame_parse::next_data_type(parse) };
             }
-            if *ident == "i64" || *ident == "u64" || *ident == "usize" {
-                return quote! { parse.next_int().map(|t|t as #field_type) };
+            if *ident == "i64" {
+                return quote! { parse.next_int() };
+            }
+            if *ident == "u64" || *ident == "usize" {
+                return quote! {
+                    parse.next_int().and_then(|t| {
+                        #field_type::try_from(t)
+                            .map_err(|_| "value is out of range, must be positive".into())
+                    })
+                };
             }
             if *ident == "Float" {
                 return quote! { parse.next_float() };
-- 
2.43.0


From ee15276b29c11903ea0430f28a0f566629ce24fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 17/36] fix: an empty hash tag hashes the whole key

---
 component/db/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index 2daeb50..3441c40 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -81,7 +81,10 @@ impl Db {
     fn get_slot(&self, mut key: &[u8]) -> &Slot {
         if let Some(begin) = key.iter().position(|t| *t == b'{') {
             if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {
-                key = &key[begin + 1..begin + end];
+                // an empty tag is no tag
+                if end > 1 {
+                    key = &key[begin + 1..begin + end];
+                }
             }
         }
         let i = CRC_HASH.checksum(key) & SIZE_MOD;
-- 
2.43.0


From 2e34ab1181f4718af01a8606929ca8bd228d8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 18/36] fix: RESTORE reaches the followers

---
 component/dict/src/cmd/server/restore.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 7ad0b0a..8ef9243 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -1,9 +1,12 @@
-use common::now_timestamp_ms;
+use common::{
+    now_timestamp_ms,
+    options::{ExpiresAt, NxXx},
+};
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    cmd::{ExpiresOp, ExpiresOpResp, ExpiresStatus, ExpiresStatusUpdate, WriteCmd},
+    cmd::{simple::set, ExpiresOp, ExpiresOpResp, ExpiresStatus, ExpiresStatusUpdate, WriteCmd},
     Dict, Value,
 };
 
@@ -19,9 +22,16 @@ pub struct Req<'a> {
 
 impl<'a> From<Req<'a>> for WriteCmd {
     #[inline]
-    fn from(_req: Req<'a>) -> Self {
-        // todo
-        WriteCmd::None
+    fn from(req: Req<'a>) -> Self {
+        bincode::deserialize(req.value).map_or(WriteCmd::None, |value| {
+            set::Req {
+                key: req.key.into(),
+                value,
+                expires_at: ExpiresAt::Specific(req.expires_at),
+                nx_xx: NxXx::None,
+            }
+            .into()
+        })
     }
 }
 
-- 
2.43.0


From 47bf679ad027fb0ecd5fab1a0e64ae8589a0218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 19/36] fix: FLUSHALL reaches the followers and keeps the write
 sequence

---
 component/db/src/slot.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index ba14334..9c15490 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -156,7 +156,18 @@ impl Slot {
     pub(crate) fn flush(&self, sync: bool) {
         let mut status = self.share_status.lock();
         if let Some(inner) = &mut *status {
-            let old = std::mem::take(inner);
+            let old = std::mem::take(&mut inner.dict.inner);
+            // 序号继续递增, 并把删除转发给 follower
+            for key in old.keys() {
+                let id = inner.dict.next_id();
+                if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
+                    id,
+                    slot: self.slot_id,
+                    cmd: cmd::simple::del::Req { key: key.clone() }.into(),
+                }) {
+                    error!("flush: {:?}", e);
+                };
+            }
             drop(status);
             if !sync {
                 tokio::task::spawn_blocking(|| old);
-- 
2.43.0


From efe24311cbd479b172bc3b3bf6373a9cd8b1fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 20/36] fix: keep replies framed when members or errors hold CR
 or LF

---
 component/common/src/connection/parse/frame.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 106f629..7265914 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -205,6 +205,10 @@ impl Frame<'_> {
                 res.extend_from_slice(a);
                 res.extend_from_slice(b"\r\n");
             }
+            // a simple string can not hold CR or LF
+            Frame::OwnedSimple(a) if a.iter().any(|c| matches!(c, b'\r' | b'\n')) => {
+                Frame::Bulk(a).write(res);
+            }
             Frame::OwnedSimple(a) => {
                 res.push(b'+');
                 res.extend_from_slice(a);
@@ -222,7 +226,11 @@ impl Frame<'_> {
             }
             Frame::OwnedError(a) => {
                 res.push(b'-');
-                res.extend_from_slice(a.as_bytes());
+                // an error may quote client input, which must not end the line
+                res.extend(a.bytes().map(|c| match c {
+                    b'\r' | b'\n' => b' ',
+                    c => c,
+                }));
                 res.extend_from_slice(b"\r\n");
             }
             Frame::Integer(a) => {
-- 
2.43.0


From 52047161ce2a26617416cada481f22cdc20a4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 21/36] fix: ZADD keeps one score per member, and GT, LT, CH
 and INCR do what they document

---
 component/dict/src/cmd/sorted_set/add.rs    | 47 ++++++++++++---------
 component/server/src/cmd/sorted_set/zadd.rs | 11 ++++-
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index bf8a83f..c7a47db 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -4,7 +4,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     cmd::{Write, WriteCmd},
-    data_type::{self, DataType, SortedSet},
+    data_type::{self, DataType, Float, SortedSet},
     Dict, Value,
 };
 
@@ -28,8 +28,10 @@ pub struct Resp {
     pub old_len: usize,
     /// 更新后大小
     pub new_len: usize,
-    /// 更新成功的node数
+    /// 更新成功的node数 (不包括新增的)
     pub update_len: usize,
+    /// 最后一个更新或新增的node的score
+    pub score: Option<Float>,
 }
 impl From<Req> for WriteCmd {
     #[inline]
@@ -40,6 +42,9 @@ impl From<Req> for WriteCmd {
 impl<D: Dict> Write<Resp, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Resp> {
+        if self.incr && self.nodes.len() != 1 {
+            return Err("INCR option supports a single increment-element pair".into());
+        }
         let old = dict.get_or_insert_with(self.key.clone(), || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
@@ -48,30 +53,29 @@ impl<D: Dict> Write<Resp, D> for Req {
         if let DataType::SortedSet(ref mut sorted_set) = old.data {
             let old_len = sorted_set.hash.len();
             let mut update_len = 0;
+            let mut score = None;
             for mut node in self.nodes {
-                let can_update = match (self.nx_xx, self.gt_lt) {
-                    (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
-                    (NxXx::Nx, _) => false,
-                    (_, GtLt::Gt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score < node.score)
-                        .is_some(),
-                    (_, GtLt::Lt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score > node.score)
-                        .is_some(),
-                    (NxXx::Xx, GtLt::None) => sorted_set.hash.contains_key(&node.key),
-                    (NxXx::None, GtLt::None) => true,
+                let old_node = sorted_set.hash.get(&node.key);
+                if let (true, Some(on)) = (self.incr, old_node) {
+                    node.score.0 += on.score.0;
+                    if node.score.0.is_nan() {
+                        return Err("resulting score is not a number (NaN)".into());
+                    }
+                }
+                let can_update = match (old_node, self.nx_xx, self.gt_lt) {
+                    (None, nx_xx, _) => !nx_xx.is_xx(),
+                    (Some(_), NxXx::Nx, _) => false,
+                    (Some(on), _, GtLt::Gt) => on.score < node.score,
+                    (Some(on), _, GtLt::Lt) => on.score > node.score,
+                    (Some(_), _, GtLt::None) => true,
                 };
                 if can_update {
-                    update_len += 1;
+                    score = Some(node.score);
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
-                        sorted_set.value.remove(&on);
-                        if self.incr {
-                            node.score.0 += on.score.0;
+                        if on.score != node.score {
+                            update_len += 1;
                         }
+                        sorted_set.value.remove(&on);
                     }
                     sorted_set.value.insert(node);
                 }
@@ -84,6 +88,7 @@ impl<D: Dict> Write<Resp, D> for Req {
                 old_len,
                 update_len,
                 new_len,
+                score,
             })
         } else {
             Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/server/src/cmd/sorted_set/zadd.rs b/component/server/src/cmd/sorted_set/zadd.rs
index 7348575..fb768a6 100644
--- a/component/server/src/cmd/sorted_set/zadd.rs
+++ b/component/server/src/cmd/sorted_set/zadd.rs
@@ -24,6 +24,7 @@ impl Zadd {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let ch = self.ch;
+        let incr = self.incr;
         let res = db.sorted_set_add(dict::cmd::sorted_set::add::Req {
             key: self.key,
             nodes: self.nodes.into_iter().map(Into::into).collect(),
@@ -31,8 +32,14 @@ impl Zadd {
             gt_lt: self.gt_lt,
             incr: self.incr,
         })?;
-        if ch {
-            Ok(Frame::Integer(res.new_len as _))
+        if incr {
+            Ok(res.score.map_or(Frame::Null, |score| {
+                Frame::OwnedStringSimple(score.0.to_string())
+            }))
+        } else if ch {
+            Ok(Frame::Integer(
+                (res.new_len - res.old_len + res.update_len) as _,
+            ))
         } else {
             Ok(Frame::Integer((res.new_len - res.old_len) as _))
         }
-- 
2.43.0


From 9b5abd5ea5f2da6e852a703c9fe5d3366b7956eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 22/36] fix: NaN is not a score

---
 component/common/src/connection/parse/frame.rs |  8 ++++----
 component/common/src/float.rs                  | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 7265914..ccbbd3a 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -304,10 +304,10 @@ impl<'a> TryFrom<Frame<'a>> for Float {
             Frame::Bulk(b) | Frame::Simple(b) => {
                 let s = std::str::from_utf8(b)
                     .map_err::<Self::Error, _>(|_| "protocol error".into())?;
-                Ok(Self(
-                    s.parse()
-                        .map_err::<Self::Error, _>(|_| "protocol error".into())?,
-                ))
+                let f: f64 = s
+                    .parse()
+                    .map_err::<Self::Error, _>(|_| "protocol error".into())?;
+                Ok(Self::try_from(f)?)
             }
             #[allow(clippy::cast_precision_loss)]
             Frame::Integer(i) => Ok(Self(i as _)),
diff --git a/component/common/src/float.rs b/component/common/src/float.rs
index dc25630..31bbf69 100644
--- a/component/common/src/float.rs
+++ b/component/common/src/float.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{convert::TryFrom, hash};
 
 use serde::{Deserialize, Serialize};
 
@@ -8,9 +8,23 @@ use serde::{Deserialize, Serialize};
 ///
 /// NaN is not allowed.
 #[derive(Debug, PartialEq, Clone, Copy, Deserialize, Serialize)]
+#[serde(try_from = "f64")]
 pub struct Float(pub f64);
 impl Eq for Float {}
 
+impl TryFrom<f64> for Float {
+    type Error = &'static str;
+
+    #[inline]
+    fn try_from(value: f64) -> Result<Self, Self::Error> {
+        if value.is_nan() {
+            Err("value is not a valid float")
+        } else {
+            Ok(Self(value))
+        }
+    }
+}
+
 impl PartialOrd for Float {
     #[inline]
     #[allow(clippy::float_cmp)]
-- 
2.43.0


From 2559f74a3d2f10625f3828c8f83af9435a55345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 23/36] fix: score ranges handle infinite, huge, inverted and
 non-ASCII bounds

---
 .../common/src/options/range_cmd_order.rs     | 10 ++--
 component/dict/src/cmd/sorted_set/mod.rs      | 46 ++++++++++++++-----
 .../dict/src/cmd/sorted_set/range_by_score.rs |  5 +-
 .../cmd/sorted_set/remove_by_score_range.rs   |  5 +-
 4 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index c3df6bd..71d2e1b 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -1,4 +1,4 @@
-use std::ops::Bound;
+use std::{convert::TryFrom, ops::Bound};
 
 use serde::{Deserialize, Serialize};
 
@@ -23,12 +23,10 @@ impl RangeCmdOrder {
     /// str not float
     #[inline]
     pub fn parse_float_bound(data: &str) -> crate::Result<Bound<Float>> {
-        let res = if data.len() >= 4 && matches!(&data[..3], "-inf" | "+inf") {
-            Bound::Unbounded
-        } else if let Some(s) = data.strip_prefix('(') {
-            Bound::Excluded(Float(s.parse::<f64>()?))
+        let res = if let Some(s) = data.strip_prefix('(') {
+            Bound::Excluded(Float::try_from(s.parse::<f64>()?)?)
         } else {
-            Bound::Included(Float(data.parse::<f64>()?))
+            Bound::Included(Float::try_from(data.parse::<f64>()?)?)
         };
         Ok(res)
     }
diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 25873b1..825fb99 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -1,6 +1,6 @@
 use std::ops::Bound;
 
-use common::{options::Limit, BoundExt};
+use common::options::Limit;
 
 use crate::data_type::{sorted_set::Node, Float};
 
@@ -49,15 +49,37 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     (start as usize, stop as usize + 1)
 }
 
-pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>, Bound<Node>) {
-    (
-        range.0.map(|f| Node {
-            score: f,
-            key: [][..].into(),
-        }),
-        range.1.map(|f| Node {
-            score: Float(f.0 + 0.1),
-            key: [][..].into(),
-        }),
-    )
+/// whether no value lies between the bounds (`BTreeSet::range` panics on most such bounds)
+pub(self) fn is_empty_range<T: Ord>(range: &(Bound<T>, Bound<T>)) -> bool {
+    match (&range.0, &range.1) {
+        (Bound::Included(a), Bound::Included(b)) => a > b,
+        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => {
+            a >= b
+        }
+        _ => false,
+    }
+}
+
+/// the nodes whose score may be in `range`, `None` when there can not be any
+pub(self) fn bigger_range(
+    range: (Bound<Float>, Bound<Float>),
+) -> Option<(Bound<Node>, Bound<Node>)> {
+    if is_empty_range(&range) {
+        return None;
+    }
+    let node = |f| Node {
+        score: Float(f),
+        key: [][..].into(),
+    };
+    let lower = match range.0 {
+        Bound::Included(f) | Bound::Excluded(f) => Bound::Included(node(f.0)),
+        Bound::Unbounded => Bound::Unbounded,
+    };
+    let upper = match range.1 {
+        Bound::Included(f) | Bound::Excluded(f) if f.0 < f64::INFINITY => {
+            Bound::Excluded(node(f.0.next_up()))
+        }
+        _ => Bound::Unbounded,
+    };
+    Some((lower, upper))
 }
diff --git a/component/dict/src/cmd/sorted_set/range_by_score.rs b/component/dict/src/cmd/sorted_set/range_by_score.rs
index 4814d67..483cc50 100644
--- a/component/dict/src/cmd/sorted_set/range_by_score.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_score.rs
@@ -24,7 +24,10 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
         if let Some(value) = dict.get(self.key) {
             if let DataType::SortedSet(ref ss) = value.data {
                 let value = &ss.value;
-                let bigger_range = super::bigger_range(self.range);
+                let bigger_range = match super::bigger_range(self.range) {
+                    Some(range) => range,
+                    None => return Ok(vec![]),
+                };
                 debug!(?bigger_range);
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(bigger_range);
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f97e5b1..fc9d67f 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -29,7 +29,10 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
         if let Some(old) = dict.get(&self.key) {
             if let DataType::SortedSet(ref mut sorted_set) = old.data {
                 let mut res = vec![];
-                let bigger_range = super::bigger_range(self.range);
+                let bigger_range = match super::bigger_range(self.range) {
+                    Some(range) => range,
+                    None => return Ok(vec![]),
+                };
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(bigger_range);
                 if self.rev {
-- 
2.43.0


From c0135c53081157b2857510dfed28fad5e66554e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 24/36] fix: lexicographic ranges handle inverted, infinite and
 binary bounds

---
 .../common/src/options/range_cmd_order.rs     | 29 ++++++++++++-------
 .../dict/src/cmd/sorted_set/range_by_lex.rs   |  3 ++
 .../src/cmd/sorted_set/remove_by_lex_range.rs |  3 ++
 component/server/src/cmd/sorted_set/zrange.rs | 23 +++++++++------
 .../server/src/cmd/sorted_set/zrangebylex.rs  |  9 +++---
 .../src/cmd/sorted_set/zremrangebylex.rs      |  7 ++---
 .../src/cmd/sorted_set/zrevrangebylex.rs      | 10 +++----
 7 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index 71d2e1b..8b36c09 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -31,20 +31,27 @@ impl RangeCmdOrder {
         Ok(res)
     }
 
+    fn parse_lex_bound(data: &[u8]) -> crate::Result<Bound<&[u8]>> {
+        match data {
+            b"-" | b"+" => Ok(Bound::Unbounded),
+            [b'(', s @ ..] => Ok(Bound::Excluded(s)),
+            [b'[', s @ ..] => Ok(Bound::Included(s)),
+            _ => Err("bound invaild".into()),
+        }
+    }
+
     /// # Errors
-    /// str is empty
+    /// not a lex bound
     #[inline]
-    pub fn parse_lex_bound(data: &str) -> crate::Result<Bound<&[u8]>> {
-        if data.is_empty() {
-            return Err("bound invaild".into());
+    pub fn parse_lex_range<'a>(
+        min: &'a [u8],
+        max: &'a [u8],
+    ) -> crate::Result<(Bound<&'a [u8]>, Bound<&'a [u8]>)> {
+        let res = (Self::parse_lex_bound(min)?, Self::parse_lex_bound(max)?);
+        if min == b"+" || max == b"-" {
+            // nothing is above the greatest or below the smallest member
+            return Ok((Bound::Excluded(b""), Bound::Excluded(b"")));
         }
-        let res = if matches!(&data[..1], "-" | "+") {
-            Bound::Unbounded
-        } else if let Some(s) = data.strip_prefix('(') {
-            Bound::Excluded(s.as_bytes())
-        } else {
-            Bound::Included(data[1..].as_bytes())
-        };
         Ok(res)
     }
 
diff --git a/component/dict/src/cmd/sorted_set/range_by_lex.rs b/component/dict/src/cmd/sorted_set/range_by_lex.rs
index 3ee316e..4152d2b 100644
--- a/component/dict/src/cmd/sorted_set/range_by_lex.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_lex.rs
@@ -37,6 +37,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
                         key: key.into(),
                     }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(range);
                 let res = if self.rev {
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index dec6d24..3743ee4 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -34,6 +34,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                     self.range.0.map(|key| Node { score, key }),
                     self.range.1.map(|key| Node { score, key }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let mut res = vec![];
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(range);
diff --git a/component/server/src/cmd/sorted_set/zrange.rs b/component/server/src/cmd/sorted_set/zrange.rs
index f83e628..e2bdddf 100644
--- a/component/server/src/cmd/sorted_set/zrange.rs
+++ b/component/server/src/cmd/sorted_set/zrange.rs
@@ -1,3 +1,5 @@
+use std::str;
+
 use common::{
     connection::parse::frame::Frame,
     options::{Limit, RangeCmdOrder},
@@ -8,8 +10,8 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Zrange<'a> {
     pub key: &'a [u8],
-    pub min: &'a str,
-    pub max: &'a str,
+    pub min: &'a [u8],
+    pub max: &'a [u8],
     #[optional]
     pub order: RangeCmdOrder,
     pub rev: bool,
@@ -23,8 +25,8 @@ impl Zrange<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let response = match self.order {
             RangeCmdOrder::Byscore => {
-                let min = RangeCmdOrder::parse_float_bound(self.min)?;
-                let max = RangeCmdOrder::parse_float_bound(self.max)?;
+                let min = RangeCmdOrder::parse_float_bound(str::from_utf8(self.min)?)?;
+                let max = RangeCmdOrder::parse_float_bound(str::from_utf8(self.max)?)?;
                 let cmd = dict::cmd::sorted_set::range_by_score::Req {
                     key: self.key,
                     range: if self.rev { (max, min) } else { (min, max) },
@@ -34,11 +36,14 @@ impl Zrange<'_> {
                 db.sorted_set_range_by_score(cmd)?
             }
             RangeCmdOrder::Bylex => {
-                let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-                let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+                let (min, max) = if self.rev {
+                    (self.max, self.min)
+                } else {
+                    (self.min, self.max)
+                };
                 let cmd = dict::cmd::sorted_set::range_by_lex::Req {
                     key: self.key,
-                    range: if self.rev { (max, min) } else { (min, max) },
+                    range: RangeCmdOrder::parse_lex_range(min, max)?,
                     limit: self.limit,
                     rev: self.rev,
                 };
@@ -47,8 +52,8 @@ impl Zrange<'_> {
             RangeCmdOrder::Byrank => {
                 let cmd = dict::cmd::sorted_set::range_by_rank::Req {
                     key: self.key,
-                    start: self.min.parse()?,
-                    stop: self.max.parse()?,
+                    start: str::from_utf8(self.min)?.parse()?,
+                    stop: str::from_utf8(self.max)?.parse()?,
                     limit: self.limit,
                     rev: self.rev,
                 };
diff --git a/component/server/src/cmd/sorted_set/zrangebylex.rs b/component/server/src/cmd/sorted_set/zrangebylex.rs
index ddd8d67..a81c9e9 100644
--- a/component/server/src/cmd/sorted_set/zrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zrangebylex.rs
@@ -10,8 +10,8 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Zrangebylex<'a> {
     pub key: &'a [u8],
-    pub min: &'a str,
-    pub max: &'a str,
+    pub min: &'a [u8],
+    pub max: &'a [u8],
     #[optional]
     pub limit: Limit,
 }
@@ -19,11 +19,10 @@ pub struct Zrangebylex<'a> {
 impl Zrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let range = RangeCmdOrder::parse_lex_range(self.min, self.max)?;
         let cmd = dict::cmd::sorted_set::range_by_lex::Req {
             key: self.key,
-            range: (min, max),
+            range,
             limit: self.limit,
             rev: false,
         };
diff --git a/component/server/src/cmd/sorted_set/zremrangebylex.rs b/component/server/src/cmd/sorted_set/zremrangebylex.rs
index 6530078..affe001 100644
--- a/component/server/src/cmd/sorted_set/zremrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zremrangebylex.rs
@@ -8,15 +8,14 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Zremrangebylex<'a> {
     pub key: &'a [u8],
-    pub min: &'a str,
-    pub max: &'a str,
+    pub min: &'a [u8],
+    pub max: &'a [u8],
 }
 
 impl Zremrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let (min, max) = RangeCmdOrder::parse_lex_range(self.min, self.max)?;
         let res =
             db.sorted_set_remove_by_lex_range(dict::cmd::sorted_set::remove_by_lex_range::Req {
                 key: self.key.into(),
diff --git a/component/server/src/cmd/sorted_set/zrevrangebylex.rs b/component/server/src/cmd/sorted_set/zrevrangebylex.rs
index a5272a2..72e62b7 100644
--- a/component/server/src/cmd/sorted_set/zrevrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zrevrangebylex.rs
@@ -9,8 +9,8 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Zrevrangebylex<'a> {
     pub key: &'a [u8],
-    pub min: &'a str,
-    pub max: &'a str,
+    pub min: &'a [u8],
+    pub max: &'a [u8],
     #[optional]
     pub limit: Limit,
 }
@@ -18,11 +18,11 @@ pub struct Zrevrangebylex<'a> {
 impl Zrevrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        // 第一个参数是 max
+        let range = RangeCmdOrder::parse_lex_range(self.max, self.min)?;
         let cmd = dict::cmd::sorted_set::range_by_lex::Req {
             key: self.key,
-            range: (max, min),
+            range,
             limit: self.limit,
             rev: true,
         };
-- 
2.43.0


From 917bab0ecbc205a672b5aa7b7e1a7ad69dc0ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 25/36] fix: LIMIT with an extreme negative offset

---
 component/dict/src/cmd/sorted_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 825fb99..1b458dc 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -18,7 +18,7 @@ pub(self) fn shape_limit(limit: Limit, len: usize) -> (usize, usize) {
     match limit {
         Limit::Limit(mut offset, count) => {
             if offset < 0 {
-                offset = 0.max(len as i64 - offset);
+                offset = (len as i64).saturating_sub(offset);
             }
             (
                 offset as usize,
-- 
2.43.0


From cb45e90d2c4c5fd44bfb3eb67168f0f0b5da9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 26/36] fix: deadlines that are negative, zero or too large no
 longer overflow or vanish

---
 component/common/src/lib.rs                   | 26 +++++++++++++++++++
 .../common/src/options/set_cmd_expires.rs     | 16 ++++++------
 component/server/src/cmd/base/expire.rs       |  5 ++--
 component/server/src/cmd/base/expireat.rs     |  5 ++--
 component/server/src/cmd/base/pexpire.rs      |  5 ++--
 component/server/src/cmd/base/pexpireat.rs    |  5 ++--
 component/server/src/cmd/base/psetex.rs       | 21 ++++++++++-----
 component/server/src/cmd/base/set.rs          | 15 ++++++++---
 component/server/src/cmd/base/setex.rs        | 21 ++++++++++-----
 component/server/src/cmd/others/restore.rs    | 23 ++++++++--------
 10 files changed, 97 insertions(+), 45 deletions(-)

diff --git a/component/common/src/lib.rs b/component/common/src/lib.rs
index cc86f9a..095a2d9 100644
--- a/component/common/src/lib.rs
+++ b/component/common/src/lib.rs
@@ -49,6 +49,32 @@ pub fn now_timestamp_ms() -> u64 {
         .as_millis() as u64
 }
 
+/// The deadline `n` units of `unit` milliseconds after `base`
+///
+/// A deadline at or before the epoch becomes 1: 0 means no deadline.
+///
+/// # Errors
+/// the deadline is not representable
+#[inline]
+pub fn expire_deadline(base: u64, n: i64, unit: i64) -> Result<u64> {
+    n.checked_mul(unit)
+        .and_then(|n| i64::try_from(base).ok()?.checked_add(n))
+        .map(|at| at.max(1) as u64)
+        .ok_or_else(|| "ERR invalid expire time".into())
+}
+
+/// Like [`expire_deadline`], for commands that need a positive `n`
+///
+/// # Errors
+/// `n` is not positive, or the deadline is not representable
+#[inline]
+pub fn positive_expire_deadline(base: u64, n: i64, unit: i64) -> Result<u64> {
+    if n <= 0 {
+        return Err("ERR invalid expire time".into());
+    }
+    expire_deadline(base, n, unit)
+}
+
 pub trait ParseSerdeType<'de, T: Deserialize<'de> + Serialize> {
     fn parse_serde_type(&self) -> T;
 }
diff --git a/component/common/src/options/set_cmd_expires.rs b/component/common/src/options/set_cmd_expires.rs
index 0189514..0abc2f7 100644
--- a/component/common/src/options/set_cmd_expires.rs
+++ b/component/common/src/options/set_cmd_expires.rs
@@ -2,10 +2,10 @@ use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Clone, Serialize, Deserialize, Copy)]
 pub enum SetCmdExpires {
-    Ex(u64),
-    Px(u64),
-    Exat(u64),
-    Pxat(u64),
+    Ex(i64),
+    Px(i64),
+    Exat(i64),
+    Pxat(i64),
     Keepttl,
     None,
 }
@@ -26,10 +26,10 @@ impl SetCmdExpires {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "ex" => Some(Self::Ex(parse.next_int()? as _)),
-            "px" => Some(Self::Px(parse.next_int()? as _)),
-            "exat" => Some(Self::Exat(parse.next_int()? as _)),
-            "pxat" => Some(Self::Pxat(parse.next_int()? as _)),
+            "ex" => Some(Self::Ex(parse.next_int()?)),
+            "px" => Some(Self::Px(parse.next_int()?)),
+            "exat" => Some(Self::Exat(parse.next_int()?)),
+            "pxat" => Some(Self::Pxat(parse.next_int()?)),
             "keepttl" => Some(Self::Keepttl),
             _ => None,
         };
diff --git a/component/server/src/cmd/base/expire.rs b/component/server/src/cmd/base/expire.rs
index 5fbd4e1..53da1f4 100644
--- a/component/server/src/cmd/base/expire.rs
+++ b/component/server/src/cmd/base/expire.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    expire_deadline,
     now_timestamp_ms,
     options::{GtLt, NxXx},
 };
@@ -13,7 +14,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Expire<'a> {
     pub key: &'a [u8],
-    pub seconds: u64,
+    pub seconds: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -25,7 +26,7 @@ impl Expire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.seconds * 1000 + now_timestamp_ms(),
+            expires_at: expire_deadline(now_timestamp_ms(), self.seconds, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/expireat.rs b/component/server/src/cmd/base/expireat.rs
index 1e9cb90..a6431a2 100644
--- a/component/server/src/cmd/base/expireat.rs
+++ b/component/server/src/cmd/base/expireat.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    expire_deadline,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -12,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Expireat<'a> {
     pub key: &'a [u8],
-    pub timestamp: u64,
+    pub timestamp: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -24,7 +25,7 @@ impl Expireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.timestamp * 1000,
+            expires_at: expire_deadline(0, self.timestamp, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpire.rs b/component/server/src/cmd/base/pexpire.rs
index 3b48f8d..bf6e810 100644
--- a/component/server/src/cmd/base/pexpire.rs
+++ b/component/server/src/cmd/base/pexpire.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    expire_deadline,
     now_timestamp_ms,
     options::{GtLt, NxXx},
 };
@@ -13,7 +14,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Pexpire<'a> {
     pub key: &'a [u8],
-    pub milliseconds: u64,
+    pub milliseconds: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -25,7 +26,7 @@ impl Pexpire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds + now_timestamp_ms(),
+            expires_at: expire_deadline(now_timestamp_ms(), self.milliseconds, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpireat.rs b/component/server/src/cmd/base/pexpireat.rs
index 6b32d57..f570e20 100644
--- a/component/server/src/cmd/base/pexpireat.rs
+++ b/component/server/src/cmd/base/pexpireat.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    expire_deadline,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -12,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Pexpireat<'a> {
     pub key: &'a [u8],
-    pub milliseconds_timestamp: u64,
+    pub milliseconds_timestamp: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -24,7 +25,7 @@ impl Pexpireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds_timestamp,
+            expires_at: expire_deadline(0, self.milliseconds_timestamp, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/psetex.rs b/component/server/src/cmd/base/psetex.rs
index e21ddae..2905710 100644
--- a/component/server/src/cmd/base/psetex.rs
+++ b/component/server/src/cmd/base/psetex.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{ExpiresAt, NxXx},
+    positive_expire_deadline,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -13,26 +14,32 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Psetex {
     pub key: Key,
-    pub milliseconds: u64,
+    pub milliseconds: i64,
     pub value: DataType,
 }
 
-impl From<Psetex> for dict::cmd::simple::set::Req {
+impl TryFrom<Psetex> for dict::cmd::simple::set::Req {
+    type Error = common::Error;
+
     #[inline]
-    fn from(old: Psetex) -> Self {
-        Self {
+    fn try_from(old: Psetex) -> common::Result<Self> {
+        Ok(Self {
             key: old.key,
             value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.milliseconds),
+            expires_at: ExpiresAt::Specific(positive_expire_deadline(
+                now_timestamp_ms(),
+                old.milliseconds,
+                1,
+            )?),
             nx_xx: NxXx::None,
-        }
+        })
     }
 }
 
 impl Psetex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(self.try_into()?)?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index a6b28b0..d814fac 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -2,6 +2,7 @@ use common::{
     connection::parse::frame::Frame,
     now_timestamp_ms,
     options::{ExpiresAt, NxXx, SetCmdExpires},
+    positive_expire_deadline,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -36,10 +37,16 @@ impl Set {
             key: self.key,
             value: self.value,
             expires_at: match self.expires {
-                SetCmdExpires::Ex(e) => ExpiresAt::Specific(now_timestamp_ms() + e * 1000),
-                SetCmdExpires::Px(e) => ExpiresAt::Specific(now_timestamp_ms() + e),
-                SetCmdExpires::Exat(e) => ExpiresAt::Specific(e * 1000),
-                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(e),
+                SetCmdExpires::Ex(e) => {
+                    ExpiresAt::Specific(positive_expire_deadline(now_timestamp_ms(), e, 1000)?)
+                }
+                SetCmdExpires::Px(e) => {
+                    ExpiresAt::Specific(positive_expire_deadline(now_timestamp_ms(), e, 1)?)
+                }
+                SetCmdExpires::Exat(e) => {
+                    ExpiresAt::Specific(positive_expire_deadline(0, e, 1000)?)
+                }
+                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(positive_expire_deadline(0, e, 1)?),
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
diff --git a/component/server/src/cmd/base/setex.rs b/component/server/src/cmd/base/setex.rs
index a771bd2..54eeccd 100644
--- a/component/server/src/cmd/base/setex.rs
+++ b/component/server/src/cmd/base/setex.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{ExpiresAt, NxXx},
+    positive_expire_deadline,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -13,26 +14,32 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Setex {
     pub key: Key,
-    pub seconds: u64,
+    pub seconds: i64,
     pub value: DataType,
 }
 
-impl From<Setex> for dict::cmd::simple::set::Req {
+impl TryFrom<Setex> for dict::cmd::simple::set::Req {
+    type Error = common::Error;
+
     #[inline]
-    fn from(old: Setex) -> Self {
-        Self {
+    fn try_from(old: Setex) -> common::Result<Self> {
+        Ok(Self {
             key: old.key,
             value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.seconds * 1000),
+            expires_at: ExpiresAt::Specific(positive_expire_deadline(
+                now_timestamp_ms(),
+                old.seconds,
+                1000,
+            )?),
             nx_xx: NxXx::None,
-        }
+        })
     }
 }
 
 impl Setex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(self.try_into()?)?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 6ff2735..0eb6796 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{Freq, IdleTime},
+    positive_expire_deadline,
 };
 use db::Db;
 use macros::ParseFrames;
@@ -11,7 +12,7 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Restore<'a> {
     pub key: &'a [u8],
-    pub ttl: u64,
+    pub ttl: i64,
     pub serialized_value: &'a [u8],
     pub replace: bool,
     pub absttl: bool,
@@ -24,10 +25,10 @@ pub struct Restore<'a> {
 impl Restore<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let ttl = if self.absttl {
-            self.ttl
-        } else if self.ttl > 0 {
-            now_timestamp_ms() + self.ttl
+        let ttl = if self.absttl && self.ttl != 0 {
+            positive_expire_deadline(0, self.ttl, 1)?
+        } else if self.ttl != 0 {
+            positive_expire_deadline(now_timestamp_ms(), self.ttl, 1)?
         } else {
             0
         };
@@ -36,13 +37,13 @@ impl Restore<'_> {
             value: self.serialized_value,
             expires_at: ttl,
             replace: self.replace,
-            last_visit_time: now_timestamp_ms() / 1000
-                - match self.idle_time {
-                    IdleTime::Some(i) => i,
-                    IdleTime::None => 0,
-                },
+            last_visit_time: (now_timestamp_ms() / 1000).saturating_sub(match self.idle_time {
+                IdleTime::Some(i) => i,
+                IdleTime::None => 0,
+            }),
             freq: match self.freq {
-                Freq::Some(i) => i,
+                // the counter has 16 bits
+                Freq::Some(i) => i.min(u64::from(u16::MAX)),
                 Freq::None => 0,
             },
         })?;
-- 
2.43.0


From 42fb08b469cc725c9cc805c124dc196e1ff66ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 27/36] fix: OBJECT IDLETIME with a clock that went back

---
 component/server/src/cmd/others/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index a3608e4..0fbbf23 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -25,7 +25,7 @@ impl Object<'_> {
                 })?
             {
                 #[allow(clippy::cast_possible_wrap)]
-                Ok(Frame::Integer((now_timestamp_ms() / 1000 - u) as _))
+                Ok(Frame::Integer((now_timestamp_ms() / 1000).saturating_sub(u) as _))
             } else {
                 Err("idletiem key not exists".into())
             };
-- 
2.43.0


From 0a7350ec98cebd9ec8e688336d978c48c5aba3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 28/36] fix: RESTORE of a deeply nested payload overflowed the
 stack and killed the server

---
 component/dict/src/data_type/deque.rs | 10 ++++++++--
 component/dict/src/data_type/kvp.rs   | 12 ++++++++++--
 component/dict/src/data_type/mod.rs   | 23 +++++++++++++++++++++++
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/component/dict/src/data_type/deque.rs b/component/dict/src/data_type/deque.rs
index 11dc67b..b5332af 100644
--- a/component/dict/src/data_type/deque.rs
+++ b/component/dict/src/data_type/deque.rs
@@ -3,15 +3,21 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
-use crate::data_type::DataType;
+use crate::data_type::{DataType, Element};
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Default)]
 pub struct Deque {
+    #[serde(deserialize_with = "elements")]
     inner: VecDeque<DataType>,
 }
 
+fn elements<'de, D: Deserializer<'de>>(deserializer: D) -> Result<VecDeque<DataType>, D::Error> {
+    let elements: VecDeque<Element> = Deserialize::deserialize(deserializer)?;
+    Ok(elements.into_iter().map(Into::into).collect())
+}
+
 impl Deque {
     #[inline]
     #[must_use]
diff --git a/component/dict/src/data_type/kvp.rs b/component/dict/src/data_type/kvp.rs
index aa1e283..b53ec12 100644
--- a/component/dict/src/data_type/kvp.rs
+++ b/component/dict/src/data_type/kvp.rs
@@ -3,15 +3,23 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
-use crate::data_type::DataType;
+use crate::data_type::{DataType, Element};
 /// key value pairs
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Default)]
 pub struct Kvp {
+    #[serde(deserialize_with = "fields")]
     pub inner: HashMap<Box<[u8]>, DataType, ahash::RandomState>,
 }
 
+fn fields<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<HashMap<Box<[u8]>, DataType, ahash::RandomState>, D::Error> {
+    let fields: HashMap<Box<[u8]>, Element> = Deserialize::deserialize(deserializer)?;
+    Ok(fields.into_iter().map(|(k, v)| (k, v.into())).collect())
+}
+
 impl Kvp {
     #[inline]
     #[must_use]
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index def483f..9251053 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -27,6 +27,29 @@ pub enum DataType {
     SortedSet(Box<SortedSet>),
 }
 
+/// What a collection may hold, so that decoding a value never recurses
+#[derive(Deserialize)]
+enum Element {
+    Null,
+    String(Vec<u8>),
+    Bytes(Vec<u8>),
+    Integer(i64),
+    Float(Float),
+}
+
+impl From<Element> for DataType {
+    #[inline]
+    fn from(e: Element) -> Self {
+        match e {
+            Element::Null => DataType::Null,
+            Element::String(s) => DataType::String(s),
+            Element::Bytes(b) => DataType::Bytes(b),
+            Element::Integer(i) => DataType::Integer(i),
+            Element::Float(f) => DataType::Float(f),
+        }
+    }
+}
+
 impl From<&[u8]> for DataType {
     #[inline]
     fn from(s: &[u8]) -> Self {
-- 
2.43.0


From b12c4544b904730158ec8f9fdb9ba27a0dbe3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 29/36] fix: snapshot stream writes slot ids as the u16 the
 follower reads

---
 component/server/src/cmd/syncsnapshot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 4f20c77..c5eda3c 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -52,7 +52,7 @@ impl SyncSnapshot {
                     let mut stream = stream.into_std()?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
-                            bincode::serialize_into(&mut stream, &Some(id))?;
+                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                             bincode::serialize_into(&mut stream, &s.dict)?;
                         }
                     }
-- 
2.43.0


From e12ad7bcbe8fb1e6de4c01a20e87b4cab2e9e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 30/36] fix: a snapshot larger than the socket buffer was cut
 off

---
 component/server/src/cmd/syncsnapshot.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index c5eda3c..71bccd7 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -50,6 +50,7 @@ impl SyncSnapshot {
                 // parent restarts it can bind/lock despite the child possibly still running.
                 let run = |stream: TcpStream| -> common::Result<()> {
                     let mut stream = stream.into_std()?;
+                    stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
                             bincode::serialize_into(&mut stream, &Some(id as u16))?;
-- 
2.43.0


From ebf22b12301795f516cfae614d6365c3e73f58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 31/36] fix: fetching one slot again locked every slot for ever

---
 component/db/src/pd_handle/replica.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f4a47e2..eaed390 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -81,7 +81,10 @@ impl Inner {
     }
 
     fn lock_slot(&self, slot_id: usize) {
-        if slot_id != SLOT_SIZE {}
+        if slot_id != SLOT_SIZE {
+            self.snapshot_lock[slot_id].store(true, std::sync::atomic::Ordering::Relaxed);
+            return;
+        }
         for l in &self.snapshot_lock {
             l.store(true, std::sync::atomic::Ordering::Relaxed);
         }
-- 
2.43.0


From 3471259c139d27853f992cc6d7ef027dfb9775d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 32/36] fix: a server reports the status it was last told and
 follows only another server

---
 component/db/src/pd_handle/mod.rs | 40 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 46ca38c..63a8053 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -7,7 +7,7 @@ use common::{
     connection::{parse::frame::Frame, Connection},
     pd_message::{
         cmd::{SEVER_HEARTBEAT, SEVER_INIT},
-        ServerInit, ServerRole, ServerStatus,
+        LeaderInfo, ServerInit, ServerRole, ServerStatus,
     },
 };
 use tokio::net::TcpStream;
@@ -21,6 +21,7 @@ pub async fn run(db: Arc<Db>, pd: Pd) -> common::Result<()> {
         connection,
         pd,
         latest_status: ServerStatus::default(),
+        following: None,
         replica_task: replica::Task::new(db),
     };
     handle.init().await
@@ -29,6 +30,8 @@ struct PdHandle {
     connection: Connection,
     pd: Pd,
     latest_status: ServerStatus,
+    /// 正在同步的leader
+    following: Option<LeaderInfo>,
     replica_task: replica::Task,
 }
 
@@ -85,23 +88,24 @@ impl PdHandle {
     }
 
     fn update_status(&mut self, status: ServerStatus) -> common::Result<()> {
-        match (self.latest_status.role, status.role) {
-            (_, ServerRole::Follower)
-                if self.latest_status.current_leader != status.current_leader =>
-            {
-                // update leader
-                self.replica_task.update_leader(status.current_leader);
-                self.replica_task.sync_all_snapshot()?;
-                self.replica_task.sync_cmd()?;
-                self.latest_status = status;
-            }
-            (ServerRole::Follower, ServerRole::Leader) => {
-                // 自己变成leader
-                self.replica_task.close_sync_cmd();
-                self.latest_status = status;
-            }
-            _ => {
-                // do nothing
+        let leader = match status.role {
+            ServerRole::Follower => status
+                .current_leader
+                .filter(|leader| leader.server_id != status.server_id),
+            // 自己变成leader
+            ServerRole::Leader => None,
+        };
+        // 心跳上报的是最近一次收到的状态
+        self.latest_status = status;
+        if self.following != leader {
+            self.following = leader;
+            self.replica_task.update_leader(leader);
+            match leader {
+                Some(_) => {
+                    self.replica_task.sync_all_snapshot()?;
+                    self.replica_task.sync_cmd()?;
+                }
+                None => self.replica_task.close_sync_cmd(),
             }
         }
         Ok(())
-- 
2.43.0


From a06ff06c96a27daa068c4971f4b549eb821ce2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 33/36] fix: a follower lost writes around its first snapshot
 and could stay out of sync for good

---
 component/db/src/pd_handle/mod.rs     |  18 +-
 component/db/src/pd_handle/replica.rs | 226 ++++++++++++++++++--------
 2 files changed, 158 insertions(+), 86 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 63a8053..e10a0d8 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -48,13 +48,13 @@ impl PdHandle {
             ]))
             .await?;
         let status: ServerStatus = bincode::deserialize(self.read_bytes().await?)?;
-        let res = self.update_status(status);
+        self.update_status(status);
         tokio::spawn(async {
             if let Err(e) = self.heartbeat().await {
                 error!("pd heartbeat error: {:?}", e);
             }
         });
-        res
+        Ok(())
     }
 
     async fn read_bytes(&mut self) -> common::Result<&[u8]> {
@@ -80,14 +80,12 @@ impl PdHandle {
                 .await?;
             let status: Option<ServerStatus> = bincode::deserialize(self.read_bytes().await?)?;
             if let Some(status) = status {
-                if let Err(e) = self.update_status(status) {
-                    error!("update_status error: {:?}", e);
-                }
+                self.update_status(status);
             }
         }
     }
 
-    fn update_status(&mut self, status: ServerStatus) -> common::Result<()> {
+    fn update_status(&mut self, status: ServerStatus) {
         let leader = match status.role {
             ServerRole::Follower => status
                 .current_leader
@@ -100,14 +98,6 @@ impl PdHandle {
         if self.following != leader {
             self.following = leader;
             self.replica_task.update_leader(leader);
-            match leader {
-                Some(_) => {
-                    self.replica_task.sync_all_snapshot()?;
-                    self.replica_task.sync_cmd()?;
-                }
-                None => self.replica_task.close_sync_cmd(),
-            }
         }
-        Ok(())
     }
 }
diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index eaed390..1d4790d 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -1,11 +1,13 @@
 use std::{
     io::{BufReader, Write},
-    net::TcpStream,
-    sync::{atomic::AtomicBool, Arc},
+    net::{Shutdown, SocketAddr, TcpStream},
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Arc, Weak,
+    },
     time::{Duration, Instant},
 };
 
-use arc_swap::ArcSwapOption;
 use common::{connection::parse::frame::Frame, pd_message::LeaderInfo, SYNC_CMD};
 use dict::MemDict;
 use parking_lot::Mutex;
@@ -14,6 +16,10 @@ use tracing::{error, warn};
 
 use crate::{forward::Message, Db, SLOT_SIZE};
 
+/// 重试间隔
+const RETRY: Duration = Duration::from_secs(1);
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(3);
+
 #[derive(Clone)]
 pub struct Task {
     inner: Arc<Inner>,
@@ -22,113 +28,186 @@ pub struct Task {
 struct Inner {
     snapshot_syncing: AtomicBool,
     snapshot_lock: Vec<AtomicBool>,
-    cmd_rx: ArcSwapOption<flume::Receiver<Message>>,
     db: Arc<Db>,
     notify_lock_update: Notify,
-    leader: Mutex<Option<LeaderInfo>>,
+    leader: Mutex<Leader>,
+}
+
+#[derive(Default)]
+struct Leader {
+    /// 每次更换leader递增, 旧leader的数据不再生效
+    epoch: u64,
+    /// 到当前leader的连接, 更换leader时关闭
+    connections: Vec<Weak<TcpStream>>,
 }
 
 impl Inner {
+    fn is_current(&self, epoch: u64) -> bool {
+        self.leader.lock().epoch == epoch
+    }
+
+    /// 持有锁时执行, 保证更换leader之后不会再有旧leader的更新
+    fn with_current<T>(&self, epoch: u64, f: impl FnOnce() -> T) -> common::Result<T> {
+        let leader = self.leader.lock();
+        if leader.epoch != epoch {
+            return Err("leader changed".into());
+        }
+        Ok(f())
+    }
+
+    fn connect(&self, epoch: u64, addr: SocketAddr) -> common::Result<Arc<TcpStream>> {
+        let stream = Arc::new(TcpStream::connect_timeout(&addr, CONNECT_TIMEOUT)?);
+        let mut leader = self.leader.lock();
+        if leader.epoch != epoch {
+            return Err("leader changed".into());
+        }
+        leader.connections.retain(|c| c.strong_count() > 0);
+        leader.connections.push(Arc::downgrade(&stream));
+        Ok(stream)
+    }
+
     async fn wait_slot(&self, slot_id: usize) {
         loop {
-            if self.snapshot_lock[slot_id].load(std::sync::atomic::Ordering::Acquire) {
-                self.notify_lock_update.notified().await;
-            } else {
+            let notified = self.notify_lock_update.notified();
+            if !self.snapshot_lock[slot_id].load(Ordering::Acquire) {
                 break;
             }
+            notified.await;
         }
     }
 
-    fn sync_snapshot(self: Arc<Self>, slot_id: usize) -> common::Result<()> {
+    /// 开始同步快照, 如果别的同步正在进行, 返回错误
+    fn sync_snapshot(
+        self: Arc<Self>,
+        epoch: u64,
+        addr: SocketAddr,
+        slot_id: usize,
+    ) -> common::Result<()> {
         self.snapshot_syncing
-            .compare_exchange(
-                false,
-                true,
-                std::sync::atomic::Ordering::Acquire,
-                std::sync::atomic::Ordering::Relaxed,
-            )
+            .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
             .map_err(|_| "syncing")?;
         self.lock_slot(slot_id);
 
         tokio::task::spawn_blocking(move || {
-            if let Err(e) = self.sync_snapshot_without_lock(slot_id) {
+            while let Err(e) = self.sync_snapshot_without_lock(epoch, addr, slot_id) {
                 error!("sync_snapshot error: {:?}", e);
+                if !self.is_current(epoch) {
+                    break;
+                }
+                std::thread::sleep(RETRY);
             }
+            for l in &self.snapshot_lock {
+                l.store(false, Ordering::Release);
+            }
+            self.snapshot_syncing.store(false, Ordering::Release);
+            self.notify_lock_update.notify_waiters();
         });
 
         Ok(())
     }
 
-    fn sync_snapshot_without_lock(&self, slot_id: usize) -> common::Result<()> {
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader not exists")?.server_addr)?;
+    fn sync_snapshot_without_lock(
+        &self,
+        epoch: u64,
+        addr: SocketAddr,
+        slot_id: usize,
+    ) -> common::Result<()> {
+        let stream = self.connect(epoch, addr)?;
+        let mut stream = BufReader::new(&*stream);
         let req: Vec<_> = (&Frame::Array(vec![
             Frame::Bulk(b"syncsnapshot"[..].into()),
             Frame::Integer(slot_id as _),
         ]))
             .into();
-        stream.write_all(&req)?;
+        stream.get_mut().write_all(&req)?;
         while let Some(slot_id) = bincode::deserialize_from::<_, Option<u16>>(&mut stream)? {
             let slot_id = slot_id as usize;
             let dict: MemDict = bincode::deserialize_from(&mut stream)?;
-            self.db.replace_dict(slot_id, dict);
-            self.snapshot_lock[slot_id].store(false, std::sync::atomic::Ordering::Release);
+            self.with_current(epoch, || self.db.replace_dict(slot_id, dict))?;
+            self.snapshot_lock[slot_id].store(false, Ordering::Release);
+            self.notify_lock_update.notify_waiters();
         }
-        self.snapshot_syncing
-            .store(false, std::sync::atomic::Ordering::Release);
-        self.notify_lock_update.notify_one();
         Ok(())
     }
 
     fn lock_slot(&self, slot_id: usize) {
         if slot_id != SLOT_SIZE {
-            self.snapshot_lock[slot_id].store(true, std::sync::atomic::Ordering::Relaxed);
+            self.snapshot_lock[slot_id].store(true, Ordering::Relaxed);
             return;
         }
         for l in &self.snapshot_lock {
-            l.store(true, std::sync::atomic::Ordering::Relaxed);
+            l.store(true, Ordering::Relaxed);
         }
     }
 
-    async fn process_cmd(self: Arc<Self>) {
-        loop {
-            if let Some(rx) = self.cmd_rx.load().as_ref() {
-                if let Ok(msg) = rx.recv_async().await {
-                    let slot_id = msg.slot;
-                    loop {
-                        self.wait_slot(slot_id).await;
-                        if std::cmp::Ordering::Greater
-                            == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
-                        {
-                            if let Err(e) = self.clone().sync_snapshot(slot_id) {
-                                warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
-                                tokio::time::sleep(Duration::from_secs(1)).await;
-                            }
-                        } else {
-                            break;
-                        }
-                    }
-                }
-            } else {
-                return;
+    /// 同步slot, 如果别的同步正在进行, 等它结束
+    async fn wait_sync_snapshot(
+        self: &Arc<Self>,
+        epoch: u64,
+        leader: LeaderInfo,
+        slot_id: usize,
+    ) -> common::Result<()> {
+        while let Err(e) = self
+            .clone()
+            .sync_snapshot(epoch, leader.server_addr, slot_id)
+        {
+            warn!("sync_snapshot: {:?}", e); // 别的同步正在进行, 重试几次
+            tokio::time::sleep(RETRY).await;
+            self.with_current(epoch, || ())?;
+        }
+        Ok(())
+    }
+
+    /// 跟随leader, 直到更换leader
+    async fn follow(self: Arc<Self>, epoch: u64, leader: LeaderInfo) {
+        while self.is_current(epoch) {
+            if let Err(e) = self.sync_cmd(epoch, leader).await {
+                warn!("sync_cmd: {:?}", e);
             }
+            tokio::time::sleep(RETRY).await;
         }
     }
 
-    fn sync_cmd(self: Arc<Self>) -> common::Result<()> {
+    async fn sync_cmd(self: &Arc<Self>, epoch: u64, leader: LeaderInfo) -> common::Result<()> {
         let (tx, rx) = flume::unbounded();
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader is none")?.forward_addr)?;
-        stream.write_all(SYNC_CMD)?;
-        let stream = BufReader::new(stream);
+        let inner = self.clone();
         tokio::task::spawn_blocking(move || {
-            if let Err(e) = receive_cmd(&tx, stream) {
-                error!("sync_cmd error: {:?}", e);
+            let res = inner
+                .connect(epoch, leader.forward_addr)
+                .and_then(|stream| receive_cmd(&tx, BufReader::new(&*stream)));
+            if let Err(e) = res {
+                error!("receive_cmd error: {:?}", e);
             }
         });
-        self.cmd_rx.store(Some(Arc::new(rx)));
-        tokio::spawn(self.process_cmd());
-        Ok(())
+        // 收到第一条消息之后, leader 的更新不会再丢失, 之后的快照加上收到的消息才是完整的
+        let mut msg = rx.recv_async().await?;
+        self.wait_sync_snapshot(epoch, leader, SLOT_SIZE).await?;
+        loop {
+            self.process_cmd(epoch, leader, msg).await?;
+            msg = rx.recv_async().await?;
+        }
+    }
+
+    async fn process_cmd(
+        self: &Arc<Self>,
+        epoch: u64,
+        leader: LeaderInfo,
+        msg: Message,
+    ) -> common::Result<()> {
+        let slot = self
+            .db
+            .slots
+            .get(msg.slot)
+            .ok_or("slot of message out of range")?;
+        loop {
+            self.wait_slot(msg.slot).await;
+            let order =
+                self.with_current(epoch, || slot.process_forward(msg.id, msg.cmd.clone()))?;
+            if order != std::cmp::Ordering::Greater {
+                return Ok(());
+            }
+            self.wait_sync_snapshot(epoch, leader, msg.slot).await?;
+        }
     }
 }
 
@@ -141,34 +220,37 @@ impl Task {
         Self {
             inner: Arc::new(Inner {
                 snapshot_lock,
-                cmd_rx: ArcSwapOption::new(None),
                 db,
                 notify_lock_update: Notify::new(),
-                leader: Mutex::new(None),
+                leader: Mutex::default(),
                 snapshot_syncing: AtomicBool::new(false),
             }),
         }
     }
 
-    pub fn sync_all_snapshot(&self) -> common::Result<()> {
-        self.inner.clone().sync_snapshot(SLOT_SIZE as _)
-    }
+    /// 停止跟随之前的leader, 开始跟随新的leader
     pub fn update_leader(&self, leader: Option<LeaderInfo>) {
-        *self.inner.leader.lock() = leader;
-    }
-
-    pub fn close_sync_cmd(&self) {
-        self.inner.cmd_rx.store(None);
-    }
-    pub fn sync_cmd(&self) -> common::Result<()> {
-        self.inner.clone().sync_cmd()
+        let epoch = {
+            let mut current = self.inner.leader.lock();
+            current.epoch += 1;
+            for c in current.connections.drain(..) {
+                if let Some(stream) = c.upgrade() {
+                    let _ = stream.shutdown(Shutdown::Both);
+                }
+            }
+            current.epoch
+        };
+        if let Some(leader) = leader {
+            tokio::spawn(self.inner.clone().follow(epoch, leader));
+        }
     }
 }
 
 fn receive_cmd(
     tx: &flume::Sender<Message>,
-    mut stream: BufReader<TcpStream>,
+    mut stream: BufReader<&TcpStream>,
 ) -> common::Result<()> {
+    stream.get_mut().write_all(SYNC_CMD)?;
     let mut last_heartbeat = Instant::now();
     let duration = Duration::from_secs(1);
     loop {
-- 
2.43.0


From 777f2c68897e850ceca7d308587f98a294a2f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 34/36] fix: a snapshot connection raced with itself in the
 forked child and was sometimes empty

---
 component/server/src/cmd/syncsnapshot.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 71bccd7..4822894 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -1,10 +1,9 @@
-use std::process::exit;
+use std::{net::TcpStream, process::exit};
 
 use common::SLOT_SIZE;
 use db::child_process;
 use macros::ParseFrames;
 use nix::unistd::ForkResult;
-use tokio::net::TcpStream;
 use tracing::{error, info};
 
 use crate::Handler;
@@ -17,6 +16,14 @@ pub struct SyncSnapshot {
 impl SyncSnapshot {
     #[tracing::instrument(skip(handler))]
     pub fn apply(self, handler: Handler) {
+        // 父子进程共用一个 epoll, 在 fork 之前取消注册
+        let stream = match handler.connection.stream.into_std() {
+            Ok(stream) => stream,
+            Err(e) => {
+                error!("send snapshot error: {:?}", e);
+                return;
+            }
+        };
         // 先拿到需要传输的数据，避免死锁
         let slots = if self.slot_id == SLOT_SIZE as usize {
             // 全部slot
@@ -48,8 +55,7 @@ impl SyncSnapshot {
                 // of the parent process, e.g. fd(socket or flock) etc.
                 // should close the resources not used by the child process, so that if the
                 // parent restarts it can bind/lock despite the child possibly still running.
-                let run = |stream: TcpStream| -> common::Result<()> {
-                    let mut stream = stream.into_std()?;
+                let run = |mut stream: TcpStream| -> common::Result<()> {
                     stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
@@ -61,7 +67,7 @@ impl SyncSnapshot {
                     bincode::serialize_into(&mut stream, &end)?;
                     Ok(())
                 };
-                match run(handler.connection.stream) {
+                match run(stream) {
                     Ok(_) => {}
                     Err(e) => error!("send snapshot error: {:?}", e),
                 }
-- 
2.43.0


From c71c5af9f2f8e981a1c61afe9cf100ea8a964ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 35/36] fix: the subcommands of OBJECT and DEBUG are recognised
 in any mix of cases

---
 component/server/src/cmd/others/debug.rs  | 2 +-
 component/server/src/cmd/others/object.rs | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/component/server/src/cmd/others/debug.rs b/component/server/src/cmd/others/debug.rs
index 5195eb5..a2f5abe 100644
--- a/component/server/src/cmd/others/debug.rs
+++ b/component/server/src/cmd/others/debug.rs
@@ -13,7 +13,7 @@ pub struct Debug<'a> {
 impl Debug<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        if self.sub_cmd == b"object"
+        if self.sub_cmd.eq_ignore_ascii_case(b"object")
             && !db.exists(dict::cmd::simple::exists::Req {
                 key: self.payload[0],
             })?
diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index 0fbbf23..687b971 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -15,8 +15,7 @@ impl Object<'_> {
     #[allow(unused_variables)]
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        // todo ignore case
-        if self.sub_cmd == b"IDLETIME" || self.sub_cmd == b"idletime" {
+        if self.sub_cmd.eq_ignore_ascii_case(b"IDLETIME") {
             return if self.payload.is_empty() {
                 Err("idletiem key not exists".into())
             } else if let Some(u) =
@@ -30,8 +29,7 @@ impl Object<'_> {
                 Err("idletiem key not exists".into())
             };
         }
-        // todo ignore case
-        if self.sub_cmd == b"FREQ" || self.sub_cmd == b"freq" {
+        if self.sub_cmd.eq_ignore_ascii_case(b"FREQ") {
             return if self.payload.is_empty() {
                 Err("freq key not exists".into())
             } else if let Some(u) = db.get_visit_times(dict::cmd::simple::get_visit_times::Req {
-- 
2.43.0


From 1b1859e0e83d3f27f102922534ffd717632e57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:49 +0000
Subject: [PATCH 36/36] fix: a snapshot process kept open the connections that
 the server had closed

---
 component/server/src/cmd/syncsnapshot.rs | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 4822894..1f47274 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -1,4 +1,9 @@
-use std::{net::TcpStream, process::exit};
+use std::{
+    fs,
+    net::TcpStream,
+    os::unix::io::{AsRawFd, RawFd},
+    process::exit,
+};
 
 use common::SLOT_SIZE;
 use db::child_process;
@@ -50,11 +55,12 @@ impl SyncSnapshot {
                 child_process::add(child, child_process::Info::SyncSnapshot);
             }
             Ok(ForkResult::Child) => {
-                // todo
                 // After fork, the child process will inherit the resources
                 // of the parent process, e.g. fd(socket or flock) etc.
-                // should close the resources not used by the child process, so that if the
-                // parent restarts it can bind/lock despite the child possibly still running.
+                // Close the resources not used by the child process, so that connections
+                // closed by the parent are closed, and if the parent restarts it can
+                // bind/lock, despite the child possibly still running.
+                close_others(stream.as_raw_fd());
                 let run = |mut stream: TcpStream| -> common::Result<()> {
                     stream.set_nonblocking(false)?;
                     for (id, s) in slots {
@@ -77,3 +83,18 @@ impl SyncSnapshot {
         }
     }
 }
+
+/// Close all file descriptors except the standard ones and `keep`
+fn close_others(keep: RawFd) {
+    let fds: Vec<RawFd> = fs::read_dir("/dev/fd")
+        .into_iter()
+        .flatten()
+        .filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok())
+        .collect();
+    for fd in fds {
+        if fd > 2 && fd != keep {
+            // 读目录用的 fd 已经关闭
+            let _ = nix::unistd::close(fd);
+        }
+    }
+}
-- 
2.43.0

