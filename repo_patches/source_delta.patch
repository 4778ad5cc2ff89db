From e4635ce2aa9fbe0e386eb35beca4bdee403620b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:55 +0000
Subject: [PATCH 01/48] fix: ZADD INCR keeps the resulting score in both
 indexes and compares it for GT and LT

---
 component/dict/src/cmd/sorted_set/add.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 92659bd..2b3bf3c 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -49,6 +49,12 @@ impl<D: Dict> Write<Resp, D> for Req {
             let old_len = sorted_set.hash.len();
             let mut update_len = 0;
             for mut node in self.nodes {
+                if self.incr {
+                    // from here on it is the resulting score that counts
+                    if let Some(on) = sorted_set.hash.get(&node.key) {
+                        node.score.0 += on.score.0;
+                    }
+                }
                 let can_update = match (self.nx_xx, self.gt_lt) {
                     (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
                     (NxXx::Nx, _) => false,
@@ -69,9 +75,6 @@ impl<D: Dict> Write<Resp, D> for Req {
                     update_len += 1;
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                         sorted_set.value.remove(&on);
-                        if self.incr {
-                            node.score.0 += on.score.0;
-                        }
                     }
                     sorted_set.value.insert(node);
                 }
-- 
2.43.0


From 6e8fc1f7adf27c8229f55ffe85bda9d318cc6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:55 +0000
Subject: [PATCH 02/48] fix: ZADD GT and LT do not prevent adding new members

---
 component/dict/src/cmd/sorted_set/add.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 2b3bf3c..ac6fce7 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -58,16 +58,14 @@ impl<D: Dict> Write<Resp, D> for Req {
                 let can_update = match (self.nx_xx, self.gt_lt) {
                     (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
                     (NxXx::Nx, _) => false,
-                    (_, GtLt::Gt) => sorted_set
+                    (nx_xx, GtLt::Gt) => sorted_set
                         .hash
                         .get(&node.key)
-                        .filter(|x| x.score < node.score)
-                        .is_some(),
-                    (_, GtLt::Lt) => sorted_set
+                        .map_or(matches!(nx_xx, NxXx::None), |x| x.score < node.score),
+                    (nx_xx, GtLt::Lt) => sorted_set
                         .hash
                         .get(&node.key)
-                        .filter(|x| x.score > node.score)
-                        .is_some(),
+                        .map_or(matches!(nx_xx, NxXx::None), |x| x.score > node.score),
                     (NxXx::Xx, GtLt::None) => sorted_set.hash.contains_key(&node.key),
                     (NxXx::None, GtLt::None) => true,
                 };
-- 
2.43.0


From d5d95bc332c8845688c195180f8dd54ac4aeec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:55 +0000
Subject: [PATCH 03/48] fix: ZADD CH replies with the number of members added
 or changed

---
 component/dict/src/cmd/sorted_set/add.rs    | 4 +++-
 component/server/src/cmd/sorted_set/zadd.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index ac6fce7..2d6753c 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -70,7 +70,9 @@ impl<D: Dict> Write<Resp, D> for Req {
                     (NxXx::None, GtLt::None) => true,
                 };
                 if can_update {
-                    update_len += 1;
+                    if sorted_set.hash.get(&node.key) != Some(&node) {
+                        update_len += 1;
+                    }
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                         sorted_set.value.remove(&on);
                     }
diff --git a/component/server/src/cmd/sorted_set/zadd.rs b/component/server/src/cmd/sorted_set/zadd.rs
index 7348575..93134d8 100644
--- a/component/server/src/cmd/sorted_set/zadd.rs
+++ b/component/server/src/cmd/sorted_set/zadd.rs
@@ -32,7 +32,7 @@ impl Zadd {
             incr: self.incr,
         })?;
         if ch {
-            Ok(Frame::Integer(res.new_len as _))
+            Ok(Frame::Integer(res.update_len as _))
         } else {
             Ok(Frame::Integer((res.new_len - res.old_len) as _))
         }
-- 
2.43.0


From c35a8837612bcad34499ad8e4f88038c2a253bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 04/48] fix: an inverted or empty sorted set range yields
 nothing instead of a panic

---
 component/dict/src/cmd/sorted_set/mod.rs             | 12 ++++++++++++
 component/dict/src/cmd/sorted_set/range_by_lex.rs    |  3 +++
 component/dict/src/cmd/sorted_set/range_by_score.rs  |  3 +++
 .../dict/src/cmd/sorted_set/remove_by_lex_range.rs   |  3 +++
 .../dict/src/cmd/sorted_set/remove_by_score_range.rs |  3 +++
 5 files changed, 24 insertions(+)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 25873b1..114adac 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -49,6 +49,18 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     (start as usize, stop as usize + 1)
 }
 
+/// `BTreeSet::range` panics when asked for a range that cannot contain anything
+pub(self) fn is_empty_range<T: Ord>(range: &(Bound<T>, Bound<T>)) -> bool {
+    match (&range.0, &range.1) {
+        (Bound::Unbounded, _) | (_, Bound::Unbounded) => false,
+        (Bound::Included(start), Bound::Included(end)) => start > end,
+        (
+            Bound::Included(start) | Bound::Excluded(start),
+            Bound::Included(end) | Bound::Excluded(end),
+        ) => start >= end,
+    }
+}
+
 pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>, Bound<Node>) {
     (
         range.0.map(|f| Node {
diff --git a/component/dict/src/cmd/sorted_set/range_by_lex.rs b/component/dict/src/cmd/sorted_set/range_by_lex.rs
index 3ee316e..4152d2b 100644
--- a/component/dict/src/cmd/sorted_set/range_by_lex.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_lex.rs
@@ -37,6 +37,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
                         key: key.into(),
                     }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(range);
                 let res = if self.rev {
diff --git a/component/dict/src/cmd/sorted_set/range_by_score.rs b/component/dict/src/cmd/sorted_set/range_by_score.rs
index 4814d67..2745283 100644
--- a/component/dict/src/cmd/sorted_set/range_by_score.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_score.rs
@@ -24,6 +24,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
         if let Some(value) = dict.get(self.key) {
             if let DataType::SortedSet(ref ss) = value.data {
                 let value = &ss.value;
+                if super::is_empty_range(&self.range) {
+                    return Ok(vec![]);
+                }
                 let bigger_range = super::bigger_range(self.range);
                 debug!(?bigger_range);
                 let (offset, count) = super::shape_limit(self.limit, value.len());
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 1d2bc65..1495178 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -34,6 +34,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                     self.range.0.map(|key| Node { score, key }),
                     self.range.1.map(|key| Node { score, key }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let mut res = vec![];
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(range);
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f08e729..c6028b4 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -29,6 +29,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
         if let Some(old) = dict.get(&self.key) {
             if let DataType::SortedSet(ref mut sorted_set) = old.data {
                 let mut res = vec![];
+                if super::is_empty_range(&self.range) {
+                    return Ok(vec![]);
+                }
                 let bigger_range = super::bigger_range(self.range);
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(bigger_range);
-- 
2.43.0


From 768b4080d643717cf73aae4b8663c7a8dc954f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 05/48] fix: score ranges include members whose score is too
 large to add 0.1 to

---
 component/dict/src/cmd/sorted_set/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 114adac..4e6e660 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -67,9 +67,13 @@ pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>,
             score: f,
             key: [][..].into(),
         }),
-        range.1.map(|f| Node {
-            score: Float(f.0 + 0.1),
-            key: [][..].into(),
-        }),
+        match range.1 {
+            Bound::Included(f) | Bound::Excluded(f) if f.0 + 0.1 > f.0 => Bound::Included(Node {
+                score: Float(f.0 + 0.1),
+                key: [][..].into(),
+            }),
+            // too large for 0.1 to make a difference
+            _ => Bound::Unbounded,
+        },
     )
 }
-- 
2.43.0


From 54308f7edae52eca6791a344544e3203e8ce9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 06/48] fix: NaN scores are refused instead of panicking in the
 score order

---
 .../common/src/connection/parse/frame.rs      | 11 +++++++----
 .../common/src/options/range_cmd_order.rs     |  7 ++++++-
 component/dict/src/cmd/sorted_set/add.rs      | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index b37a839..eeb00ab 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -287,10 +287,13 @@ impl<'a> TryFrom<Frame<'a>> for Float {
             Frame::Bulk(b) | Frame::Simple(b) => {
                 let s = std::str::from_utf8(b)
                     .map_err::<Self::Error, _>(|_| "protocol error".into())?;
-                Ok(Self(
-                    s.parse()
-                        .map_err::<Self::Error, _>(|_| "protocol error".into())?,
-                ))
+                let f: f64 = s
+                    .parse()
+                    .map_err::<Self::Error, _>(|_| "protocol error".into())?;
+                if f.is_nan() {
+                    return Err("protocol error; not a valid float".into());
+                }
+                Ok(Self(f))
             }
             #[allow(clippy::cast_precision_loss)]
             Frame::Integer(i) => Ok(Self(i as _)),
diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index c3df6bd..4196c2c 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -30,7 +30,12 @@ impl RangeCmdOrder {
         } else {
             Bound::Included(Float(data.parse::<f64>()?))
         };
-        Ok(res)
+        match res {
+            Bound::Included(Float(f)) | Bound::Excluded(Float(f)) if f.is_nan() => {
+                Err("ERR min or max is not a float".into())
+            }
+            res => Ok(res),
+        }
     }
 
     /// # Errors
diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 2d6753c..9c86187 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use common::options::{GtLt, NxXx};
 use keys::Key;
 use serde::{Deserialize, Serialize};
@@ -40,6 +42,23 @@ impl From<Req> for WriteCmd {
 impl<D: Dict> Write<Resp, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Resp> {
+        if self.incr {
+            let mut sums = HashMap::new();
+            for node in &self.nodes {
+                let sum = sums.entry(&node.key).or_insert_with(|| {
+                    match dict.get(&self.key).map(|v| &v.data) {
+                        Some(DataType::SortedSet(s)) => {
+                            s.hash.get(&node.key).map_or(0.0, |n| n.score.0)
+                        }
+                        _ => 0.0,
+                    }
+                });
+                *sum += node.score.0;
+                if sum.is_nan() {
+                    return Err("ERR resulting score is not a number (NaN)".into());
+                }
+            }
+        }
         let old = dict.get_or_insert_with(self.key, || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
-- 
2.43.0


From d4d109ed20a6dedba8ebb3894e4cb5ef67d1568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 07/48] fix: DEBUG OBJECT without a key is an error, not a
 panic

---
 component/server/src/cmd/others/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/server/src/cmd/others/debug.rs b/component/server/src/cmd/others/debug.rs
index 5195eb5..dbd1bff 100644
--- a/component/server/src/cmd/others/debug.rs
+++ b/component/server/src/cmd/others/debug.rs
@@ -15,7 +15,7 @@ impl Debug<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         if self.sub_cmd == b"object"
             && !db.exists(dict::cmd::simple::exists::Req {
-                key: self.payload[0],
+                key: self.payload.first().ok_or("ERR wrong number of arguments")?,
             })?
         {
             return Err("ERR no such key".into());
-- 
2.43.0


From 5d7c795385ae02c4b87b42ffd9fae92ef4b2e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 08/48] fix: malformed score and lex bounds are errors instead
 of panics on a char boundary

---
 component/common/src/options/range_cmd_order.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index 4196c2c..5f79d5f 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -23,9 +23,7 @@ impl RangeCmdOrder {
     /// str not float
     #[inline]
     pub fn parse_float_bound(data: &str) -> crate::Result<Bound<Float>> {
-        let res = if data.len() >= 4 && matches!(&data[..3], "-inf" | "+inf") {
-            Bound::Unbounded
-        } else if let Some(s) = data.strip_prefix('(') {
+        let res = if let Some(s) = data.strip_prefix('(') {
             Bound::Excluded(Float(s.parse::<f64>()?))
         } else {
             Bound::Included(Float(data.parse::<f64>()?))
@@ -45,12 +43,14 @@ impl RangeCmdOrder {
         if data.is_empty() {
             return Err("bound invaild".into());
         }
-        let res = if matches!(&data[..1], "-" | "+") {
+        let res = if matches!(data, "-" | "+") {
             Bound::Unbounded
         } else if let Some(s) = data.strip_prefix('(') {
             Bound::Excluded(s.as_bytes())
+        } else if let Some(s) = data.strip_prefix('[') {
+            Bound::Included(s.as_bytes())
         } else {
-            Bound::Included(data[1..].as_bytes())
+            return Err("ERR min or max not valid string range item".into());
         };
         Ok(res)
     }
-- 
2.43.0


From 48b8686bcd89a9359c5402afc2e072c37f393d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 09/48] fix: a lex range from + or to - is empty instead of the
 whole set

---
 component/common/src/options/range_cmd_order.rs    | 14 ++++++++++++++
 component/server/src/cmd/sorted_set/zrange.rs      |  8 +++++---
 component/server/src/cmd/sorted_set/zrangebylex.rs |  3 +--
 .../server/src/cmd/sorted_set/zremrangebylex.rs    |  3 +--
 .../server/src/cmd/sorted_set/zrevrangebylex.rs    |  3 +--
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index 5f79d5f..abd2d7e 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -55,6 +55,20 @@ impl RangeCmdOrder {
         Ok(res)
     }
 
+    /// # Errors
+    /// a bound is invalid
+    #[inline]
+    pub fn parse_lex_range<'a>(
+        min: &'a str,
+        max: &'a str,
+    ) -> crate::Result<(Bound<&'a [u8]>, Bound<&'a [u8]>)> {
+        if min == "+" || max == "-" {
+            // nothing is greater than the greatest or less than the least
+            return Ok((Bound::Excluded(b""), Bound::Excluded(b"")));
+        }
+        Ok((Self::parse_lex_bound(min)?, Self::parse_lex_bound(max)?))
+    }
+
     /// # Errors
     /// no errors
     #[inline]
diff --git a/component/server/src/cmd/sorted_set/zrange.rs b/component/server/src/cmd/sorted_set/zrange.rs
index f83e628..a42382a 100644
--- a/component/server/src/cmd/sorted_set/zrange.rs
+++ b/component/server/src/cmd/sorted_set/zrange.rs
@@ -34,11 +34,13 @@ impl Zrange<'_> {
                 db.sorted_set_range_by_score(cmd)?
             }
             RangeCmdOrder::Bylex => {
-                let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-                let max = RangeCmdOrder::parse_lex_bound(self.max)?;
                 let cmd = dict::cmd::sorted_set::range_by_lex::Req {
                     key: self.key,
-                    range: if self.rev { (max, min) } else { (min, max) },
+                    range: if self.rev {
+                        RangeCmdOrder::parse_lex_range(self.max, self.min)?
+                    } else {
+                        RangeCmdOrder::parse_lex_range(self.min, self.max)?
+                    },
                     limit: self.limit,
                     rev: self.rev,
                 };
diff --git a/component/server/src/cmd/sorted_set/zrangebylex.rs b/component/server/src/cmd/sorted_set/zrangebylex.rs
index ddd8d67..0a5080b 100644
--- a/component/server/src/cmd/sorted_set/zrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zrangebylex.rs
@@ -19,8 +19,7 @@ pub struct Zrangebylex<'a> {
 impl Zrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let (min, max) = RangeCmdOrder::parse_lex_range(self.min, self.max)?;
         let cmd = dict::cmd::sorted_set::range_by_lex::Req {
             key: self.key,
             range: (min, max),
diff --git a/component/server/src/cmd/sorted_set/zremrangebylex.rs b/component/server/src/cmd/sorted_set/zremrangebylex.rs
index 6530078..38819eb 100644
--- a/component/server/src/cmd/sorted_set/zremrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zremrangebylex.rs
@@ -15,8 +15,7 @@ pub struct Zremrangebylex<'a> {
 impl Zremrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let (min, max) = RangeCmdOrder::parse_lex_range(self.min, self.max)?;
         let res =
             db.sorted_set_remove_by_lex_range(dict::cmd::sorted_set::remove_by_lex_range::Req {
                 key: self.key.into(),
diff --git a/component/server/src/cmd/sorted_set/zrevrangebylex.rs b/component/server/src/cmd/sorted_set/zrevrangebylex.rs
index a5272a2..ab9246c 100644
--- a/component/server/src/cmd/sorted_set/zrevrangebylex.rs
+++ b/component/server/src/cmd/sorted_set/zrevrangebylex.rs
@@ -18,8 +18,7 @@ pub struct Zrevrangebylex<'a> {
 impl Zrevrangebylex<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let min = RangeCmdOrder::parse_lex_bound(self.min)?;
-        let max = RangeCmdOrder::parse_lex_bound(self.max)?;
+        let (max, min) = RangeCmdOrder::parse_lex_range(self.max, self.min)?;
         let cmd = dict::cmd::sorted_set::range_by_lex::Req {
             key: self.key,
             range: (max, min),
-- 
2.43.0


From 703051822e01a086edfd7dcbd58d63636884988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:32 +0000
Subject: [PATCH 10/48] fix: members with line breaks are sent as bulk strings,
 a simple string would end early

---
 component/common/src/connection/parse/frame.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index eeb00ab..4ef918e 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -191,6 +191,10 @@ impl Frame<'_> {
     #[inline]
     pub fn write(&self, res: &mut Vec<u8>) {
         match self {
+            // a simple string ends at the first line break
+            Frame::OwnedSimple(a) if a.iter().any(|c| matches!(c, b'\r' | b'\n')) => {
+                Frame::Bulk(a).write(res);
+            }
             Frame::Simple(a) => {
                 res.push(b'+');
                 res.extend_from_slice(a);
-- 
2.43.0


From fc1c0fb2387dc24f8a8707b33d2ec7c910b973f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 11/48] fix: an error reply stays on one line whatever the
 request contained

---
 component/common/src/connection/parse/frame.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 4ef918e..2f167c8 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -217,7 +217,11 @@ impl Frame<'_> {
             }
             Frame::OwnedError(a) => {
                 res.push(b'-');
-                res.extend_from_slice(a.as_bytes());
+                // errors echo parts of the request, a line break would end the reply early
+                res.extend(a.bytes().map(|c| match c {
+                    b'\r' | b'\n' => b' ',
+                    c => c,
+                }));
                 res.extend_from_slice(b"\r\n");
             }
             Frame::Integer(a) => {
-- 
2.43.0


From e4d1877b8c20a07e562a1b8c83391f9ba3acf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 12/48] fix: INCR, INCRBY, DECRBY and HINCRBY refuse to
 overflow

---
 component/dict/src/cmd/kvp/incr.rs      | 4 +++-
 component/dict/src/cmd/simple/incr.rs   | 4 +++-
 component/server/src/cmd/base/decrby.rs | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/kvp/incr.rs b/component/dict/src/cmd/kvp/incr.rs
index feb7c7d..5c568c0 100644
--- a/component/dict/src/cmd/kvp/incr.rs
+++ b/component/dict/src/cmd/kvp/incr.rs
@@ -35,7 +35,9 @@ impl<D: Dict> Write<i64, D> for Req {
             DataType::Kvp(ref mut kvp) => {
                 if let Some(s) = kvp.get_mut(&self.field) {
                     let old: i64 = (&*s).try_into()?;
-                    let new = old + self.value;
+                    let new = old
+                        .checked_add(self.value)
+                        .ok_or("ERR increment or decrement would overflow")?;
                     *s = DataType::Integer(new);
                     Ok(new)
                 } else {
diff --git a/component/dict/src/cmd/simple/incr.rs b/component/dict/src/cmd/simple/incr.rs
index cd1e5bb..a5948b0 100644
--- a/component/dict/src/cmd/simple/incr.rs
+++ b/component/dict/src/cmd/simple/incr.rs
@@ -27,7 +27,9 @@ impl<D: Dict> Write<i64, D> for Req {
     fn apply(self, dict: &mut D) -> common::Result<i64> {
         if let Some(v) = dict.get(&self.key) {
             let old: i64 = (&v.data).try_into()?;
-            let new = old + self.value;
+            let new = old
+                .checked_add(self.value)
+                .ok_or("ERR increment or decrement would overflow")?;
             v.data = DataType::Integer(new);
             Ok(new)
         } else {
diff --git a/component/server/src/cmd/base/decrby.rs b/component/server/src/cmd/base/decrby.rs
index 8108612..5b3335f 100644
--- a/component/server/src/cmd/base/decrby.rs
+++ b/component/server/src/cmd/base/decrby.rs
@@ -23,6 +23,9 @@ impl From<Decrby> for dict::cmd::simple::incr::Req {
 impl Decrby {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
+        if self.value == i64::MIN {
+            return Err("ERR decrement would overflow".into());
+        }
         let response = db.incr(self.into())?;
         Ok(Frame::Integer(response))
     }
-- 
2.43.0


From 0ea38f16527bd31ca608a0475ce9cff35b4acb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 13/48] fix: the purge task removes expired keys, which get()
 hides from it

---
 component/db/src/expire.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index b36062a..80e06fc 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -153,7 +153,7 @@ impl Expiration {
                     None => continue,
                 };
                 debug!("before: slot: {}, dict_len: {}", entry.slot, dict.len());
-                let res = match dict.get(&entry.key) {
+                let res = match dict.raw_get(&entry.key) {
                     // 如果过期时间更新过，可能会有时间不一样的情况
                     Some(value) if value.expires_at == entry.expires_at => {
                         Some(dict.remove(&entry.key))
@@ -182,7 +182,7 @@ pub fn scan_all(db: &Db) {
             None => return false,
         };
         // 只保留key存在，且过期时间能对上的记录
-        matches!(dict.get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
+        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
     });
 }
 
-- 
2.43.0


From 8f46ecd79370e46a9221ff516315984a2ca49f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 14/48] fix: an expired key that is not purged yet is not
 visible to DEL, SET GET and OBJECT

---
 component/dict/src/cmd/simple/del.rs                 | 3 ++-
 component/dict/src/cmd/simple/get_last_visit_time.rs | 2 +-
 component/dict/src/cmd/simple/get_visit_times.rs     | 2 +-
 component/dict/src/cmd/simple/set.rs                 | 4 +++-
 component/dict/src/lib.rs                            | 7 +++++++
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/component/dict/src/cmd/simple/del.rs b/component/dict/src/cmd/simple/del.rs
index 7d69ac8..5529c8e 100644
--- a/component/dict/src/cmd/simple/del.rs
+++ b/component/dict/src/cmd/simple/del.rs
@@ -38,7 +38,8 @@ impl<D: Dict> ExpiresOp<Option<Value>, D> for Req {
                 };
 
                 ExpiresOpResp {
-                    payload: Some(v),
+                    // a key that has expired is gone already, purged or not
+                    payload: Some(v).filter(|v| !v.is_expired()),
                     expires_status,
                 }
             },
diff --git a/component/dict/src/cmd/simple/get_last_visit_time.rs b/component/dict/src/cmd/simple/get_last_visit_time.rs
index f45bce2..f2e4ef1 100644
--- a/component/dict/src/cmd/simple/get_last_visit_time.rs
+++ b/component/dict/src/cmd/simple/get_last_visit_time.rs
@@ -8,7 +8,7 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        if let Some(v) = dict.raw_get(self.key).filter(|v| !v.is_expired()) {
             return Ok(Some(v.get_last_visit_time() * 10));
         }
         Ok(None)
diff --git a/component/dict/src/cmd/simple/get_visit_times.rs b/component/dict/src/cmd/simple/get_visit_times.rs
index 6b92065..eb92ce1 100644
--- a/component/dict/src/cmd/simple/get_visit_times.rs
+++ b/component/dict/src/cmd/simple/get_visit_times.rs
@@ -8,7 +8,7 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        if let Some(v) = dict.raw_get(self.key).filter(|v| !v.is_expired()) {
             return Ok(Some(v.get_visit_times()));
         }
         Ok(None)
diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index 95acf2d..7613a07 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -55,7 +55,9 @@ impl<D: Dict> ExpiresOp<DataType, D> for Req {
                 (old, ExpiresStatus::None)
             };
             return Ok(ExpiresOpResp {
-                payload: old.map_or(DataType::Null, |v| v.data),
+                payload: old
+                    .filter(|v| !v.is_expired())
+                    .map_or(DataType::Null, |v| v.data),
                 expires_status,
             });
         }
diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 9df8e65..32cb17b 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -59,6 +59,13 @@ pub struct Value {
 
 impl Value {
     const MAX_VISIT_TIMES: u64 = (1 << 16) - 1;
+
+    #[inline]
+    #[must_use]
+    pub fn is_expired(&self) -> bool {
+        self.expires_at != 0 && self.expires_at <= now_timestamp_ms()
+    }
+
     /// 16 bit
     #[inline]
     const fn get_min(now: u64) -> u64 {
-- 
2.43.0


From acc7f16759ffefb1a0577962ca7f6c5c7d800f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 15/48] fix: a clock set back does not underflow the visit log
 and OBJECT IDLETIME

---
 component/dict/src/lib.rs                 | 3 ++-
 component/server/src/cmd/others/object.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 32cb17b..336f86b 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -117,7 +117,8 @@ impl Value {
         let old_last_desc_time = self.get_last_desc_time();
         let last_desc_time = Self::get_min(now);
         // todo diff / minutes
-        let diff = last_desc_time - old_last_desc_time;
+        // the clock may have been set back, and the 16 bits wrap
+        let diff = last_desc_time.saturating_sub(old_last_desc_time);
         let mut visit_times = self.get_visit_times();
         if diff > visit_times {
             visit_times = 0;
diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index a3608e4..0fbbf23 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -25,7 +25,7 @@ impl Object<'_> {
                 })?
             {
                 #[allow(clippy::cast_possible_wrap)]
-                Ok(Frame::Integer((now_timestamp_ms() / 1000 - u) as _))
+                Ok(Frame::Integer((now_timestamp_ms() / 1000).saturating_sub(u) as _))
             } else {
                 Err("idletiem key not exists".into())
             };
-- 
2.43.0


From 20d3e2ade015166d89c9cc08a1b9dd7db4fd06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 16/48] fix: RESTORE IDLETIME and FREQ stay within the fields
 of the visit log

---
 component/dict/src/cmd/server/restore.rs   | 2 +-
 component/server/src/cmd/others/restore.rs | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 7ad0b0a..1b78460 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -41,7 +41,7 @@ impl<D: Dict> ExpiresOp<(), D> for Req<'_> {
             visit_log: Value::create_visit_log(
                 self.last_visit_time / 10,
                 Value::get_min(now_timestamp_ms()),
-                self.freq,
+                self.freq.min(Value::MAX_VISIT_TIMES),
             ),
         };
         let key: Key = self.key.into();
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 6ff2735..8c660f7 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -36,11 +36,10 @@ impl Restore<'_> {
             value: self.serialized_value,
             expires_at: ttl,
             replace: self.replace,
-            last_visit_time: now_timestamp_ms() / 1000
-                - match self.idle_time {
-                    IdleTime::Some(i) => i,
-                    IdleTime::None => 0,
-                },
+            last_visit_time: (now_timestamp_ms() / 1000).saturating_sub(match self.idle_time {
+                IdleTime::Some(i) => i,
+                IdleTime::None => 0,
+            }),
             freq: match self.freq {
                 Freq::Some(i) => i,
                 Freq::None => 0,
-- 
2.43.0


From abf150fd5d3133745240e31851c11b99ab71d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:48 +0000
Subject: [PATCH 17/48] fix: negative, zero and huge expire times neither
 overflow nor mean no expiration

---
 component/common/src/lib.rs                | 13 +++++++++++++
 component/server/src/cmd/base/expire.rs    |  2 +-
 component/server/src/cmd/base/expireat.rs  |  2 +-
 component/server/src/cmd/base/pexpire.rs   |  2 +-
 component/server/src/cmd/base/pexpireat.rs |  2 +-
 component/server/src/cmd/base/psetex.rs    |  6 +++++-
 component/server/src/cmd/base/set.rs       | 12 ++++++++----
 component/server/src/cmd/base/setex.rs     |  6 +++++-
 component/server/src/cmd/others/restore.rs |  2 +-
 9 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/component/common/src/lib.rs b/component/common/src/lib.rs
index cc86f9a..4e34a0f 100644
--- a/component/common/src/lib.rs
+++ b/component/common/src/lib.rs
@@ -49,6 +49,19 @@ pub fn now_timestamp_ms() -> u64 {
         .as_millis() as u64
 }
 
+/// The timestamp `time` units of `unit` milliseconds after `since`.
+///
+/// `time` comes from the client as an `i64`: it may be negative or too large for a timestamp.
+/// 0 means no expiration, so the earliest result is 1.
+#[inline]
+#[must_use]
+pub fn timestamp_after(since: u64, time: u64, unit: i64) -> u64 {
+    (time as i64)
+        .saturating_mul(unit)
+        .saturating_add(since as i64)
+        .max(1) as u64
+}
+
 pub trait ParseSerdeType<'de, T: Deserialize<'de> + Serialize> {
     fn parse_serde_type(&self) -> T;
 }
diff --git a/component/server/src/cmd/base/expire.rs b/component/server/src/cmd/base/expire.rs
index 5fbd4e1..39be591 100644
--- a/component/server/src/cmd/base/expire.rs
+++ b/component/server/src/cmd/base/expire.rs
@@ -25,7 +25,7 @@ impl Expire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.seconds * 1000 + now_timestamp_ms(),
+            expires_at: common::timestamp_after(now_timestamp_ms(), self.seconds, 1000),
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/expireat.rs b/component/server/src/cmd/base/expireat.rs
index 1e9cb90..996de25 100644
--- a/component/server/src/cmd/base/expireat.rs
+++ b/component/server/src/cmd/base/expireat.rs
@@ -24,7 +24,7 @@ impl Expireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.timestamp * 1000,
+            expires_at: common::timestamp_after(0, self.timestamp, 1000),
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpire.rs b/component/server/src/cmd/base/pexpire.rs
index 3b48f8d..883bf10 100644
--- a/component/server/src/cmd/base/pexpire.rs
+++ b/component/server/src/cmd/base/pexpire.rs
@@ -25,7 +25,7 @@ impl Pexpire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds + now_timestamp_ms(),
+            expires_at: common::timestamp_after(now_timestamp_ms(), self.milliseconds, 1),
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpireat.rs b/component/server/src/cmd/base/pexpireat.rs
index 6b32d57..0ea5817 100644
--- a/component/server/src/cmd/base/pexpireat.rs
+++ b/component/server/src/cmd/base/pexpireat.rs
@@ -24,7 +24,7 @@ impl Pexpireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds_timestamp,
+            expires_at: common::timestamp_after(0, self.milliseconds_timestamp, 1),
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/psetex.rs b/component/server/src/cmd/base/psetex.rs
index e21ddae..2ba5ca9 100644
--- a/component/server/src/cmd/base/psetex.rs
+++ b/component/server/src/cmd/base/psetex.rs
@@ -23,7 +23,11 @@ impl From<Psetex> for dict::cmd::simple::set::Req {
         Self {
             key: old.key,
             value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.milliseconds),
+            expires_at: ExpiresAt::Specific(common::timestamp_after(
+                now_timestamp_ms(),
+                old.milliseconds,
+                1,
+            )),
             nx_xx: NxXx::None,
         }
     }
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index e621fa1..cbcbcd7 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -35,10 +35,14 @@ impl Set {
             key: self.key,
             value: self.value,
             expires_at: match self.expires {
-                SetCmdExpires::Ex(e) => ExpiresAt::Specific(now_timestamp_ms() + e * 1000),
-                SetCmdExpires::Px(e) => ExpiresAt::Specific(now_timestamp_ms() + e),
-                SetCmdExpires::Exat(e) => ExpiresAt::Specific(e * 1000),
-                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(e),
+                SetCmdExpires::Ex(e) => {
+                    ExpiresAt::Specific(common::timestamp_after(now_timestamp_ms(), e, 1000))
+                }
+                SetCmdExpires::Px(e) => {
+                    ExpiresAt::Specific(common::timestamp_after(now_timestamp_ms(), e, 1))
+                }
+                SetCmdExpires::Exat(e) => ExpiresAt::Specific(common::timestamp_after(0, e, 1000)),
+                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(common::timestamp_after(0, e, 1)),
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
diff --git a/component/server/src/cmd/base/setex.rs b/component/server/src/cmd/base/setex.rs
index a771bd2..8deb1f2 100644
--- a/component/server/src/cmd/base/setex.rs
+++ b/component/server/src/cmd/base/setex.rs
@@ -23,7 +23,11 @@ impl From<Setex> for dict::cmd::simple::set::Req {
         Self {
             key: old.key,
             value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.seconds * 1000),
+            expires_at: ExpiresAt::Specific(common::timestamp_after(
+                now_timestamp_ms(),
+                old.seconds,
+                1000,
+            )),
             nx_xx: NxXx::None,
         }
     }
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 8c660f7..2145619 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -27,7 +27,7 @@ impl Restore<'_> {
         let ttl = if self.absttl {
             self.ttl
         } else if self.ttl > 0 {
-            now_timestamp_ms() + self.ttl
+            common::timestamp_after(now_timestamp_ms(), self.ttl, 1)
         } else {
             0
         };
-- 
2.43.0


From b8f50cbb26150e4d2f2633a56a56f1b459bd8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 18/48] fix: a plain SET replaces the expire entry of the value
 it overwrites

---
 component/dict/src/cmd/simple/set.rs | 42 +++++++++++-----------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index 7613a07..ed424b7 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -26,33 +26,23 @@ impl<D: Dict> ExpiresOp<DataType, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<ExpiresOpResp<DataType>> {
         if let (NxXx::None, ExpiresAt::Specific(expires_at)) = (self.nx_xx, self.expires_at) {
-            let (old, expires_status) = if expires_at > 0 {
-                let old = dict.insert(
-                    self.key.clone(),
-                    Value {
-                        data: self.value,
-                        expires_at,
-                        visit_log: Value::new_visit_log(),
-                    },
-                );
-                (
-                    old,
-                    ExpiresStatus::Update(ExpiresStatusUpdate {
-                        key: self.key,
-                        before: 0,
-                        new: expires_at,
-                    }),
-                )
+            let old_expires_at = dict.raw_get(&self.key).map_or(0, |v| v.expires_at);
+            let old = dict.insert(
+                self.key.clone(),
+                Value {
+                    data: self.value,
+                    expires_at,
+                    visit_log: Value::new_visit_log(),
+                },
+            );
+            let expires_status = if old_expires_at == expires_at {
+                ExpiresStatus::None
             } else {
-                let old = dict.insert(
-                    self.key,
-                    Value {
-                        data: self.value,
-                        expires_at,
-                        visit_log: Value::new_visit_log(),
-                    },
-                );
-                (old, ExpiresStatus::None)
+                ExpiresStatus::Update(ExpiresStatusUpdate {
+                    key: self.key,
+                    before: old_expires_at,
+                    new: expires_at,
+                })
             };
             return Ok(ExpiresOpResp {
                 payload: old
-- 
2.43.0


From 55085b06ff17cd017c679860b01725e87e0f1031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 19/48] fix: expire and forward messages leave a slot in the
 order its commands were applied

---
 component/db/src/slot.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 5589406..926e6e7 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -77,17 +77,15 @@ impl Slot {
     fn call_write<T, C: Write<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
         // 加锁执行命令
-        let (res, id) = {
-            let mut share_status = self.share_status.lock();
-            let s = match &mut *share_status {
-                Some(s) => s,
-                None => return Err("slot not support".into()),
-            };
-            let id = s.dict.next_id();
-            (cc.apply(&mut s.dict), id)
+        let mut share_status = self.share_status.lock();
+        let s = match &mut *share_status {
+            Some(s) => s,
+            None => return Err("slot not support".into()),
         };
+        let id = s.dict.next_id();
+        let res = cc.apply(&mut s.dict);
 
-        // 转发执行完成的请求
+        // 转发执行完成的请求 (持锁发送, 发送顺序与执行顺序一致)
         if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
             id,
             slot: self.slot_id,
@@ -103,15 +101,13 @@ impl Slot {
     fn call_expires_write<T, C: ExpiresOp<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
         // 加锁执行命令
-        let (res, id) = {
-            let mut share_status = self.share_status.lock();
-            let s = match &mut *share_status {
-                Some(s) => s,
-                None => return Err("slot not support".into()),
-            };
-            let id = s.dict.next_id();
-            (cc.apply(&mut s.dict), id)
+        let mut share_status = self.share_status.lock();
+        let s = match &mut *share_status {
+            Some(s) => s,
+            None => return Err("slot not support".into()),
         };
+        let id = s.dict.next_id();
+        let res = cc.apply(&mut s.dict);
 
         let res = match res {
             Ok(ExpiresOpResp {
@@ -138,7 +134,7 @@ impl Slot {
             Err(e) => Err(e),
         };
 
-        // 转发执行完成的请求
+        // 转发执行完成的请求 (持锁发送, 发送顺序与执行顺序一致)
         if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
             id,
             slot: self.slot_id,
-- 
2.43.0


From cde04c6c16f25736c203648266fb1d44f14b8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 20/48] fix: a snapshot names its slots in the type the
 receiver reads

---
 component/server/src/cmd/syncsnapshot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 4f20c77..c5eda3c 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -52,7 +52,7 @@ impl SyncSnapshot {
                     let mut stream = stream.into_std()?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
-                            bincode::serialize_into(&mut stream, &Some(id))?;
+                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                             bincode::serialize_into(&mut stream, &s.dict)?;
                         }
                     }
-- 
2.43.0


From f2d6282aa516b1cc0d9be751f7fcdb3afaf054a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 21/48] fix: a snapshot is not cut off when the receiver is
 slower than the sender

---
 component/server/src/cmd/syncsnapshot.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index c5eda3c..b8558d2 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -50,6 +50,8 @@ impl SyncSnapshot {
                 // parent restarts it can bind/lock despite the child possibly still running.
                 let run = |stream: TcpStream| -> common::Result<()> {
                     let mut stream = stream.into_std()?;
+                    // a snapshot larger than the send buffer has to wait for the receiver
+                    stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
                             bincode::serialize_into(&mut stream, &Some(id as u16))?;
-- 
2.43.0


From e915c54ea501c11ac432675573a4a073025c445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 22/48] fix: a snapshot request for a slot that does not exist
 closes the connection, no panic

---
 component/server/src/cmd/syncsnapshot.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index b8558d2..9a2f7b0 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -17,6 +17,10 @@ pub struct SyncSnapshot {
 impl SyncSnapshot {
     #[tracing::instrument(skip(handler))]
     pub fn apply(self, handler: Handler) {
+        if self.slot_id > SLOT_SIZE {
+            error!("no such slot: {}", self.slot_id);
+            return;
+        }
         // 先拿到需要传输的数据，避免死锁
         let slots = if self.slot_id == SLOT_SIZE as usize {
             // 全部slot
-- 
2.43.0


From 3ae12ca30bdfe00c9985f9a3ce25d61ed89947b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 23/48] fix: re-synchronising one slot does not lock all the
 others for good

---
 component/db/src/pd_handle/replica.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f4a47e2..eaed390 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -81,7 +81,10 @@ impl Inner {
     }
 
     fn lock_slot(&self, slot_id: usize) {
-        if slot_id != SLOT_SIZE {}
+        if slot_id != SLOT_SIZE {
+            self.snapshot_lock[slot_id].store(true, std::sync::atomic::Ordering::Relaxed);
+            return;
+        }
         for l in &self.snapshot_lock {
             l.store(true, std::sync::atomic::Ordering::Relaxed);
         }
-- 
2.43.0


From bc701cfaa329e25538ce7853536d5c63555972e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 24/48] fix: a server that starts as leader identifies itself
 in its heartbeats

---
 component/db/src/pd_handle/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 46ca38c..004eca8 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -100,9 +100,7 @@ impl PdHandle {
                 self.replica_task.close_sync_cmd();
                 self.latest_status = status;
             }
-            _ => {
-                // do nothing
-            }
+            _ => self.latest_status = status,
         }
         Ok(())
     }
-- 
2.43.0


From 5ffe648406e3234a97c45427a12f312943f16a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 25/48] fix: FLUSHALL reaches the replicas and keeps the write
 ids going

---
 component/db/src/slot.rs                | 13 +++++++++++++
 component/db/src/slot/replica_update.rs | 24 ++++++++++++++++++++++++
 component/dict/src/cmd/mod.rs           |  2 ++
 3 files changed, 39 insertions(+)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 926e6e7..300b598 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -158,7 +158,20 @@ impl Slot {
     pub(crate) fn flush(&self, sync: bool) {
         let mut status = self.share_status.lock();
         if let Some(inner) = &mut *status {
+            if inner.dict.is_empty() {
+                return;
+            }
+            let id = inner.dict.next_id();
             let old = std::mem::take(inner);
+            // 保留 write_id, 否则 replica 会忽略之后的写操作
+            inner.dict.set_write_id(id);
+            if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
+                id,
+                slot: self.slot_id,
+                cmd: cmd::WriteCmd::Flush,
+            }) {
+                error!("flush: {:?}", e);
+            };
             drop(status);
             if !sync {
                 tokio::task::spawn_blocking(|| old);
diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index 0854a6d..dcc027f 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -29,9 +29,33 @@ impl Slot {
             cmd::WriteCmd::SortedSetRemoveByScoreRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByLexRange(req) => self.call_update(id, req),
             cmd::WriteCmd::None => Ordering::Equal,
+            cmd::WriteCmd::Flush => self.flush_update(id),
         }
     }
 
+    fn flush_update(&self, id: u64) -> Ordering {
+        let mut status = self.share_status.lock();
+        let s = match status.as_mut() {
+            Some(s) => s,
+            None => return Ordering::Greater,
+        };
+        let order = id.cmp(&(s.dict.last_write_op_id() + 1));
+        if order == Ordering::Equal {
+            let old = std::mem::take(s);
+            s.dict.set_write_id(id);
+            if old.dict.inner.values().any(|v| v.expires_at > 0) {
+                if let Err(e) = self
+                    .bg_task
+                    .expire_sender
+                    .send(expire::Message::Clear(self.slot_id))
+                {
+                    error!("flush_update: {:?}", e);
+                }
+            }
+        }
+        order
+    }
+
     fn call_update<T, C: Write<T, MemDict> + Clone>(&self, id: u64, cmd: C) -> Ordering {
         self.share_status
             .lock()
diff --git a/component/dict/src/cmd/mod.rs b/component/dict/src/cmd/mod.rs
index 01b1b35..4c21d2d 100644
--- a/component/dict/src/cmd/mod.rs
+++ b/component/dict/src/cmd/mod.rs
@@ -81,4 +81,6 @@ pub enum WriteCmd {
     SortedSetRemoveByLexRange(sorted_set::remove_by_lex_range::Req),
     // 心跳返回值也用这个
     None,
+    /// 清空 slot
+    Flush,
 }
-- 
2.43.0


From 0cc6b27f84eb5aa4ef03fd08130856ca6c7a6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 26/48] fix: RESTORE reaches the replicas

---
 component/db/src/slot/replica_update.rs  |  1 +
 component/dict/src/cmd/mod.rs            |  1 +
 component/dict/src/cmd/server/restore.rs | 38 ++++++++++++++++++++++--
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index dcc027f..23bdb53 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -29,6 +29,7 @@ impl Slot {
             cmd::WriteCmd::SortedSetRemoveByScoreRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByLexRange(req) => self.call_update(id, req),
             cmd::WriteCmd::None => Ordering::Equal,
+            cmd::WriteCmd::Restore(req) => self.call_expires_update(id, req.borrow()),
             cmd::WriteCmd::Flush => self.flush_update(id),
         }
     }
diff --git a/component/dict/src/cmd/mod.rs b/component/dict/src/cmd/mod.rs
index 4c21d2d..677c53a 100644
--- a/component/dict/src/cmd/mod.rs
+++ b/component/dict/src/cmd/mod.rs
@@ -83,4 +83,5 @@ pub enum WriteCmd {
     None,
     /// 清空 slot
     Flush,
+    Restore(server::restore::OwnedReq),
 }
diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 1b78460..8107a28 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -17,11 +17,43 @@ pub struct Req<'a> {
     pub freq: u64,
 }
 
+/// 转发给 replica 的 restore
+#[derive(Debug, Serialize, Deserialize, Clone)]
+pub struct OwnedReq {
+    pub key: Key,
+    pub value: Vec<u8>,
+    pub expires_at: u64,
+    pub replace: bool,
+    pub last_visit_time: u64,
+    pub freq: u64,
+}
+
 impl<'a> From<Req<'a>> for WriteCmd {
     #[inline]
-    fn from(_req: Req<'a>) -> Self {
-        // todo
-        WriteCmd::None
+    fn from(req: Req<'a>) -> Self {
+        WriteCmd::Restore(OwnedReq {
+            key: req.key.into(),
+            value: req.value.into(),
+            expires_at: req.expires_at,
+            replace: req.replace,
+            last_visit_time: req.last_visit_time,
+            freq: req.freq,
+        })
+    }
+}
+
+impl OwnedReq {
+    #[inline]
+    #[must_use]
+    pub fn borrow(&self) -> Req<'_> {
+        Req {
+            key: &self.key,
+            value: &self.value,
+            expires_at: self.expires_at,
+            replace: self.replace,
+            last_visit_time: self.last_visit_time,
+            freq: self.freq,
+        }
     }
 }
 
-- 
2.43.0


From e0e0dade799fa25a77e26f8b46e3fc9b81bcec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 27/48] fix: deeply nested arrays are refused instead of
 overflowing the stack

---
 .../common/src/connection/parse/frame.rs      | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 2f167c8..128be16 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -132,7 +132,7 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 }
 
 #[inline]
-fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+fn parse_array(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
     let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
         atoi::atoi::<i64>(int).unwrap_or(0)
@@ -143,7 +143,7 @@ fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     } else {
         let mut res = vec![];
         for _ in 0..len {
-            let (ni, f) = parse_alt(i)?;
+            let (ni, f) = parse_nested(i, depth + 1)?;
             res.push(f);
             i = ni;
         }
@@ -163,12 +163,25 @@ fn parse_ping(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 /// parse failed
 #[inline]
 fn parse_alt(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+    parse_nested(i, 0)
+}
+
+/// arrays nested deeper than this are not a request, and must not use up the stack
+const MAX_DEPTH: usize = 32;
+
+fn parse_nested(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(nom::error::Error::new(
+            i,
+            nom::error::ErrorKind::TooLarge,
+        )));
+    }
     alt((
         parse_simple,
         parse_error,
         parse_int,
         parse_bulk,
-        parse_array,
+        |i| parse_array(i, depth),
         parse_ping,
     ))(i)
 }
-- 
2.43.0


From ad3a54c2947cfac6bfbba08121b2bfef9ea08609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 28/48] fix: a replica subscribes before its snapshot, and
 starts over when the stream breaks instead of spinning

---
 component/db/src/pd_handle/mod.rs     |  3 +-
 component/db/src/pd_handle/replica.rs | 89 ++++++++++++++++++---------
 2 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 004eca8..b5d15c8 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -91,8 +91,7 @@ impl PdHandle {
             {
                 // update leader
                 self.replica_task.update_leader(status.current_leader);
-                self.replica_task.sync_all_snapshot()?;
-                self.replica_task.sync_cmd()?;
+                self.replica_task.sync()?;
                 self.latest_status = status;
             }
             (ServerRole::Follower, ServerRole::Leader) => {
diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index eaed390..a5796cb 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -26,6 +26,8 @@ struct Inner {
     db: Arc<Db>,
     notify_lock_update: Notify,
     leader: Mutex<Option<LeaderInfo>>,
+    /// 同时只有一个同步过程
+    sync_lock: Arc<Mutex<()>>,
 }
 
 impl Inner {
@@ -90,45 +92,76 @@ impl Inner {
         }
     }
 
-    async fn process_cmd(self: Arc<Self>) {
-        loop {
-            if let Some(rx) = self.cmd_rx.load().as_ref() {
-                if let Ok(msg) = rx.recv_async().await {
-                    let slot_id = msg.slot;
-                    loop {
-                        self.wait_slot(slot_id).await;
-                        if std::cmp::Ordering::Greater
-                            == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
-                        {
-                            if let Err(e) = self.clone().sync_snapshot(slot_id) {
-                                warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
-                                tokio::time::sleep(Duration::from_secs(1)).await;
-                            }
-                        } else {
-                            break;
-                        }
+    /// 是否还在使用这个 rx, leader 变更之后旧的就不再使用了
+    fn is_current(&self, rx: &Arc<flume::Receiver<Message>>) -> bool {
+        self.cmd_rx
+            .load()
+            .as_ref()
+            .map_or(false, |c| Arc::ptr_eq(c, rx))
+    }
+
+    async fn process_cmd(self: Arc<Self>, rx: Arc<flume::Receiver<Message>>) {
+        while let Ok(msg) = rx.recv_async().await {
+            let slot_id = msg.slot;
+            loop {
+                self.wait_slot(slot_id).await;
+                if !self.is_current(&rx) {
+                    return;
+                }
+                if std::cmp::Ordering::Greater
+                    == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
+                {
+                    if let Err(e) = self.clone().sync_snapshot(slot_id) {
+                        warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
+                        tokio::time::sleep(Duration::from_secs(1)).await;
                     }
+                } else {
+                    break;
                 }
-            } else {
-                return;
+            }
+        }
+        // 连接断了, 重新同步
+        while self.is_current(&rx) {
+            tokio::time::sleep(Duration::from_secs(1)).await;
+            let (inner, old) = (self.clone(), rx.clone());
+            match tokio::task::spawn_blocking(move || inner.sync(Some(&old))).await {
+                Ok(Ok(())) => return,
+                Ok(Err(e)) => warn!("sync again: {:?}", e),
+                Err(e) => error!("sync again: {:?}", e),
             }
         }
     }
 
-    fn sync_cmd(self: Arc<Self>) -> common::Result<()> {
+    /// 从 leader 同步: 先订阅命令, 再取快照, 两者之间的命令就不会丢
+    ///
+    /// `old`: 只在还使用着这个 rx 时才同步
+    fn sync(self: Arc<Self>, old: Option<&Arc<flume::Receiver<Message>>>) -> common::Result<()> {
+        let sync_lock = self.sync_lock.clone();
+        let _guard = sync_lock.lock();
+        if old.map_or(false, |old| !self.is_current(old)) {
+            return Ok(());
+        }
+        let rx = self.sync_cmd()?;
+        self.clone().sync_snapshot(SLOT_SIZE)?;
+        self.cmd_rx.store(Some(rx.clone()));
+        tokio::spawn(self.process_cmd(rx));
+        Ok(())
+    }
+
+    fn sync_cmd(&self) -> common::Result<Arc<flume::Receiver<Message>>> {
         let (tx, rx) = flume::unbounded();
         let mut stream =
             TcpStream::connect(self.leader.lock().ok_or("leader is none")?.forward_addr)?;
         stream.write_all(SYNC_CMD)?;
-        let stream = BufReader::new(stream);
+        let mut stream = BufReader::new(stream);
+        // 收到回复, 说明 leader 已经开始转发
+        let _reply: Message = bincode::deserialize_from(&mut stream)?;
         tokio::task::spawn_blocking(move || {
             if let Err(e) = receive_cmd(&tx, stream) {
                 error!("sync_cmd error: {:?}", e);
             }
         });
-        self.cmd_rx.store(Some(Arc::new(rx)));
-        tokio::spawn(self.process_cmd());
-        Ok(())
+        Ok(Arc::new(rx))
     }
 }
 
@@ -145,14 +178,12 @@ impl Task {
                 db,
                 notify_lock_update: Notify::new(),
                 leader: Mutex::new(None),
+                sync_lock: Arc::default(),
                 snapshot_syncing: AtomicBool::new(false),
             }),
         }
     }
 
-    pub fn sync_all_snapshot(&self) -> common::Result<()> {
-        self.inner.clone().sync_snapshot(SLOT_SIZE as _)
-    }
     pub fn update_leader(&self, leader: Option<LeaderInfo>) {
         *self.inner.leader.lock() = leader;
     }
@@ -160,8 +191,8 @@ impl Task {
     pub fn close_sync_cmd(&self) {
         self.inner.cmd_rx.store(None);
     }
-    pub fn sync_cmd(&self) -> common::Result<()> {
-        self.inner.clone().sync_cmd()
+    pub fn sync(&self) -> common::Result<()> {
+        self.inner.clone().sync(None)
     }
 }
 
-- 
2.43.0


From a153dd428cbec720eb9503e02278ec615ba644c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 29/48] fix: a snapshot transfer that fails is repeated and
 does not leave the slots locked

---
 component/db/src/pd_handle/replica.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index a5796cb..f65836c 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -33,8 +33,9 @@ struct Inner {
 impl Inner {
     async fn wait_slot(&self, slot_id: usize) {
         loop {
+            let notified = self.notify_lock_update.notified();
             if self.snapshot_lock[slot_id].load(std::sync::atomic::Ordering::Acquire) {
-                self.notify_lock_update.notified().await;
+                notified.await;
             } else {
                 break;
             }
@@ -53,9 +54,19 @@ impl Inner {
         self.lock_slot(slot_id);
 
         tokio::task::spawn_blocking(move || {
-            if let Err(e) = self.sync_snapshot_without_lock(slot_id) {
+            while let Err(e) = self.sync_snapshot_without_lock(slot_id) {
                 error!("sync_snapshot error: {:?}", e);
+                if self.leader.lock().is_none() {
+                    break;
+                }
+                std::thread::sleep(Duration::from_secs(1));
             }
+            for l in &self.snapshot_lock {
+                l.store(false, std::sync::atomic::Ordering::Release);
+            }
+            self.snapshot_syncing
+                .store(false, std::sync::atomic::Ordering::Release);
+            self.notify_lock_update.notify_waiters();
         });
 
         Ok(())
@@ -76,9 +87,6 @@ impl Inner {
             self.db.replace_dict(slot_id, dict);
             self.snapshot_lock[slot_id].store(false, std::sync::atomic::Ordering::Release);
         }
-        self.snapshot_syncing
-            .store(false, std::sync::atomic::Ordering::Release);
-        self.notify_lock_update.notify_one();
         Ok(())
     }
 
@@ -189,6 +197,7 @@ impl Task {
     }
 
     pub fn close_sync_cmd(&self) {
+        *self.inner.leader.lock() = None;
         self.inner.cmd_rx.store(None);
     }
     pub fn sync(&self) -> common::Result<()> {
-- 
2.43.0


From bd4fbfe357eb99dc7161eac2a1a13b22b1fa6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 30/48] fix: a replica notices a leader that went silent

---
 component/db/src/forward/connection.rs |  6 ++++++
 component/db/src/pd_handle/replica.rs  | 23 ++++++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/component/db/src/forward/connection.rs b/component/db/src/forward/connection.rs
index b2fea0e..74dfed3 100644
--- a/component/db/src/forward/connection.rs
+++ b/component/db/src/forward/connection.rs
@@ -81,8 +81,14 @@ async fn run_connect_task(
     rx: flume::Receiver<super::Message>,
 ) -> common::Result<()> {
     let mut ping_buf = [0; SYNC_CMD_PING.len()];
+    // 没有消息的时候也要让对方知道连接正常
+    let mut interval = time::interval(Duration::from_secs(1));
+    interval.set_missed_tick_behavior(time::MissedTickBehavior::Delay);
     loop {
         select! {
+            _ = interval.tick() => {
+                stream.write_all(&bincode::serialize(&super::Message::none())?).await?;
+            }
             // 转发消息
             msg = rx.recv_async() => {
                  stream.write_all(&bincode::serialize(&msg?)?).await?;
diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f65836c..5e7c214 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -1,6 +1,6 @@
 use std::{
     io::{BufReader, Write},
-    net::TcpStream,
+    net::{SocketAddr, TcpStream},
     sync::{atomic::AtomicBool, Arc},
     time::{Duration, Instant},
 };
@@ -73,8 +73,12 @@ impl Inner {
     }
 
     fn sync_snapshot_without_lock(&self, slot_id: usize) -> common::Result<()> {
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader not exists")?.server_addr)?;
+        let addr = self
+            .leader
+            .lock()
+            .ok_or("leader not exists")?
+            .server_addr;
+        let mut stream = connect(addr)?;
         let req: Vec<_> = (&Frame::Array(vec![
             Frame::Bulk(b"syncsnapshot"[..].into()),
             Frame::Integer(slot_id as _),
@@ -158,8 +162,8 @@ impl Inner {
 
     fn sync_cmd(&self) -> common::Result<Arc<flume::Receiver<Message>>> {
         let (tx, rx) = flume::unbounded();
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader is none")?.forward_addr)?;
+        let addr = self.leader.lock().ok_or("leader is none")?.forward_addr;
+        let mut stream = connect(addr)?;
         stream.write_all(SYNC_CMD)?;
         let mut stream = BufReader::new(stream);
         // 收到回复, 说明 leader 已经开始转发
@@ -205,6 +209,15 @@ impl Task {
     }
 }
 
+/// leader 每秒至少发送一条消息, 更久没有数据就是断了
+const READ_TIMEOUT: Duration = Duration::from_secs(5);
+
+fn connect(addr: SocketAddr) -> common::Result<TcpStream> {
+    let stream = TcpStream::connect_timeout(&addr, Duration::from_secs(1))?;
+    stream.set_read_timeout(Some(READ_TIMEOUT))?;
+    Ok(stream)
+}
+
 fn receive_cmd(
     tx: &flume::Sender<Message>,
     mut stream: BufReader<TcpStream>,
-- 
2.43.0


From 6b2c6c715745ce1cfa7669593f280e31b9df8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:20 +0000
Subject: [PATCH 31/48] fix: heartbeats go on when the connection to the
 placement driver breaks

---
 component/db/src/pd_handle/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index b5d15c8..509d2da 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -46,9 +46,14 @@ impl PdHandle {
             .await?;
         let status: ServerStatus = bincode::deserialize(self.read_bytes().await?)?;
         let res = self.update_status(status);
-        tokio::spawn(async {
-            if let Err(e) = self.heartbeat().await {
+        tokio::spawn(async move {
+            while let Err(e) = self.heartbeat().await {
                 error!("pd heartbeat error: {:?}", e);
+                tokio::time::sleep(Duration::from_secs(1)).await;
+                match TcpStream::connect(self.pd.addr).await {
+                    Ok(stream) => self.connection = Connection::new(stream),
+                    Err(e) => error!("pd connect error: {:?}", e),
+                }
             }
         });
         res
@@ -65,7 +70,7 @@ impl PdHandle {
         }
     }
 
-    async fn heartbeat(mut self) -> common::Result<()> {
+    async fn heartbeat(&mut self) -> common::Result<()> {
         let mut interval = tokio::time::interval(Duration::from_secs(1));
         loop {
             interval.tick().await;
-- 
2.43.0


From f07aab113c41b957fb3ee94c7262a0ea9a5259ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:20 +0000
Subject: [PATCH 32/48] fix: a change of the system time does not depose a
 healthy leader

---
 component/pd/src/status.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/component/pd/src/status.rs b/component/pd/src/status.rs
index c7915c7..6d016ec 100644
--- a/component/pd/src/status.rs
+++ b/component/pd/src/status.rs
@@ -1,14 +1,21 @@
-use std::{net::SocketAddr, time::Duration};
-
-use common::{
-    now_timestamp_ms,
-    pd_message::{LeaderInfo, ServerInit, ServerRole, ServerStatus},
+use std::{
+    net::SocketAddr,
+    time::{Duration, Instant},
 };
+
+use common::pd_message::{LeaderInfo, ServerInit, ServerRole, ServerStatus};
 use once_cell::sync::Lazy;
 use parking_lot::RwLock;
 
 static STATUS: Lazy<RwLock<Status>> = Lazy::new(|| RwLock::new(Status::default()));
 
+static START: Lazy<Instant> = Lazy::new(Instant::now);
+
+/// 单调递增的毫秒数, 修改系统时间不应该影响存活检查
+fn now_ms() -> u64 {
+    START.elapsed().as_millis() as u64
+}
+
 #[derive(Default)]
 struct Status {
     // 最后一个分配的group_id
@@ -67,7 +74,7 @@ pub fn server_init(data: &ServerInit) -> common::Result<ServerStatus> {
                 } else {
                     ServerRole::Leader
                 };
-                let now = now_timestamp_ms();
+                let now = now_ms();
                 let server = Server {
                     id: g.latest_server_id,
                     latest_heartbeat: now,
@@ -114,7 +121,7 @@ impl Status {
     pub fn heartbeat_server(&mut self, group_id: usize, server_id: usize) -> Option<ServerStatus> {
         if let Some(g) = self.groups.iter_mut().find(|t| t.id == group_id) {
             if let Some(s) = g.servers.iter_mut().find(|t| t.id == server_id) {
-                s.latest_heartbeat = now_timestamp_ms();
+                s.latest_heartbeat = now_ms();
                 return Some(ServerStatus {
                     server_id: s.id,
                     group_id: g.id,
@@ -144,7 +151,7 @@ pub async fn server_survival_check() {
     let ts = 3_000;
     loop {
         interval.tick().await;
-        let now = now_timestamp_ms();
+        let now = now_ms();
         let mut status = STATUS.write();
 
         for g in &mut status.groups {
-- 
2.43.0


From d896a989f63090ca4a2eeae6060d4a54bb16bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 33/48] fix: reaping snapshot processes does not keep the
 server from shutting down

---
 component/db/src/child_process.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/component/db/src/child_process.rs b/component/db/src/child_process.rs
index fde51dd..a18a3c5 100644
--- a/component/db/src/child_process.rs
+++ b/component/db/src/child_process.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, thread::sleep, time::Duration};
+use std::{collections::HashMap, time::Duration};
 
 use nix::{
     sys::wait::{waitpid, WaitPidFlag},
@@ -6,10 +6,11 @@ use nix::{
 };
 use once_cell::sync::Lazy;
 use parking_lot::Mutex;
+use tokio::time::sleep;
 use tracing::{error, info, warn};
 
 static STATUS: Lazy<Mutex<HashMap<Pid, Info, ahash::RandomState>>> = Lazy::new(|| {
-    tokio::task::spawn_blocking(loop_status);
+    tokio::spawn(loop_status());
     Mutex::new(HashMap::with_hasher(ahash::RandomState::default()))
 });
 
@@ -19,9 +20,9 @@ pub enum Info {
     SyncSnapshot,
 }
 
-fn loop_status() {
+async fn loop_status() {
     loop {
-        sleep(Duration::from_secs(1));
+        sleep(Duration::from_secs(1)).await;
         match waitpid(None, Some(WaitPidFlag::WNOHANG)) {
             Ok(nix::sys::wait::WaitStatus::Exited(pid, _)) => {
                 STATUS.lock().remove(&pid).map_or_else(
-- 
2.43.0


From d1a99bbf2e67b5fff490decec839e7cb56c4888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 34/48] fix: a replica that keeps retrying its snapshot can
 still shut down

---
 component/db/src/pd_handle/replica.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 5e7c214..1edcf5e 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -53,13 +53,22 @@ impl Inner {
             .map_err(|_| "syncing")?;
         self.lock_slot(slot_id);
 
-        tokio::task::spawn_blocking(move || {
-            while let Err(e) = self.sync_snapshot_without_lock(slot_id) {
-                error!("sync_snapshot error: {:?}", e);
+        tokio::spawn(async move {
+            loop {
+                let inner = self.clone();
+                let res = tokio::task::spawn_blocking(move || {
+                    inner.sync_snapshot_without_lock(slot_id)
+                })
+                .await;
+                match res {
+                    Ok(Ok(())) => break,
+                    Ok(Err(e)) => error!("sync_snapshot error: {:?}", e),
+                    Err(e) => error!("sync_snapshot error: {:?}", e),
+                }
                 if self.leader.lock().is_none() {
                     break;
                 }
-                std::thread::sleep(Duration::from_secs(1));
+                tokio::time::sleep(Duration::from_secs(1)).await;
             }
             for l in &self.snapshot_lock {
                 l.store(false, std::sync::atomic::Ordering::Release);
-- 
2.43.0


From 54ee5d1a477e5e690073bbded25f9d0c324f403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 35/48] fix: SET with GET refuses to replace a value that is
 not a string instead of replacing it and replying an error

---
 component/db/src/lib.rs                 |  4 ++++
 component/db/src/slot.rs                |  5 ++++
 component/db/src/slot/replica_update.rs |  1 +
 component/dict/src/cmd/mod.rs           |  1 +
 component/dict/src/cmd/simple/set.rs    | 31 +++++++++++++++++++++++++
 component/server/src/cmd/base/set.rs    |  7 +++---
 6 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index caf9b76..2daeb50 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -128,6 +128,10 @@ impl Db {
         self.get_slot(&cmd.key).set(cmd)
     }
     #[inline]
+    pub fn set_get(&self, cmd: cmd::simple::set::GetReq) -> common::Result<DataType> {
+        self.get_slot(&cmd.0.key).set_get(cmd)
+    }
+    #[inline]
     pub fn del(&self, cmd: cmd::simple::del::Req) -> common::Result<Option<dict::Value>> {
         self.get_slot(&cmd.key).del(cmd)
     }
diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 300b598..daf6bbd 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -187,6 +187,11 @@ impl Slot {
         self.call_expires_write(cmd)
     }
 
+    #[inline]
+    pub fn set_get(&self, cmd: cmd::simple::set::GetReq) -> common::Result<DataType> {
+        self.call_expires_write(cmd)
+    }
+
     #[inline]
     pub fn del(&self, cmd: cmd::simple::del::Req) -> common::Result<Option<Value>> {
         self.call_expires_write(cmd)
diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index 23bdb53..3e31e41 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -29,6 +29,7 @@ impl Slot {
             cmd::WriteCmd::SortedSetRemoveByScoreRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByLexRange(req) => self.call_update(id, req),
             cmd::WriteCmd::None => Ordering::Equal,
+            cmd::WriteCmd::SetGet(req) => self.call_expires_update(id, req),
             cmd::WriteCmd::Restore(req) => self.call_expires_update(id, req.borrow()),
             cmd::WriteCmd::Flush => self.flush_update(id),
         }
diff --git a/component/dict/src/cmd/mod.rs b/component/dict/src/cmd/mod.rs
index 677c53a..e4a3321 100644
--- a/component/dict/src/cmd/mod.rs
+++ b/component/dict/src/cmd/mod.rs
@@ -84,4 +84,5 @@ pub enum WriteCmd {
     /// 清空 slot
     Flush,
     Restore(server::restore::OwnedReq),
+    SetGet(simple::set::GetReq),
 }
diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index ed424b7..4b3ec8a 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -22,6 +22,37 @@ impl From<Req> for WriteCmd {
     }
 }
 
+/// 带 GET 选项的 SET: 旧值不是字符串时返回错误, 不写入
+#[derive(Debug, Serialize, Deserialize, Clone)]
+pub struct GetReq(pub Req);
+
+impl From<GetReq> for WriteCmd {
+    #[inline]
+    fn from(req: GetReq) -> Self {
+        Self::SetGet(req)
+    }
+}
+
+impl<D: Dict> ExpiresOp<DataType, D> for GetReq {
+    #[tracing::instrument(skip(dict), level = "debug")]
+    fn apply(self, dict: &mut D) -> common::Result<ExpiresOpResp<DataType>> {
+        if let Some(old) = dict.get(&self.0.key) {
+            match &old.data {
+                DataType::Kvp(_)
+                | DataType::Deque(_)
+                | DataType::Set(_)
+                | DataType::SortedSet(_) => {
+                    return Err(
+                        "WRONGTYPE Operation against a key holding the wrong kind of value".into(),
+                    )
+                }
+                _ => (),
+            }
+        }
+        self.0.apply(dict)
+    }
+}
+
 impl<D: Dict> ExpiresOp<DataType, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<ExpiresOpResp<DataType>> {
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index cbcbcd7..7b010d4 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -31,7 +31,7 @@ impl Set {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply<'a>(self, db: &Db) -> common::Result<Frame<'a>> {
         let get = self.get;
-        let res = db.set(dict::cmd::simple::set::Req {
+        let req = dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
             expires_at: match self.expires {
@@ -47,10 +47,11 @@ impl Set {
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
             nx_xx: self.nx_xx,
-        })?;
+        };
         let response = if get {
-            data_type_to_frame(res)
+            data_type_to_frame(db.set_get(dict::cmd::simple::set::GetReq(req))?)
         } else {
+            let res = db.set(req)?;
             // async drop
             tokio::spawn(async { res });
             Frame::ok()
-- 
2.43.0


From c8ab0ce7731b97ed2e8b9dd81f82fab1377e8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 36/48] fix: a range of an empty list does not overflow

---
 component/dict/src/data_type/deque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/dict/src/data_type/deque.rs b/component/dict/src/data_type/deque.rs
index 11dc67b..8bc2a46 100644
--- a/component/dict/src/data_type/deque.rs
+++ b/component/dict/src/data_type/deque.rs
@@ -29,7 +29,7 @@ impl Deque {
         if stop < 0 {
             stop += len;
         }
-        if start >= len || stop < 0 || stop < start {
+        if start >= len || stop < 0 || stop < start || len == 0 {
             return (0, 0);
         }
         if start < 0 {
-- 
2.43.0


From e06e0dd07c4a8ff62106b05ed958159839a6aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 37/48] fix: a string that merely starts with digits is not an
 integer

---
 component/dict/src/data_type/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 893e199..c66b5fc 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -58,10 +58,12 @@ impl TryFrom<&DataType> for i64 {
     #[inline]
     fn try_from(value: &DataType) -> Result<Self, Self::Error> {
         let res = match value {
-            DataType::String(b) | DataType::Bytes(b) => atoi::atoi::<i64>(b)
-                .ok_or_else::<Self::Error, _>(|| {
-                    "value is not an integer or out of range".into()
-                })?,
+            DataType::String(b) | DataType::Bytes(b) => {
+                match atoi::FromRadix10SignedChecked::from_radix_10_signed_checked(b) {
+                    (Some(i), used) if used > 0 && used == b.len() => i,
+                    _ => return Err("value is not an integer or out of range".into()),
+                }
+            }
             DataType::Integer(i) => *i,
             _ => {
                 return Err(
-- 
2.43.0


From 992f18b1e9880a8ed4c7fe53badcdf781ce99a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 38/48] fix: a rank range of an empty sorted set does not
 overflow

---
 component/dict/src/cmd/sorted_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 4e6e660..b9b9196 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -37,7 +37,7 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     if stop < 0 {
         stop += len;
     }
-    if start >= len || stop < 0 || stop < start {
+    if start >= len || stop < 0 || stop < start || len == 0 {
         return (0, 0);
     }
     if start < 0 {
-- 
2.43.0


From 74234c149b9553a998454336c6b601ee21970dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:48 +0000
Subject: [PATCH 39/48] fix: a lone sign is not an integer

---
 component/dict/src/data_type/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index c66b5fc..def483f 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -58,12 +58,12 @@ impl TryFrom<&DataType> for i64 {
     #[inline]
     fn try_from(value: &DataType) -> Result<Self, Self::Error> {
         let res = match value {
-            DataType::String(b) | DataType::Bytes(b) => {
-                match atoi::FromRadix10SignedChecked::from_radix_10_signed_checked(b) {
-                    (Some(i), used) if used > 0 && used == b.len() => i,
-                    _ => return Err("value is not an integer or out of range".into()),
-                }
-            }
+            DataType::String(b) | DataType::Bytes(b) => std::str::from_utf8(b)
+                .ok()
+                .and_then(|s| s.parse().ok())
+                .ok_or_else::<Self::Error, _>(|| {
+                    "value is not an integer or out of range".into()
+                })?,
             DataType::Integer(i) => *i,
             _ => {
                 return Err(
-- 
2.43.0


From 137c9d7b6f9a8ed62a278dae1c38499751380a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 40/48] fix: a LIMIT with an extreme negative offset does not
 overflow

---
 component/dict/src/cmd/sorted_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index b9b9196..54f3ccb 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -18,7 +18,7 @@ pub(self) fn shape_limit(limit: Limit, len: usize) -> (usize, usize) {
     match limit {
         Limit::Limit(mut offset, count) => {
             if offset < 0 {
-                offset = 0.max(len as i64 - offset);
+                offset = 0.max((len as i64).saturating_sub(offset));
             }
             (
                 offset as usize,
-- 
2.43.0


From 8014a11110b051c7843638a3408b2315abaa42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 41/48] fix: a deeply nested RESTORE payload is an error
 instead of overflowing the stack

---
 component/dict/src/data_type/deque.rs |  1 +
 component/dict/src/data_type/kvp.rs   |  1 +
 component/dict/src/data_type/mod.rs   | 25 ++++++++++++++++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/data_type/deque.rs b/component/dict/src/data_type/deque.rs
index 8bc2a46..b8a7e51 100644
--- a/component/dict/src/data_type/deque.rs
+++ b/component/dict/src/data_type/deque.rs
@@ -9,6 +9,7 @@ use crate::data_type::DataType;
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Default)]
 pub struct Deque {
+    #[serde(deserialize_with = "super::deserialize_nested")]
     inner: VecDeque<DataType>,
 }
 
diff --git a/component/dict/src/data_type/kvp.rs b/component/dict/src/data_type/kvp.rs
index aa1e283..a07c2bc 100644
--- a/component/dict/src/data_type/kvp.rs
+++ b/component/dict/src/data_type/kvp.rs
@@ -9,6 +9,7 @@ use crate::data_type::DataType;
 /// key value pairs
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Default)]
 pub struct Kvp {
+    #[serde(deserialize_with = "super::deserialize_nested")]
     pub inner: HashMap<Box<[u8]>, DataType, ahash::RandomState>,
 }
 
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index def483f..fe830d4 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -2,7 +2,8 @@
 //!
 //! 类型主要分为两种，简单类型 和 集合类型
 
-use std::convert::TryFrom;
+use std::{cell::Cell, convert::TryFrom};
+
 mod deque;
 mod kvp;
 mod set;
@@ -13,6 +14,28 @@ use serde::{Deserialize, Serialize};
 
 pub use self::{deque::Deque, kvp::Kvp, set::Set, sorted_set::SortedSet};
 
+/// 集合中的元素最多嵌套的层数, 反序列化是递归的
+const MAX_NESTED_DEPTH: u32 = 16;
+
+thread_local! {
+    static NESTED_DEPTH: Cell<u32> = Cell::new(0);
+}
+
+fn deserialize_nested<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: Deserialize<'de>,
+{
+    let depth = NESTED_DEPTH.with(Cell::get);
+    if depth >= MAX_NESTED_DEPTH {
+        return Err(serde::de::Error::custom("value nested too deeply"));
+    }
+    NESTED_DEPTH.with(|d| d.set(depth + 1));
+    let res = T::deserialize(deserializer);
+    NESTED_DEPTH.with(|d| d.set(depth));
+    res
+}
+
 /// slot value 的类型
 #[derive(Debug, Clone, PartialEq, Eq, Deserialize, Serialize)]
 pub enum DataType {
-- 
2.43.0


From c272715e32429c9244df258e917270345b886f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:09 +0000
Subject: [PATCH 42/48] fix: a RESTORE payload with a NaN is an error instead
 of a panic

---
 component/common/src/float.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/component/common/src/float.rs b/component/common/src/float.rs
index dc25630..9f547b3 100644
--- a/component/common/src/float.rs
+++ b/component/common/src/float.rs
@@ -7,10 +7,21 @@ use serde::{Deserialize, Serialize};
 /// # Warnings
 ///
 /// NaN is not allowed.
-#[derive(Debug, PartialEq, Clone, Copy, Deserialize, Serialize)]
+#[derive(Debug, PartialEq, Clone, Copy, Serialize)]
 pub struct Float(pub f64);
 impl Eq for Float {}
 
+impl<'de> Deserialize<'de> for Float {
+    #[inline]
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let f = f64::deserialize(deserializer)?;
+        if f.is_nan() {
+            return Err(serde::de::Error::custom("NaN is not allowed"));
+        }
+        Ok(Self(f))
+    }
+}
+
 impl PartialOrd for Float {
     #[inline]
     #[allow(clippy::float_cmp)]
-- 
2.43.0


From 0f9c0c1e02e5d612d8287a6e1419420bfed86a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:49 +0000
Subject: [PATCH 43/48] fix: a server that never sent a heartbeat is not
 elected, it may have failed to start

---
 component/db/src/pd_handle/mod.rs | 4 ++--
 component/pd/src/status.rs        | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 509d2da..7debc28 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -45,7 +45,7 @@ impl PdHandle {
             ]))
             .await?;
         let status: ServerStatus = bincode::deserialize(self.read_bytes().await?)?;
-        let res = self.update_status(status);
+        self.update_status(status)?;
         tokio::spawn(async move {
             while let Err(e) = self.heartbeat().await {
                 error!("pd heartbeat error: {:?}", e);
@@ -56,7 +56,7 @@ impl PdHandle {
                 }
             }
         });
-        res
+        Ok(())
     }
 
     async fn read_bytes(&mut self) -> common::Result<&[u8]> {
diff --git a/component/pd/src/status.rs b/component/pd/src/status.rs
index 6d016ec..02bd53d 100644
--- a/component/pd/src/status.rs
+++ b/component/pd/src/status.rs
@@ -49,6 +49,8 @@ struct Server {
     forward_addr: SocketAddr,
     /// 加入时间
     join_time: u64,
+    /// 是否发送过心跳, 没有心跳的 server 可能启动失败了
+    started: bool,
 }
 
 pub fn create_group() {
@@ -82,6 +84,7 @@ pub fn server_init(data: &ServerInit) -> common::Result<ServerStatus> {
                     server_addr: data.server_addr,
                     forward_addr: data.forward_addr,
                     join_time: now,
+                    started: false,
                 };
                 if ServerRole::Leader == role {
                     g.leader = Some(LeaderInfo {
@@ -122,6 +125,7 @@ impl Status {
         if let Some(g) = self.groups.iter_mut().find(|t| t.id == group_id) {
             if let Some(s) = g.servers.iter_mut().find(|t| t.id == server_id) {
                 s.latest_heartbeat = now_ms();
+                s.started = true;
                 return Some(ServerStatus {
                     server_id: s.id,
                     group_id: g.id,
@@ -167,7 +171,10 @@ pub async fn server_survival_check() {
                 let mut leader: Option<&mut Server> = None;
                 for s in &mut g.servers {
                     // alive follower
-                    if now <= ts + s.latest_heartbeat && s.role == ServerRole::Follower {
+                    if s.started
+                        && now <= ts + s.latest_heartbeat
+                        && s.role == ServerRole::Follower
+                    {
                         match leader {
                             Some(l) if s.join_time < l.join_time => leader = Some(s),
                             None => leader = Some(s),
-- 
2.43.0


From 83faeba2d106ef561f05ea2688a7d42d45382fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 44/48] fix: a follower does not serve subscriptions, a replica
 that missed a change of leader would copy it

---
 component/db/src/forward/connection.rs | 14 ++++++++++++--
 component/db/src/forward/mod.rs        | 14 +++++++++-----
 component/db/src/lib.rs                |  7 +++++--
 component/db/src/pd_handle/replica.rs  |  8 ++++++++
 4 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/component/db/src/forward/connection.rs b/component/db/src/forward/connection.rs
index 74dfed3..537998c 100644
--- a/component/db/src/forward/connection.rs
+++ b/component/db/src/forward/connection.rs
@@ -1,4 +1,10 @@
-use std::{sync::Arc, time::Duration};
+use std::{
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Arc,
+    },
+    time::Duration,
+};
 
 use common::{config::CONFIG, SYNC_CMD_PING};
 use parking_lot::Mutex;
@@ -15,7 +21,7 @@ use super::Message;
 pub struct ForwardConnections(Arc<Mutex<Vec<flume::Sender<super::Message>>>>);
 
 impl ForwardConnections {
-    pub async fn new() -> common::Result<Self> {
+    pub async fn new(is_follower: Arc<AtomicBool>) -> common::Result<Self> {
         let fc = Self(Arc::new(Mutex::new(vec![])));
         let res = fc.clone();
         let mut listener = Listener::new(TcpListener::bind(CONFIG.forward_addr).await?);
@@ -28,6 +34,10 @@ impl ForwardConnections {
                         continue;
                     }
                 };
+                if is_follower.load(Ordering::Acquire) {
+                    warn!("refuse to forward, not the leader");
+                    continue;
+                }
                 let fc = fc.clone();
                 tokio::spawn(async move {
                     let (tx, rx) = flume::unbounded();
diff --git a/component/db/src/forward/mod.rs b/component/db/src/forward/mod.rs
index b0cb51e..3649040 100644
--- a/component/db/src/forward/mod.rs
+++ b/component/db/src/forward/mod.rs
@@ -1,6 +1,9 @@
 mod connection;
 
-use std::process::exit;
+use std::{
+    process::exit,
+    sync::{atomic::AtomicBool, Arc},
+};
 
 use tracing::error;
 
@@ -21,12 +24,13 @@ impl Forward {
         Self { tx, rx }
     }
 
-    pub fn listen(self) {
-        tokio::spawn(self.run());
+    /// `is_follower`: 这时候不接受订阅
+    pub fn listen(self, is_follower: Arc<AtomicBool>) {
+        tokio::spawn(self.run(is_follower));
     }
 
-    async fn run(self) {
-        let forward_connection = match ForwardConnections::new().await {
+    async fn run(self, is_follower: Arc<AtomicBool>) {
+        let forward_connection = match ForwardConnections::new(is_follower).await {
             Ok(f) => f,
             Err(e) => {
                 error!("ForwardConnections new error: {:?}", e);
diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index 2daeb50..159a53e 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -7,7 +7,7 @@ mod slot;
 use std::{
     collections::{BTreeSet, HashMap, HashSet},
     process::exit,
-    sync::Arc,
+    sync::{atomic::AtomicBool, Arc},
 };
 
 use common::{config::CONFIG, SLOT_SIZE};
@@ -34,6 +34,8 @@ pub struct BgTask {
 pub struct Db {
     pub slots: Vec<Slot>,
     pub expiration_data: Arc<Mutex<BTreeSet<expire::Entry>>>,
+    /// follower 不接受订阅
+    is_follower: Arc<AtomicBool>,
 }
 
 // <https://redis.io/topics/cluster-spec
@@ -58,6 +60,7 @@ impl Db {
         let db = Arc::new(Self {
             slots,
             expiration_data: expiration_data.clone(),
+            is_follower: Arc::default(),
         });
 
         if let Some(pd) = CONFIG.from_pd {
@@ -67,7 +70,7 @@ impl Db {
             };
         }
         Expiration::init(expire_rx, db.clone(), expiration_data);
-        forward.listen();
+        forward.listen(db.is_follower.clone());
         db
     }
 
diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 1edcf5e..43ae494 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -207,11 +207,19 @@ impl Task {
 
     pub fn update_leader(&self, leader: Option<LeaderInfo>) {
         *self.inner.leader.lock() = leader;
+        self.inner
+            .db
+            .is_follower
+            .store(true, std::sync::atomic::Ordering::Release);
     }
 
     pub fn close_sync_cmd(&self) {
         *self.inner.leader.lock() = None;
         self.inner.cmd_rx.store(None);
+        self.inner
+            .db
+            .is_follower
+            .store(false, std::sync::atomic::Ordering::Release);
     }
     pub fn sync(&self) -> common::Result<()> {
         self.inner.clone().sync(None)
-- 
2.43.0


From d98c3fcc92710445d7f7c36238f2ecba66c3e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:26 +0000
Subject: [PATCH 45/48] fix: deregister the stream from epoll before the fork

---
 component/server/src/cmd/syncsnapshot.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 9a2f7b0..19be1f1 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -4,7 +4,6 @@ use common::SLOT_SIZE;
 use db::child_process;
 use macros::ParseFrames;
 use nix::unistd::ForkResult;
-use tokio::net::TcpStream;
 use tracing::{error, info};
 
 use crate::Handler;
@@ -38,6 +37,15 @@ impl SyncSnapshot {
             )]
         };
 
+        // 子进程和父进程共用 epoll, 父进程会先取消注册, 所以 fork 之前就要转换
+        let mut stream = match handler.connection.stream.into_std() {
+            Ok(s) => s,
+            Err(e) => {
+                error!("into_std: {:?}", e);
+                return;
+            }
+        };
+
         match unsafe { nix::unistd::fork() } {
             Ok(ForkResult::Parent { child }) => {
                 info!(
@@ -52,8 +60,7 @@ impl SyncSnapshot {
                 // of the parent process, e.g. fd(socket or flock) etc.
                 // should close the resources not used by the child process, so that if the
                 // parent restarts it can bind/lock despite the child possibly still running.
-                let run = |stream: TcpStream| -> common::Result<()> {
-                    let mut stream = stream.into_std()?;
+                let mut run = || -> common::Result<()> {
                     // a snapshot larger than the send buffer has to wait for the receiver
                     stream.set_nonblocking(false)?;
                     for (id, s) in slots {
@@ -66,7 +73,7 @@ impl SyncSnapshot {
                     bincode::serialize_into(&mut stream, &end)?;
                     Ok(())
                 };
-                match run(handler.connection.stream) {
+                match run() {
                     Ok(_) => {}
                     Err(e) => error!("send snapshot error: {:?}", e),
                 }
-- 
2.43.0


From db9a4f3a546d6ad9b42b25ac26a3c81c14f1ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:06 +0000
Subject: [PATCH 46/48] fix: refuse an unknown argument after the optional ones

---
 component/macros/src/parse_frames.rs        |  8 ++++++
 component/server/src/cmd/others/flushall.rs | 29 ++++++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 6d5dd9b..cedda68 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -317,6 +317,14 @@ pub fn do_derive(ast: &DeriveInput) -> proc_macro2::TokenStream {
         has_next = false;
     }
     read_token.push(parse_optional_fields(&optional_fields));
+    if !optional_fields.is_empty() {
+        // `next` is none of the optional fields, and nothing else takes it
+        read_token.push(quote! {
+            if next.is_ok() {
+                return Err("protocol error; expected end of frame, but there was more".into());
+            }
+        });
+    }
     let self_token = utils::derive_get_struct_fields(ast)
         .unwrap()
         .iter()
diff --git a/component/server/src/cmd/others/flushall.rs b/component/server/src/cmd/others/flushall.rs
index e9c5401..9d40297 100644
--- a/component/server/src/cmd/others/flushall.rs
+++ b/component/server/src/cmd/others/flushall.rs
@@ -1,19 +1,42 @@
 use std::sync::Arc;
 
-use common::connection::parse::frame::Frame;
+use common::connection::parse::{frame::Frame, Parse};
 use db::Db;
 use macros::ParseFrames;
 
 /// <https://redis.io/commands/flushall>
 #[derive(Debug, ParseFrames)]
 pub struct Flushall {
-    pub sync: bool,
+    #[optional]
+    pub mode: Mode,
+}
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Mode {
+    Sync,
+    Async,
+}
+
+impl Mode {
+    pub fn parse_frames(tag: &str, _parse: &Parse) -> common::Result<Option<Self>> {
+        Ok(match tag {
+            "sync" => Some(Self::Sync),
+            "async" => Some(Self::Async),
+            _ => None,
+        })
+    }
+}
+
+impl Default for Mode {
+    fn default() -> Self {
+        Self::Async
+    }
 }
 
 impl Flushall {
     #[tracing::instrument(skip(db))]
     pub fn apply(self, db: Arc<Db>) -> Frame<'static> {
-        db.flushall(self.sync);
+        db.flushall(self.mode == Mode::Sync);
         Frame::ok()
     }
 }
-- 
2.43.0


From 3d3c548df31bce2b532f4bcee862cf5aa5d9bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:15 +0000
Subject: [PATCH 47/48] fix: a length or integer that is not a number is
 refused, not read as 0 or by its first digits

---
 .../common/src/connection/parse/frame.rs      | 20 +++++++++----------
 component/common/src/connection/parse/mod.rs  |  4 +---
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 128be16..865b6d9 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -6,7 +6,7 @@ use std::{convert::TryFrom, fmt, vec};
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_while, take_while1, take_while_m_n},
-    combinator::map,
+    combinator::map_opt,
     sequence::delimited,
 };
 
@@ -102,13 +102,17 @@ fn parse_error(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     Ok((i, Frame::Error(resp)))
 }
 
+/// a number takes up the whole of its place
+#[inline]
+pub(super) fn number(int: &[u8]) -> Option<i64> {
+    std::str::from_utf8(int).ok()?.parse().ok()
+}
+
 #[inline]
 fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, int) = delimited(
         tag(":"),
-        map(take_while1(|c| c != b'\r' && c != b'\n'), |int: &[u8]| {
-            atoi::atoi::<i64>(int).unwrap_or(0)
-        }),
+        map_opt(take_while1(|c| c != b'\r' && c != b'\n'), number),
         tag(b"\r\n"),
     )(i)?;
     Ok((i, Frame::Integer(int)))
@@ -117,9 +121,7 @@ fn parse_int(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("$")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), number)(i)?;
     let (i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
@@ -134,9 +136,7 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 #[inline]
 fn parse_array(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
-    let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
-        atoi::atoi::<i64>(int).unwrap_or(0)
-    })(i)?;
+    let (i, len) = map_opt(take_while1(|c| c != b'\r' && c != b'\n'), number)(i)?;
     let (mut i, _) = tag(b"\r\n")(i)?;
     if len < 0 {
         Ok((i, Frame::Null))
diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index 011a946..41b69d1 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -147,8 +147,6 @@ impl<'a> Parse<'a> {
     /// returned.
     #[inline]
     pub fn next_int(&self) -> Result<i64, ParseError> {
-        use atoi::atoi;
-
         const INVALID: &str = "protocol error; invalid number";
 
         match self.next_frame()? {
@@ -157,7 +155,7 @@ impl<'a> Parse<'a> {
             // Simple and bulk frames must be parsed as integers. If the parsing
             // fails, an error is returned.
             Frame::Bulk(data) | Frame::Simple(data) => {
-                atoi::<i64>(data).map_or_else(|| Err(INVALID.into()), Ok)
+                frame::number(data).ok_or_else(|| INVALID.into())
             }
             frame => Err(format!("protocol error; expected int frame but got {:?}", frame).into()),
         }
-- 
2.43.0


From 28070a11b78fbebc7ccfa43865ae18397f6f0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:17 +0000
Subject: [PATCH 48/48] fix: the purge of expired keys judges by the current
 clock, not by the one read before a backward step

---
 component/db/src/expire.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index 80e06fc..a7d24f9 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -126,11 +126,12 @@ impl Expiration {
     }
 
     fn purge_expired_keys(data: &Mutex<BTreeSet<Entry>>, db: &Db) -> u64 {
-        let now = now_timestamp_ms();
         loop {
             // 减少持有锁的时间
             let entry = {
                 let mut btree_lock = data.lock();
+                // 每次都取当前时间, 时钟可能被往回调
+                let now = now_timestamp_ms();
                 // fixme: 等 #![feature(map_first_last)] stable 可以替换
                 let entry = match btree_lock.iter().next() {
                     Some(e) => e.clone(),
-- 
2.43.0

