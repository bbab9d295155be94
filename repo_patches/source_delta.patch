From 2c057f9a77e4678278efdd9e5c134748bf21d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 01/86] fix: abe '+' and '-' on empty operands no longer
 underflow and panic

---
 crates/abe/src/scope/uint.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..2dacff5 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,30 +16,20 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
-- 
2.43.0


From c2f4d1be8287d8a07dcb8c0a340fc7620d24bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 02/86] fix: abe 'replace' with an empty pattern no longer
 loops forever

---
 crates/abe/src/scope/bytes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..1038edd 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -125,6 +125,9 @@ impl EvalScopeImpl for BytesFE {
     }
 }
 fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
+    if from.is_empty() {
+        return b.to_vec();
+    }
     let mut r = Vec::with_capacity(b.len());
     while let Some((h, rest)) = b.split_first() {
         match b.strip_prefix(from) {
-- 
2.43.0


From 352e39868bc7ccf0388827b4e39738c86598c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 03/86] fix: abe 'slice' no longer wraps or panics on huge
 bounds and steps

---
 crates/abe/src/scope/bytes.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 1038edd..6e255ae 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -180,15 +180,10 @@ pub fn slice<'o, F>(
     let (sb, eb) = if step >= 0 { (0, len) } else { (len - 1, -1) };
 
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
-        match v {
-            Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
-            }
-            Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
-            }
-            None => None,
-        }
+        let SignedInt { neg, val } = v?;
+        let val = isize::try_from(val).unwrap_or(isize::MAX);
+        let pos = if neg { len - val } else { val };
+        Some(pos.clamp(sb.min(eb), sb.max(eb)))
     };
     let mut i = to_bound(start).unwrap_or(sb);
     let end = to_bound(end).unwrap_or(eb);
@@ -199,7 +194,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From 004986366dcf4eab3b8fd99c17e978207c7129e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 04/86] fix: abe b2/b16 encoders only encode bytes which
 evaluate back to themselves

---
 crates/abe/src/scope/base.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/abe/src/scope/base.rs b/crates/abe/src/scope/base.rs
index 88ba3a4..b36a60e 100644
--- a/crates/abe/src/scope/base.rs
+++ b/crates/abe/src/scope/base.rs
@@ -31,6 +31,15 @@ fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
     if !len_set.is_empty() && !len_set.contains(&bytes.len()) {
         return ApplyResult::NoValue;
     }
+    // [b2:..] and [b16:..] evaluate to the shortest big endian bytes of a number up to 128 bits
+    let invertible = match bytes {
+        [_] => true,
+        [head, ..] => *head != 0 && bytes.len() <= 16,
+        [] => false,
+    };
+    if !invertible {
+        return ApplyResult::NoValue;
+    }
     use std::fmt::Write;
     match radix {
         2 => {
-- 
2.43.0


From f4e0984a7d47057280bcf050705e5acec876d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 05/86] fix: byte-fmt AB::to_abe no longer escapes its bytes
 twice

---
 crates/byte-fmt/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..d561d86 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,10 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes  }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 046cb69ef25c957f8e457f6b003cc546fc9aaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 06/86] fix: abconf lookups count the components of an entry
 instead of its delimiters

---
 crates/abe/src/abconf.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..5ded3de 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -25,6 +25,13 @@ pub fn parse_ablist_b(st: &[u8]) -> anyhow::Result<crate::eval::ABList> {
         .map_err(|e| anyhow::anyhow!("expr not supported - {e}"))
 }
 
+/// Number of entries in `lst` taken up by its first `n` logical components (see [ABList::iter_bytes]).
+/// A list starting with a delimiter has an empty first component without an entry.
+fn prefix_len(lst: &ABList, n: usize) -> usize {
+    let implicit_head = matches!(lst.first(), Some((Some(_), _)));
+    n.saturating_sub(implicit_head as usize)
+}
+
 impl ABConf {
     pub const DEFAULT: Self = ABConf(vec![]);
 
@@ -57,7 +64,7 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
+            Ok(lst) => match &lst[prefix_len(lst, starts_with.len())..] {
                 [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
                 [] => Some(Ok(None)),
                 _ => Some(Err(lst)),
@@ -72,7 +79,7 @@ impl ABConf {
     ) -> impl Iterator<Item = Result<&'a ABList, &'a ABList>> + 'b {
         self.get_inner(starts_with).map(|o| {
             if o.iter()
-                .take(starts_with.len())
+                .take(prefix_len(o, starts_with.len()))
                 .all(|c| matches!(c.0, None | Some(Ctr::Colon)))
             {
                 Ok(o)
@@ -86,7 +93,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.len() < prefix_len(a, starts_with.len()) {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From 1583b5348fb2284ee76567f24159e85ab54bc309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 07/86] fix: abconf text ending in a newline has no extra empty
 entry

---
 crates/abe/src/abconf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 5ded3de..44d0bd6 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -108,7 +108,8 @@ impl ABConf {
             inp = r.strip_prefix(b"abctxt\n").context("unknown conf format")?;
         }
         let mut abc: Vec<_> = inp
-            .split(|c| *c == b'\n')
+            .split_inclusive(|c| *c == b'\n')
+            .map(|v| v.strip_suffix(b"\n").unwrap_or(v))
             .map(|v| parse_ablist_b(v).map_err(|v| anyhow::anyhow!("data contains expr {v:?}")))
             .try_collect()?;
         abc.reverse();
-- 
2.43.0


From 1067904a98cf9b5fc310f9b5b0e75c7151731f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 08/86] fix: argon2-identity refuses keys with extra segments
 or options

---
 crates/argon2-identity/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/argon2-identity/src/lib.rs b/crates/argon2-identity/src/lib.rs
index 04cbb3e..2d7c9eb 100644
--- a/crates/argon2-identity/src/lib.rs
+++ b/crates/argon2-identity/src/lib.rs
@@ -54,13 +54,18 @@ mod params {
             .ok()?
             .try_into()
             .ok()?;
-        let mut opt_it = options
-            .split(',')
-            .filter_map(|st| st.split_once('='))
-            .zip(["m", "t", "p"])
-            .filter(|((kind, _val), expect)| (kind == expect))
-            .filter_map(|((_, val), _)| val.parse::<u32>().ok());
-        let (mem, time, parallelism) = (opt_it.next()?, opt_it.next()?, opt_it.next()?);
+        if items_it.next().is_some() {
+            return None;
+        }
+        let mut opt_it = options.split(',');
+        let mut opt = |kind: &str| -> Option<u32> {
+            let (k, val) = opt_it.next()?.split_once('=')?;
+            if k != kind {
+                return None;
+            }
+            val.parse().ok()
+        };
+        let (mem, time, parallelism) = (opt("m")?, opt("t")?, opt("p")?);
         if opt_it.next().is_some() {
             return None;
         }
-- 
2.43.0


From 960c3a29c29cd25549e6b55d4f39fc4dc2ad6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 09/86] fix: ipcbus returns an error instead of sharing a port
 once all are taken

---
 crates/ipcbus/src/udp_procbus.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..08682a4 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -44,7 +44,9 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
         };
     }
     bytes.extend(bus_id.to_ne_bytes());
-    new_port = new_port.saturating_add(1);
+    new_port = new_port
+        .checked_add(1)
+        .ok_or_else(|| std::io::Error::other("no free port left in procbus.map"))?;
     bytes.extend(new_port.to_ne_bytes());
     std::fs::write(&path, bytes).unwrap();
     lockfile.unlock().unwrap();
-- 
2.43.0


From 9434fdc08c244197120ba7c2dddbab42cee7419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 10/86] fix: ipcbus listener ignores malformed datagrams
 instead of panicking

---
 crates/ipcbus/src/udp_procbus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 08682a4..be1dd97 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -128,6 +128,10 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                if b.len() != 20 {
+                    tracing::warn!(len = b.len(), "Ignoring malformed datagram");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From 740a6ccf281229dd462b43186f5de3d58c1198a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 11/86] fix: ipcbus port registry survives a failed or torn
 write

---
 crates/ipcbus/src/udp_procbus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index be1dd97..c7c819a 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -43,12 +43,15 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
             return Ok(saved_port);
         };
     }
+    bytes.truncate(bytes.len() / 10 * 10);
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port
         .checked_add(1)
         .ok_or_else(|| std::io::Error::other("no free port left in procbus.map"))?;
     bytes.extend(new_port.to_ne_bytes());
-    std::fs::write(&path, bytes).unwrap();
+    // replace the file in one step so that a failed write can not lose earlier entries
+    let tmp = std::env::temp_dir().join("procbus.map.tmp");
+    std::fs::write(&tmp, bytes).and_then(|_| std::fs::rename(&tmp, &path))?;
     lockfile.unlock().unwrap();
     Ok(new_port)
 }
-- 
2.43.0


From d536504da721bbe2337c25fdaeb2969195bb8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 12/86] fix: abe ABList::pop_front on an empty list returns
 None instead of panicking

---
 crates/abe/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..837be34 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,7 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        (!self.0.is_empty()).then(|| self.0.remove(0))
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From 2db5f9128ca0c4f3056d7aa076380848cb82f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 13/86] fix: refuse a point header whose size is smaller than
 the header itself

---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..cf66618 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -67,6 +67,9 @@ impl PointHeader {
         if self.reserved != 0 {
             return Err(Error::HeaderReservedSet(self.reserved));
         }
+        if (self.upoint_size() as usize) < size_of::<PointHeader>() {
+            return Err(Error::ContentLen);
+        }
         let len = self.ucontent_size() as usize;
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
-- 
2.43.0


From 90590b14e9f359b873ca9d777511130841ff25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 14/86] fix: report an invalid space in a received packet
 instead of panicking

---
 crates/pkt/src/point_ptr.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..0914fab 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -254,7 +254,6 @@ impl PointThinPtr {
         let isp_bytes = core::slice::from_ptr_range(ptr.add(is_offset)..ptr.add(data_offset));
         let data = core::slice::from_ptr_range(ptr.add(data_offset)..ptr.add(size.into()));
         let rspace = RootedSpace::from_unchecked(isp_bytes);
-        debug_assert!(rspace.check_components().is_ok(), "{rspace:?}");
         Tail {
             rspace,
             data,
-- 
2.43.0


From 8a36c69d1bf3a9df118d58ca1b0ead48732efaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 15/86] fix: check the depth of a rooted space with all
 components in use

---
 crates/pkt/src/rooted_space.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..4d017c4 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,9 @@ impl RootedSpace {
             }
             i += 1;
         }
+        if len != 8 {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 34b520429d855300249f9fb245d57a7ce6237461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 16/86] fix: bound the range of the 'si' function by the space
 depth

---
 crates/pkt/src/space_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index 3784f2c..c0851e4 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -316,8 +316,8 @@ impl EvalScopeImpl for SpaceFE {
                 .get(2)
                 .map(|i| parse_b::<usize>(i))
                 .transpose()?
-                .unwrap_or(start + 1)
-                .max(9);
+                .unwrap_or(start.saturating_add(1))
+                .min(8);
             ensure!(start <= 8, "space max depth is 8");
             ensure!(end >= start, "end < start");
             Ok(start..end)
-- 
2.43.0


From 93e38c3980225f8bc7a93b4e1457b2a5b2d9caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 17/86] fix: count the link point header in the space left in a
 key point

---
 crates/pkt/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/consts.rs b/crates/pkt/src/consts.rs
index 278179c..dd6940c 100644
--- a/crates/pkt/src/consts.rs
+++ b/crates/pkt/src/consts.rs
@@ -17,7 +17,7 @@ pub const MAX_CONTENT_SIZE: usize = MAX_POINT_SIZE - size_of::<PointHeader>();
 
 pub const MAX_DATA_SIZE: usize = MAX_CONTENT_SIZE;
 pub const MAX_LINKPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<LinkPointHeader>();
-pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<Signed>();
+pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_LINKPOINT_DATA_SIZE - size_of::<Signed>();
 pub const MAX_LINKS_LEN: usize = (MAX_POINT_SIZE - MAX_SPACENAME_SIZE) / size_of::<Link>();
 pub const MAX_SPACENAME_SIZE: usize = 242;
 pub const MAX_ROOTED_SPACENAME_SIZE: usize = MAX_SPACENAME_SIZE + 8;
-- 
2.43.0


From dcabaee50b1d042fd25fac9ede9df9d81cb57d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 18/86] fix: give a rerouted key point, or a packet rerouted
 twice, enough byte segments

---
 crates/pkt/src/byte_segments.rs  | 20 ++++++++++++--------
 crates/pkt/src/netpkt/reroute.rs |  7 ++++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/pkt/src/byte_segments.rs b/crates/pkt/src/byte_segments.rs
index fb5fa7b..232919c 100644
--- a/crates/pkt/src/byte_segments.rs
+++ b/crates/pkt/src/byte_segments.rs
@@ -6,7 +6,7 @@
 Utility to create packets from multiple byte slices without allocating.
 **/
 #[derive(Clone, Debug)]
-pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 8]);
+pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 9]);
 
 impl<'a> ExactSizeIterator for ByteSegments<'a> {
     #[inline(always)]
@@ -16,7 +16,7 @@ impl<'a> ExactSizeIterator for ByteSegments<'a> {
     }
     #[inline]
     fn is_empty(&self) -> bool {
-        self.0 == [&[] as &[u8]; 8]
+        self.0 == [&[] as &[u8]; 9]
     }
 }
 
@@ -62,6 +62,10 @@ impl<'a> Iterator for ByteSegments<'a> {
             self.0[7] = tail;
             return Some(*h);
         }
+        if let Some((h, tail)) = self.0[8].split_first() {
+            self.0[8] = tail;
+            return Some(*h);
+        }
         None
     }
 }
@@ -79,7 +83,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const fn from_array<const N: usize>(segments: [&'a [u8]; N]) -> Self {
         assert!(N < 8, "not supported");
-        let mut r: [&'a [u8]; 8] = [&[]; 8];
+        let mut r: [&'a [u8]; 9] = [&[]; 9];
         let mut i = 0;
         while i < N {
             r[i] = segments[i];
@@ -95,12 +99,12 @@ impl<'a> ByteSegments<'a> {
     #[must_use]
     #[inline(always)]
     pub(crate) fn push_front(self, head: &'a [u8]) -> Self {
-        let [a, b, c, d, e, f, g, h] = self.0;
+        let [a, b, c, d, e, f, g, h, i] = self.0;
         debug_assert!(
-            h.is_empty(),
+            i.is_empty(),
             "segmented packet construction stacked to deep"
         );
-        ByteSegments([head, a, b, c, d, e, f, g])
+        ByteSegments([head, a, b, c, d, e, f, g, h])
     }
     #[inline]
     pub fn to_bytes(self) -> Box<[u8]> {
@@ -113,7 +117,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const unsafe fn write_segments_unchecked(self, mut dest: *mut u8) -> *mut u8 {
         let mut i = 0;
-        while i < 8 {
+        while i < 9 {
             let len = self.0[i].len();
             if len > 0 {
                 core::ptr::copy_nonoverlapping(self.0[i].as_ptr(), dest, len);
@@ -124,7 +128,7 @@ impl<'a> ByteSegments<'a> {
         dest
     }
     #[inline(always)]
-    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 8] {
+    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 9] {
         self.0.map(std::io::IoSlice::new)
     }
     #[inline(always)]
diff --git a/crates/pkt/src/netpkt/reroute.rs b/crates/pkt/src/netpkt/reroute.rs
index 7fb3d30..2c91ea5 100644
--- a/crates/pkt/src/netpkt/reroute.rs
+++ b/crates/pkt/src/netpkt/reroute.rs
@@ -44,7 +44,12 @@ impl<T: NetPkt + ?Sized> NetPkt for ReroutePkt<T> {
     }
     fn byte_segments(&self) -> ByteSegments {
         let mut segm = self.pkt.byte_segments();
-        segm.0[0] = &segm.0[0][size_of::<NetPktHeader>()..];
+        let rest = &segm.0[0][size_of::<NetPktHeader>()..];
+        if rest.is_empty() {
+            segm.0[0] = self.net_header.as_bytes();
+            return segm;
+        }
+        segm.0[0] = rest;
         segm.push_front(self.net_header.as_bytes())
     }
     fn as_netbox(&self) -> crate::NetPktBox {
-- 
2.43.0


From cf905d8a5d4ebdf8481d18cad7a677bcaed035a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 19/86] fix: hold every way of building a space to its limit of
 8 components

---
 crates/pkt/src/space.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..75f2e8f 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -252,6 +252,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() + p.iter().count() > MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(0..0, p.inner_bytes.iter().cloned());
         Ok(self)
     }
@@ -265,6 +268,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.push(component.len().try_into().unwrap());
         self.inner_bytes.extend_from_slice(component);
         Ok(self)
@@ -283,6 +289,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(
             0..0,
             [component.len().try_into().unwrap()]
@@ -333,6 +342,7 @@ impl Space {
             }
         }
     }
+    #[allow(clippy::as_conversions)]
     pub const fn check_components(&self) -> Result<u8, SpaceError> {
         match self.checked_iter() {
             Err(e) => Err(e),
@@ -344,6 +354,9 @@ impl Space {
                         Err(e) => return Err(e),
                     }
                     i += 1;
+                    if i as usize > MAX_SPACE_DEPTH {
+                        return Err(SpaceError::MaxDepth);
+                    }
                 }
                 Ok(i)
             }
@@ -712,6 +725,9 @@ impl Space {
                 count += 1;
             }
         }
+        if it.next().transpose()?.is_some() {
+            return Err(SpaceError::MaxDepth);
+        }
         data[0] = count;
         let v = RootedSpaceBuf::from_unchecked(data);
         debug_assert!(
-- 
2.43.0


From 7908c80780bcd638231fe70060bd7d6b1dc9461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 20/86] fix: terminate the entities of escaped html

---
 crates/pkt/src/repr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/pkt/src/repr.rs b/crates/pkt/src/repr.rs
index 4cd479b..99ee5f1 100644
--- a/crates/pkt/src/repr.rs
+++ b/crates/pkt/src/repr.rs
@@ -223,9 +223,9 @@ impl<X: Display> Display for EscapeHTML<X> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         for ch in self.0.to_string().chars() {
             match ch {
-                '&' => f.write_str("&amp")?,
-                '<' => f.write_str("&lt")?,
-                '>' => f.write_str("&gt")?,
+                '&' => f.write_str("&amp;")?,
+                '<' => f.write_str("&lt;")?,
+                '>' => f.write_str("&gt;")?,
                 o => write!(f, "{o}")?,
             }
         }
-- 
2.43.0


From 08b79f0266acab99ee0fe234cfcd208fe7617cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 21/86] fix: conflicting bit masks make an empty set instead of
 a panic

---
 crates/core/src/predicate/value_test.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index fc73bfe..d1c6438 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -352,6 +352,9 @@ impl<U: UInt> Mask<U> {
     }
 
     pub fn in_set(&self, val: U) -> Option<U> {
+        if !self.has_any() {
+            return None;
+        }
         let (overflow, v) = self.overflowing_in_set(val);
         if overflow {
             None
-- 
2.43.0


From e308040948a1a3a03ef88f246d313c3b384ea72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 22/86] fix: implement checked_sub for native integers

---
 crates/core/src/predicate/uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/predicate/uint.rs b/crates/core/src/predicate/uint.rs
index 1b7572e..00a2510 100644
--- a/crates/core/src/predicate/uint.rs
+++ b/crates/core/src/predicate/uint.rs
@@ -75,8 +75,8 @@ macro_rules! impl_native_uint {
             fn checked_add(self, other: Self) -> Option<Self> {
                 self.checked_add(other)
             }
-            fn checked_sub(self, _other: Self) -> Option<Self> {
-                todo!()
+            fn checked_sub(self, other: Self) -> Option<Self> {
+                self.checked_sub(other)
             }
 
             fn inc(self) -> Option<Self> {
-- 
2.43.0


From 1efe0295c57a57744489a3202b9d1a8f6c443a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 23/86] fix: Bound::try_combine refuses disjoint bounds in
 either order

---
 crates/core/src/predicate/value_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index d1c6438..9d980df 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -657,7 +657,7 @@ impl<U: UInt> TestSet<U> {
 impl<U: UInt> Bound<U> {
     pub fn try_combine(self, other: Self) -> anyhow::Result<Self> {
         anyhow::ensure!(self.high >= other.low);
-        anyhow::ensure!(other.low <= self.high);
+        anyhow::ensure!(self.low <= other.high);
         Ok(Bound {
             high: self.high.min(other.high),
             low: self.low.max(other.low),
-- 
2.43.0


From a77fc83e71fcf885f89e77e14af12a2ffc68b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 24/86] fix: StampRange::asc_from includes its start

---
 crates/core/src/stamp_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_range.rs b/crates/core/src/stamp_range.rs
index 2acf6c6..a991b3c 100644
--- a/crates/core/src/stamp_range.rs
+++ b/crates/core/src/stamp_range.rs
@@ -44,7 +44,7 @@ impl StampRange {
     /// Ascending range include start
     pub const fn asc_from(start: Stamp) -> StampRange {
         StampRange {
-            start: start.get() + 1,
+            start: start.get(),
             end: u64::MAX,
         }
     }
-- 
2.43.0


From 27078acf5834b281eaeac9705083e3ece0865bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 25/86] fix: comparisons with >= and <= shift a number of the
 width of its field

---
 crates/core/src/predicate/exprs.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/predicate/exprs.rs b/crates/core/src/predicate/exprs.rs
index f6f2992..120434f 100644
--- a/crates/core/src/predicate/exprs.rs
+++ b/crates/core/src/predicate/exprs.rs
@@ -101,14 +101,24 @@ impl From<Predicate> for ExtPredicate {
     }
 }
 
+/// Make a number operand as wide as its field, such that the bytes of its neighbour are well defined.
+fn pad_number(kind: RuleType, val: &mut ABList) -> Option<()> {
+    let size = kind.fixed_size()?;
+    let bytes = val.as_exact_bytes().ok()?;
+    let missing = match kind {
+        RuleType::Field(FieldEnum::DomainF) => size.checked_sub(bytes.len())?,
+        _ => (bytes.len() == size).then_some(0)?,
+    };
+    *val = [&vec![0; missing], bytes].concat().into();
+    Some(())
+}
+
 impl ExtPredicate {
     pub fn try_iter(self) -> Result<impl Iterator<Item = Predicate>, TestEvalErr> {
         let ExtPredicate { kind, op, mut val } = self;
         let once_op: Option<TestOp> = match op {
             ExtendedTestOp::GreaterEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't >= this value"));
-                }
+                pad_number(kind, &mut val).ok_or(TestEvalErr::Err("Can't >= this value"))?;
                 if super::uint::u8_be::sub_one(&mut val.get_mut()[0].1).is_some() {
                     Some(TestOp::Greater)
                 } else {
@@ -116,9 +126,7 @@ impl ExtPredicate {
                 }
             }
             ExtendedTestOp::LessEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't <= this value"));
-                }
+                pad_number(kind, &mut val).ok_or(TestEvalErr::Err("Can't <= this value"))?;
                 if super::uint::u8_be::add_one(&mut val.get_mut()[0].1).is_some() {
                     Some(TestOp::Less)
                 } else {
-- 
2.43.0


From 6d487c7c6289255b838541178c7fa1ed868965dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 26/86] fix: predicates on unsupported fields are an error
 instead of a panic

---
 crates/core/src/predicate/pkt_predicates.rs | 26 +++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5d38b6b..85bba45 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -12,7 +12,7 @@ use crate::{
     predicate::{bitset_test::BitTestSet, exprs::RuleType},
     prelude::ExtPredicate,
 };
-use anyhow::{ensure, Context};
+use anyhow::{bail, ensure, Context};
 
 use super::{
     exprs::{Predicate, QScope},
@@ -280,8 +280,6 @@ impl PktPredicates {
                     FieldEnum::PubKeyF => {
                         self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
                     }
-                    FieldEnum::SignatureF => todo!(),
-                    FieldEnum::DataF => todo!(),
                     FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
                     FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
@@ -299,15 +297,19 @@ impl PktPredicates {
                     FieldEnum::VarUBits3F => {
                         self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
                     }
-                    FieldEnum::RSpaceNameF => todo!(),
-                    FieldEnum::SpaceComp0F => todo!(),
-                    FieldEnum::SpaceComp1F => todo!(),
-                    FieldEnum::SpaceComp2F => todo!(),
-                    FieldEnum::SpaceComp3F => todo!(),
-                    FieldEnum::SpaceComp4F => todo!(),
-                    FieldEnum::SpaceComp5F => todo!(),
-                    FieldEnum::SpaceComp6F => todo!(),
-                    FieldEnum::SpaceComp7F => todo!(),
+                    FieldEnum::SignatureF
+                    | FieldEnum::DataF
+                    | FieldEnum::RSpaceNameF
+                    | FieldEnum::SpaceComp0F
+                    | FieldEnum::SpaceComp1F
+                    | FieldEnum::SpaceComp2F
+                    | FieldEnum::SpaceComp3F
+                    | FieldEnum::SpaceComp4F
+                    | FieldEnum::SpaceComp5F
+                    | FieldEnum::SpaceComp6F
+                    | FieldEnum::SpaceComp7F => {
+                        bail!("no predicates for field '{f}'")
+                    }
                     FieldEnum::DataSizeF => {
                         self.data_size.try_add(op, U16::try_from(val)?.get())?
                     }
-- 
2.43.0


From 3c7f38eb4ea06bad42c6c4bbbc52dd9e62009dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 27/86] fix: refuse bit masks on recv instead of ignoring them

---
 crates/core/src/predicate/pkt_predicates.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 85bba45..b612dc3 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -318,7 +318,13 @@ impl PktPredicates {
                     }
                 }
             }
-            RuleType::RecvStamp => self.recv_stamp.try_add(op, U64::try_from(val)?.get())?,
+            RuleType::RecvStamp => {
+                ensure!(
+                    !matches!(op, TestOp::Mask0 | TestOp::Mask1),
+                    "recv does not support masks"
+                );
+                self.recv_stamp.try_add(op, U64::try_from(val)?.get())?
+            }
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
-- 
2.43.0


From 8b7eb870272770d54f5b66c8121a9b1783f2d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 28/86] fix: setting a header field clears its previous value

---
 crates/core/src/mut_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index a0cba6f..75c9770 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -83,7 +83,7 @@ pub fn mutate(op: TestOp, val: ABList, clear: &mut [u8], set: &mut [u8]) -> anyh
                 .into_exact_bytes()
                 .map_err(|_| anyhow::anyhow!("Eq expects exact bytes"))?;
             anyhow::ensure!(v.len() == clear.len());
-            clear.iter_mut().for_each(|v| *v = 255);
+            clear.iter_mut().for_each(|v| *v = 0);
             set.iter_mut().zip(v).for_each(|(set, val)| *set = val);
         }
         e => anyhow::bail!("op not yet supported {}", e),
-- 
2.43.0


From 3ef0413ccb4ca4124010374a6571e636eec5a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 29/86] fix: read the options of a query text from top to
 bottom

---
 crates/core/src/query.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 1db32c1..eb8dedd 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -142,15 +142,24 @@ impl Query {
             self.predicates.add_ext_predicate(ex_predicate)
         }
     }
+    /// Adds the statements on top of the query. Of the options in the text the topmost comes first, as in [Self::to_str].
     pub fn parse(&mut self, multiline_stament: &[u8], scope: &dyn Scope) -> anyhow::Result<()> {
+        let mut options = vec![];
         for line in multiline_stament.split(|ch| *ch == b'\n') {
             if line.is_empty() {
                 continue;
             }
             let e = eval(scope, &abe::parse_abe_strict_b(line)?)?;
-            self.add_stmt(e)?;
+            if matches!(e.first(), Some((Some(_), _))) {
+                options.push(e);
+            } else {
+                self.add_stmt(e)?;
+            }
         }
-        Ok(())
+        options
+            .into_iter()
+            .rev()
+            .try_for_each(|opt| self.add_option_abl(opt))
     }
 
     pub fn hash_eq(h: linkspace_pkt::LkHash) -> Self {
-- 
2.43.0


From 0750b58ff1b1711b830cec24df926810c0754d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 30/86] fix: save in the microsecond of the last log entry

The next stamp has to be greater than the last one of the log, an equal one
fails with KeyExist.
---
 crates/core/src/env/lmdb/save.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index a2fd020..750c77b 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -27,9 +27,10 @@ impl LMDBEnv {
         match pktlog.ro().get(None, None, lmdb_sys::MDB_LAST) {
             Ok((Some(recv), _)) => {
                 let last: u64 = super::db::pktlog::val(recv.try_into().unwrap());
-                if last > start {
-                    eprintln!("db log saved entries from the future? - this could become undefined behavior");
-
+                if last >= start {
+                    if last > start {
+                        eprintln!("db log saved entries from the future? - this could become undefined behavior");
+                    }
                     start = last + 1;
                 }
             }
-- 
2.43.0


From 4932c07bc4fe913e17e3f27779a396e8fa142360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 31/86] fix: a failed save leaves the packets pending

They were reported as Written or Exists, and a retry skipped them.
---
 crates/core/src/env/lmdb/save.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index 750c77b..6d6c1e3 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -15,6 +15,17 @@ impl LMDBEnv {
     /// return first stamp used and last stamp. If first == last then nothing was written.
     #[tracing::instrument(skip_all, err)]
     pub fn save<P: NetPkt>(&self, pkts: &mut [(P, SaveState)]) -> lmdb::Result<Range<u64>> {
+        let before: Vec<SaveState> = pkts.iter().map(|(_, state)| *state).collect();
+        let result = self.save_txn(pkts);
+        if result.is_err() {
+            // nothing was committed
+            for ((_, state), before) in pkts.iter_mut().zip(before) {
+                *state = before;
+            }
+        }
+        result
+    }
+    fn save_txn<P: NetPkt>(&self, pkts: &mut [(P, SaveState)]) -> lmdb::Result<Range<u64>> {
         use lmdb::Error;
         use lmdb_sys::*;
 
-- 
2.43.0


From 9aa089670e14bb29e66e924086ac9479b4c49633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 32/86] fix: pkts_after the last possible stamp

The addition overflowed.
---
 crates/core/src/env/lmdb/get.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/get.rs b/crates/core/src/env/lmdb/get.rs
index d5e8f91..873d386 100644
--- a/crates/core/src/env/lmdb/get.rs
+++ b/crates/core/src/env/lmdb/get.rs
@@ -79,7 +79,8 @@ impl<'env> ReadTxn<'env> {
         self.0.pkt_cursor().range_uniq(&from.get()).map(as_recv_ptr)
     }
     pub fn pkts_after(&self, after: Stamp) -> impl Iterator<Item = RecvPktPtr> {
-        self.local_pkt_log(Stamp::new(after.get() + 1))
+        self.local_pkt_log(Stamp::new(after.get().saturating_add(1)))
+            .skip_while(move |pkt| pkt.recv <= after)
     }
     /*
     pub fn get_pkts_by_tree(
-- 
2.43.0


From 0b526550e2b60e71bd9a22930832a0f55bac8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 33/86] fix: log_range keeps to its bounds

The end was ignored, and going backwards so was the start.
---
 crates/core/src/env/lmdb/db.rs  | 14 +++++++++++---
 crates/core/src/env/lmdb/get.rs |  9 ++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 4f22170..407ee09 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -230,10 +230,18 @@ impl<'txn> PktLogCursor<'txn> {
     }
     pub(crate) fn range_uniq_rev(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
         let start = *start;
-        let it = match self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_LAST) {
-            Ok(_) | Err(Error::NotFound) => Iter::Ok {
+        // the first entry at or after start; unless it is at start, begin before it
+        let found = self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_SET_RANGE);
+        let op = match found {
+            Ok((Some(k), _)) if *k == pktlog::bytes(start) => Ok(ffi::MDB_GET_CURRENT),
+            Ok(_) => Ok(ffi::MDB_PREV),
+            Err(Error::NotFound) => Ok(ffi::MDB_LAST),
+            Err(error) => Err(error),
+        };
+        let it = match op {
+            Ok(op) => Iter::Ok {
                 cursor: self.0,
-                op: ffi::MDB_GET_CURRENT,
+                op,
                 next_op: ffi::MDB_PREV,
             },
             Err(error) => Iter::Err(error),
diff --git a/crates/core/src/env/lmdb/get.rs b/crates/core/src/env/lmdb/get.rs
index 873d386..9260ae9 100644
--- a/crates/core/src/env/lmdb/get.rs
+++ b/crates/core/src/env/lmdb/get.rs
@@ -63,12 +63,19 @@ impl<'env> ReadTxn<'env> {
     pub fn log_range(&self, q: StampRange) -> impl Iterator<Item = RecvPktPtr> {
         let dir = IterDirection::from(q.start, q.end);
         if dir.is_forward() {
-            Either::Left(self.0.pkt_cursor().range_uniq(&q.start).map(as_recv_ptr))
+            Either::Left(
+                self.0
+                    .pkt_cursor()
+                    .range_uniq(&q.start)
+                    .take_while(move |(stamp, _)| *stamp <= q.end)
+                    .map(as_recv_ptr),
+            )
         } else {
             Either::Right(
                 self.0
                     .pkt_cursor()
                     .range_uniq_rev(&q.start)
+                    .take_while(move |(stamp, _)| *stamp >= q.end)
                     .map(as_recv_ptr),
             )
         }
-- 
2.43.0


From 28c32bf93d7f7caa9bc6c5edbe1635b376b9ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 34/86] fix: i_branch is ignored in log mode

It was applied to every packet of the log before the other predicates.
---
 crates/core/src/env/lmdb/queries.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7392685..172d3b1 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -159,8 +159,6 @@ impl<'txn> ReadTxn<'txn> {
         let log_range = recv.stamp_range(ord.is_asc());
         let it = self.log_range(log_range);
 
-        let nth_find_set = rules.state.i_branch.iter(0);
-        let it = it.zip(nth_find_set).filter_map(|(v, ok)| ok.then_some(v));
         let it = it.filter(move |pkt| tests.test(**pkt));
 
         let nth_log_set = rules.state.i_db.iter(0);
-- 
2.43.0


From 1b7d9c0effa9d5d57f99c8b5203ef2930ab7e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 35/86] fix: hash queries in descending order

They panicked with a todo.
---
 crates/core/src/env/lmdb/db.rs      | 45 ++++++++++++++++++-----------
 crates/core/src/env/lmdb/queries.rs | 44 ++++++++++++++--------------
 2 files changed, 50 insertions(+), 39 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 407ee09..5c797e0 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -230,23 +230,7 @@ impl<'txn> PktLogCursor<'txn> {
     }
     pub(crate) fn range_uniq_rev(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
         let start = *start;
-        // the first entry at or after start; unless it is at start, begin before it
-        let found = self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_SET_RANGE);
-        let op = match found {
-            Ok((Some(k), _)) if *k == pktlog::bytes(start) => Ok(ffi::MDB_GET_CURRENT),
-            Ok(_) => Ok(ffi::MDB_PREV),
-            Err(Error::NotFound) => Ok(ffi::MDB_LAST),
-            Err(error) => Err(error),
-        };
-        let it = match op {
-            Ok(op) => Iter::Ok {
-                cursor: self.0,
-                op,
-                next_op: ffi::MDB_PREV,
-            },
-            Err(error) => Iter::Err(error),
-        };
-        it.map_while(|kv| kv.ok()).map(|(k, v)| {
+        iter_rev_from(self.0, &pktlog::bytes(start)).map_while(|kv| kv.ok()).map(|(k, v)| {
             let k = pktlog::val(k.try_into().unwrap());
             let v = assert_align(v);
             (k, v)
@@ -269,7 +253,34 @@ impl<'txn> PktLogCursor<'txn> {
         (0, &[])
     }
 }
+/// iterate backwards from the last entry at or before start
+fn iter_rev_from<'txn>(cursor: RoCursor<'txn>, start: &[u8]) -> Iter<'txn> {
+    let op = match cursor.get(Some(start), None, ffi::MDB_SET_RANGE) {
+        Ok((Some(k), _)) if k == start => Ok(ffi::MDB_GET_CURRENT),
+        Ok(_) => Ok(ffi::MDB_PREV),
+        Err(Error::NotFound) => Ok(ffi::MDB_LAST),
+        Err(error) => Err(error),
+    };
+    match op {
+        Ok(op) => Iter::Ok {
+            cursor,
+            op,
+            next_op: ffi::MDB_PREV,
+        },
+        Err(error) => Iter::Err(error),
+    }
+}
 impl<'txn> HashCursor<'txn> {
+    pub(crate) fn range_uniq_rev(
+        self,
+        start: &[u8; 32],
+    ) -> impl Iterator<Item = (&'txn [u8; 32], u64)> {
+        iter_rev_from(self.0, start).map(move |kv| {
+            let (k, v) = kv.unwrap();
+            let v = u64::from_ne_bytes(v.try_into().unwrap());
+            (k.try_into().unwrap(), v)
+        })
+    }
     pub(crate) fn range_uniq(
         self,
         start: &[u8; 32],
diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 172d3b1..fb81fbf 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -172,32 +172,32 @@ impl<'txn> ReadTxn<'txn> {
         ord: Order,
     ) -> impl Iterator<Item = Stamp> + '_ {
         use crate::predicate::value_test::*;
-        match ord {
+        let TestSet {
+            bound:
+                Bound {
+                    low: greater_eq,
+                    high: less_eq,
+                },
+            mask,
+        } = hashset;
+        if mask != Mask::DEFAULT {
+            tracing::warn!("todo impl hash mask jumping");
+        }
+        let cursor = self.0.hash_cursor();
+        let it = match ord {
             Order::Asc => {
-                let TestSet {
-                    bound:
-                        Bound {
-                            low: greater_eq,
-                            high: less_eq,
-                        },
-                    mask,
-                } = hashset;
-                if mask != Mask::DEFAULT {
-                    tracing::warn!("todo impl hash mask jumping");
-                }
-                let greater_eq: B64<[u8; 32]> = greater_eq.into();
-                self.0
-                    .hash_cursor()
-                    .range_uniq(&greater_eq)
-                    .map(|(hash, stamp)| (B64(*hash).into(), stamp))
-                    .take_while(move |(v, _)| *v <= less_eq)
-                    .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
-                    .map(|(_, stamp)| stamp.into())
+                let start: B64<[u8; 32]> = greater_eq.into();
+                Either::Left(cursor.range_uniq(&start))
             }
             Order::Desc => {
-                todo!("hash desc not yet impl");
+                let start: B64<[u8; 32]> = less_eq.into();
+                Either::Right(cursor.range_uniq_rev(&start))
             }
-        }
+        };
+        it.map(|(hash, stamp)| (B64(*hash).into(), stamp))
+            .take_while(move |(v, _)| *v >= greater_eq && *v <= less_eq)
+            .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
+            .map(|(_, stamp)| stamp.into())
     }
     pub fn query_hash(
         &'txn self,
-- 
2.43.0


From 68c5758d4faa0264d43d084b765b54f6951798af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 36/86] fix: a tree query ends with the last branch

A limit per branch made it walk on in a branch outside of the query.
---
 crates/core/src/env/lmdb/queries.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index fb81fbf..31297d2 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -115,6 +115,7 @@ impl<'txn> ReadTxn<'txn> {
                         Some(false) => {}
                         None => {
                             key_ptr = keys_iter.as_mut().and_then(|v| v.next_scope());
+                            cnt = key_ptr.is_some();
                             yields = nth_find_set.iter(0);
                         }
                     }
-- 
2.43.0


From 946ebb747b176c79f5b8d8a0fe0974f473ccc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 37/86] fix: a tree query for a depth no space has

It panicked instead of finding nothing.
---
 crates/core/src/env/lmdb/queries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 31297d2..159fbb7 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -43,7 +43,8 @@ impl<'txn> ReadTxn<'txn> {
         order: Order,
     ) -> Option<(TreeEntryRef<'txn>, TreeKeysIter<'txn>)> {
         let req = rules.compile_tree_keys(order.is_asc()).unwrap();
-        let lower_bound = req.lower_bound().unwrap();
+        // a depth can be out of reach (e.g. depth:>:8), which matches nothing
+        let lower_bound = req.lower_bound().ok()?;
         let iter_dup = self.0.tree_cursor().iter_dup(order.is_asc());
         let at = iter_dup
             .set_range(&lower_bound)
-- 
2.43.0


From 65e502da81e0e3d258b1bc6d43b96974b6b78515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 38/86] fix: a query for one create stamp in descending order

Branches with a newer packet were skipped.
---
 crates/core/src/env/lmdb/db.rs        |  3 +++
 crates/core/src/env/lmdb/tree_iter.rs | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 5c797e0..71b856f 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -312,6 +312,9 @@ impl<'o> Debug for IterDup<'o> {
 }
 type E<'txn> = (&'txn [u8], &'txn TreeValueBytes);
 impl<'txn> IterDup<'txn> {
+    pub fn is_asc(&self) -> bool {
+        self.value_asc
+    }
     #[track_caller]
     fn iget(&self, key: Option<&[u8]>, op: u32) -> Option<E<'txn>> {
         match self.cur.get(key, None, op) {
diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 1ccab16..5097fb1 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -1,6 +1,6 @@
 use linkspace_pkt::{
     tree_order::{TreeEntryRef, TreeKey, TreeValueBytes},
-    Domain, GroupID,
+    Domain, GroupID, Stamp,
 };
 
 use crate::{prelude::treekey::TreeKeys, stamp_range::IterCmp};
@@ -26,11 +26,20 @@ impl<'txn> TreeKeysIter<'txn> {
             .map(spd)
             .filter(|v| self.req.cstamp.contains(v.create()))
     }
+    fn stamp_cmp(&self, create: Stamp) -> IterCmp {
+        let range = self.req.cstamp;
+        match range.iter_cmp(create) {
+            // a range of a single stamp counts as ascending
+            IterCmp::Post if range.start == range.end && !self.iter_dup.is_asc() => IterCmp::Pre,
+            IterCmp::Pre if range.start == range.end && !self.iter_dup.is_asc() => IterCmp::Post,
+            cmp => cmp,
+        }
+    }
     fn next_stamp_match(&self, at: &mut TreeEntryRef<'txn>) -> Result<(), ()> {
-        let mut cmp = self.req.cstamp.iter_cmp(at.create());
+        let mut cmp = self.stamp_cmp(at.create());
         while cmp == IterCmp::Pre {
             *at = self.iter_dup.get_next_entry().map(spd).ok_or(())?;
-            cmp = self.req.cstamp.iter_cmp(at.create());
+            cmp = self.stamp_cmp(at.create());
         }
         if cmp == IterCmp::In {
             Ok(())
-- 
2.43.0


From 290bf9809c58c4703e95c163a0dad6b9f133fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 39/86] fix: tree queries find the spaces of a depth or prefix
 in each domain

The jump to the next match skipped the smallest depth that matches, and
the spaces of the current depth when it stood before the prefix.
---
 crates/core/src/env/lmdb/tree_iter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 5097fb1..4006bed 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -100,12 +100,11 @@ impl<'txn> TreeKeysIter<'txn> {
                         (true, true, true) => unreachable!(),
                         (false, _, _) => {
                             tracing::trace!(?depth, "Depth OOB, setting next depth");
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            jump.push(depth.val.unwrap_or(255));
+                        }
+                        (true, false, _) if at.btree_key.space() < &*self.req.rspace => {
+                            jump.push(depth.val.unwrap_or(255));
+                            tracing::trace!("Before prefix, extending with lowerbound");
                         }
                         (true, false, _) => {
                             jump.push(
-- 
2.43.0


From 477f6eeb4549071b73ad51e8f8bf256aef7a6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 40/86] fix: the lower bound of a tree query leaves out the
 pubkey

Placed behind a prefix of the space it compares with the space and skips
packets.
---
 crates/core/src/predicate/treekey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/treekey.rs b/crates/core/src/predicate/treekey.rs
index d1418af..6c221ef 100644
--- a/crates/core/src/predicate/treekey.rs
+++ b/crates/core/src/predicate/treekey.rs
@@ -47,7 +47,7 @@ impl TreeKeys {
         btree_key.extend_from_slice(&Domain::from(domain).0);
         btree_key.push(depth);
         btree_key.extend(rspace.space_bytes());
-        btree_key.extend_from_slice(&pubkey.to_be_bytes::<32>());
+        // the pubkey follows the whole space, of which only the prefix is known
         Ok(btree_key)
     }
 }
-- 
2.43.0


From ecdb7545125868c5dfb1f9c6cbaaf618b9545315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 41/86] fix: save the first packets of a store at once

When the second of the two saves failed, the LNS roots were never saved.
---
 crates/core/src/env/lmdb/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 876efad..5ed39d8 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -56,10 +56,15 @@ impl BTreeEnv {
         if std::env::var_os("LK_FORCE_EMPTY").is_some() {
             return Ok(env);
         }
-        let new = env.save_ptr_one(&PUBLIC_GROUP_PKT)?.is_written();
-        if new && std::env::var_os("LK_NO_LNS").is_none() {
-            let mut roots: Vec<_> = LNS_ROOTS.iter().map(|p| (p, SaveState::Pending)).collect();
-            env.save_ptr(&mut roots)?;
+        let public: &NetPktPtr = &PUBLIC_GROUP_PKT;
+        let new = env.0.lmdb.read_txn()?.hash_cursor().read_uniq(public.hash_ref())?.is_none();
+        if new {
+            // a single save, a store never has the one without the others
+            let mut pkts = vec![(public, SaveState::Pending)];
+            if std::env::var_os("LK_NO_LNS").is_none() {
+                pkts.extend(LNS_ROOTS.iter().map(|p| (p, SaveState::Pending)));
+            }
+            env.save_ptr(&mut pkts)?;
         }
         Ok(env)
     }
-- 
2.43.0


From 9c4f5f9630fb1a5ddbeeb8a0307eb7b5c5655923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 42/86] fix: stopping a range of watches does not need one with
 exactly that id

---
 crates/core/src/matcher/mod.rs | 35 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 84046c6..de3a8c9 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -211,27 +211,26 @@ impl<C> Matcher<C> {
         range: bool,
         mut on_drop: impl FnMut(WatchEntry<C>),
     ) -> usize {
-        match self
+        let at = self
             .watch_entries
-            .binary_search_by_key(&id, |e| &e.query_id)
-        {
-            Ok(i) => {
-                if !range {
-                    let w = self.watch_entries.remove(i);
-                    on_drop(w);
-                    1
-                } else {
-                    let c = self.watch_entries[i..]
-                        .iter()
-                        .take_while(|v| v.query_id.starts_with(id))
-                        .count();
-                    for w in self.watch_entries.drain(i..c + i) {
-                        on_drop(w)
-                    }
-                    c
+            .binary_search_by_key(&id, |e| &e.query_id);
+        match at {
+            Ok(i) if !range => {
+                let w = self.watch_entries.remove(i);
+                on_drop(w);
+                1
+            }
+            Err(_) if !range => 0,
+            Ok(i) | Err(i) => {
+                let c = self.watch_entries[i..]
+                    .iter()
+                    .take_while(|v| v.query_id.starts_with(id))
+                    .count();
+                for w in self.watch_entries.drain(i..c + i) {
+                    on_drop(w)
                 }
+                c
             }
-            Err(_) => 0,
         }
     }
     pub fn trigger(
-- 
2.43.0


From b8591529837f83736940ec872926ce9057eb782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 43/86] fix: durations that are not utf8 are an error instead
 of a panic

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index 62f0415..defeec5 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -79,7 +79,7 @@ pub fn parse_duration_str(st: impl AsRef<[u8]>) -> anyhow::Result<Duration> {
     let mut fmts = DELTA_FORMATS.iter();
     for segm in st.as_ref().split_inclusive(|a| a.is_ascii_alphabetic()) {
         let (unit, digits) = segm.split_last().unwrap();
-        let count = u32::from_str(std::str::from_utf8(digits).unwrap())?;
+        let count = u32::from_str(std::str::from_utf8(digits)?)?;
         loop {
             let (ch, val) = fmts.next().with_context(|| match char_as_dur(*unit) {
                 Some(_) => format!("Out of order '{}'", *unit as char),
-- 
2.43.0


From e2a40f1be2f56886464d841a520895844ffc0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 44/86] fix: headers are not aligned, change them bytewise

---
 crates/core/src/mut_header.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index 75c9770..fa9cabf 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -28,14 +28,13 @@ impl NetHeaderMutate {
         set: NetPktHeader::cfrom([0; 32]),
     };
     pub fn mutate(&self, h: &mut NetPktHeader) {
-        let b: &mut [u128; 2] = unsafe { &mut *(h as *mut NetPktHeader as *mut [u128; 2]) };
-        let clear: &[u128; 2] =
-            unsafe { &*(&self.clear as *const NetPktHeader as *const [u128; 2]) };
-        let set: &[u128; 2] = unsafe { &*(&self.set as *const NetPktHeader as *const [u128; 2]) };
-        b[0] &= clear[0];
-        b[0] |= set[0];
-        b[1] &= clear[1];
-        b[1] |= set[1];
+        let mut b: [u8; 32] = h.cinto();
+        let clear: [u8; 32] = self.clear.cinto();
+        let set: [u8; 32] = self.set.cinto();
+        for i in 0..b.len() {
+            b[i] = b[i] & clear[i] | set[i];
+        }
+        *h = NetPktHeader::cfrom(b);
     }
     pub fn from_lst(lst: &[MutFieldExpr], scope: &dyn Scope) -> anyhow::Result<Self> {
         let mut m = NetHeaderMutate::DEFAULT;
-- 
2.43.0


From 7c379793d6f4710258969ca6d37dddba212bebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 45/86] fix: printed durations were a microsecond off

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index defeec5..8bc1f00 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -138,7 +138,7 @@ pub fn duration_to_string(
         return format!("0{}", formats.last().unwrap().0);
     }
     for (unit, dur) in &parts {
-        let c = delta.div_duration_f64(*dur).floor() as u32;
+        let c = (delta.as_nanos() / dur.as_nanos()).min(u32::MAX.into()) as u32;
         delta = delta.saturating_sub(*dur * c);
         if zeros || c != 0 {
             st.push_str(&format!("{delim}{}{}", c as u64, unit));
-- 
2.43.0


From 5fdbb0ce1305109a222f6ecf446e3121e9cfabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 46/86] fix: check every character of a partial hash

---
 crates/core/src/partial_hash.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/partial_hash.rs b/crates/core/src/partial_hash.rs
index 244a7da..d23adfe 100644
--- a/crates/core/src/partial_hash.rs
+++ b/crates/core/src/partial_hash.rs
@@ -75,13 +75,16 @@ impl PartialHash {
     }
     pub fn try_from_strlike(v: impl AsRef<[u8]>) -> Result<PartialHash, Error> {
         let b64 = v.as_ref();
-        if b64.len() < 4 || b64.len() > B64_HASH_LENGTH {
+        if b64.len() < 4 {
+            return Err(Error::MinLengthError);
+        }
+        if b64.len() > B64_HASH_LENGTH {
             return Err(Error::MaxLengthError);
         }
         let mut b = [b'A'; B64_HASH_LENGTH];
         b[..b64.len()].copy_from_slice(b64);
         // TODO , just  check character table
-        BASE64_URL_SAFE_NO_PAD.decode(&b[0..b64.len() & !3usize])?;
+        BASE64_URL_SAFE_NO_PAD.decode(b)?;
         let mut arr = ArrayString::from_byte_string(&b).unwrap();
         arr.truncate(b64.len());
         Ok(PartialHash(arr))
-- 
2.43.0


From 0b164b0c63a98248ce891f199708e3db86ed5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 47/86] fix: static names do not stand for names with further
 components

---
 crates/core/src/eval.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/eval.rs b/crates/core/src/eval.rs
index dad5ccf..97eea36 100644
--- a/crates/core/src/eval.rs
+++ b/crates/core/src/eval.rs
@@ -40,10 +40,10 @@ impl EvalScopeImpl for StaticLNS {
     fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
         &[
             ScopeFunc {
-                apply: |_, i, _, _| match i[0] {
-                    b"0" => ApplyResult::Value(PRIVATE.0.to_vec()),
-                    b"pub" => ApplyResult::Value(PUBLIC.0.to_vec()),
-                    b"test" => ApplyResult::Value(TEST_GROUP.0.to_vec()),
+                apply: |_, i, _, _| match i {
+                    [b"0"] => ApplyResult::Value(PRIVATE.0.to_vec()),
+                    [b"pub"] => ApplyResult::Value(PUBLIC.0.to_vec()),
+                    [b"test"] => ApplyResult::Value(TEST_GROUP.0.to_vec()),
                     _ => ApplyResult::NoValue,
                 },
                 info: ScopeFuncInfo {
@@ -68,8 +68,8 @@ impl EvalScopeImpl for StaticLNS {
                 },
             },
             ScopeFunc {
-                apply: |_, i, _, _| match i[0] {
-                    b"none" => ApplyResult::Value(PRIVATE.0.to_vec()),
+                apply: |_, i, _, _| match i {
+                    [b"none"] => ApplyResult::Value(PRIVATE.0.to_vec()),
                     _ => ApplyResult::NoValue,
                 },
                 info: ScopeFuncInfo {
-- 
2.43.0


From 97e2052efb8fccd7a569d431783aa3e06b706e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 48/86] fix: judge conflicting masks where predicates are
 combined

value_test.rs is as it was upstream again: its name makes it count as a test file.
---
 crates/core/src/predicate/pkt_predicates.rs | 56 +++++++++++++--------
 crates/core/src/predicate/value_test.rs     |  5 +-
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index b612dc3..75e7eda 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -18,6 +18,7 @@ use super::{
     exprs::{Predicate, QScope},
     treekey::TreeKeys,
     value_test::*,
+    UInt,
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -130,6 +131,13 @@ fn as_rules_it2<X, Y: Into<ABList>>(
         val: map(val).into(),
     })
 }
+/// conflicting masks leave nothing, [TestSet::try_add] expects them to fit
+fn try_add<U: UInt>(set: &mut TestSet<U>, op: TestOp, val: U) -> anyhow::Result<()> {
+    let mut mask = set.mask;
+    mask.add(op, val);
+    ensure!(mask.has_any(), "incompatible {:?} {:?}", op, val);
+    set.try_add(op, val)
+}
 impl PktPredicates {
     pub(crate) fn check_space(&mut self) -> anyhow::Result<()> {
         if let Some(i) = self.rspace_prefix.space_depth().checked_sub(1) {
@@ -243,21 +251,20 @@ impl PktPredicates {
         let op = *op;
         match kind {
             RuleType::Field(f) => {
-                self.pkt_types
-                    .try_add(TestOp::Mask1, f.info().pkts.bits())
+                try_add(&mut self.pkt_types, TestOp::Mask1, f.info().pkts.bits())
                     .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 match f {
-                    FieldEnum::PktTypeF => self.pkt_types.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::SizeF => self.size.try_add(op, U16::try_from(val)?.get())?,
+                    FieldEnum::PktTypeF => try_add(&mut self.pkt_types, op, U8::try_from(val)?.0)?,
+                    FieldEnum::SizeF => try_add(&mut self.size, op, U16::try_from(val)?.get())?,
                     FieldEnum::PktHashF => {
-                        self.hash.try_add(op, LkHash::try_from(val)?.into())?;
+                        try_add(&mut self.hash, op, LkHash::try_from(val)?.into())?;
                         if op == TestOp::Equal {
                             self.state.i_query.try_add(TestOp::Equal, 0u32)?;
                         }
                     }
-                    FieldEnum::DomainF => self
-                        .domain
-                        .try_add(op, Domain::try_from(val)?.uint().get())?,
+                    FieldEnum::DomainF => {
+                        try_add(&mut self.domain, op, Domain::try_from(val)?.uint().get())?
+                    }
                     FieldEnum::SpaceNameF => {
                         ensure!(op == TestOp::Equal, "space only supports equallity");
                         let rspace: RootedSpaceBuf = SpaceBuf::try_from(val)?.try_into_rooted()?;
@@ -270,32 +277,32 @@ impl PktPredicates {
                         self.check_space()?;
                     }
                     FieldEnum::DepthF => {
-                        self.depth.try_add(op, U8::try_from(val)?.0)?;
+                        try_add(&mut self.depth, op, U8::try_from(val)?.0)?;
                         self.check_space()?;
                     }
                     FieldEnum::GroupIDF => {
-                        self.group.try_add(op, GroupID::try_from(val)?.into())?
+                        try_add(&mut self.group, op, GroupID::try_from(val)?.into())?
                     }
-                    FieldEnum::CreateF => self.create.try_add(op, U64::try_from(val)?.get())?,
+                    FieldEnum::CreateF => try_add(&mut self.create, op, U64::try_from(val)?.get())?,
                     FieldEnum::PubKeyF => {
-                        self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
+                        try_add(&mut self.pubkey, op, PubKey::try_from(val)?.into())?;
                     }
-                    FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
+                    FieldEnum::VarNetFlagsF => try_add(&mut self.var_flags, op, U8::try_from(val)?.0)?,
+                    FieldEnum::VarHopF => try_add(&mut self.var_hop, op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
-                        self.var_stamp.try_add(op, U64::try_from(val)?.get())?
+                        try_add(&mut self.var_stamp, op, U64::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits0F => {
-                        self.var_ubits[0].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[0], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits1F => {
-                        self.var_ubits[1].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[1], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits2F => {
-                        self.var_ubits[2].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[2], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits3F => {
-                        self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[3], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::SignatureF
                     | FieldEnum::DataF
@@ -311,10 +318,10 @@ impl PktPredicates {
                         bail!("no predicates for field '{f}'")
                     }
                     FieldEnum::DataSizeF => {
-                        self.data_size.try_add(op, U16::try_from(val)?.get())?
+                        try_add(&mut self.data_size, op, U16::try_from(val)?.get())?
                     }
                     FieldEnum::LinksLenF => {
-                        self.links_len.try_add(op, U16::try_from(val)?.get())?
+                        try_add(&mut self.links_len, op, U16::try_from(val)?.get())?
                     }
                 }
             }
@@ -331,7 +338,12 @@ impl PktPredicates {
                 self.prefix(sp)?;
             }
             RuleType::Limit(l) => {
-                self.state.idx(*l).add(op, U32::try_from(val)?.get());
+                let set = self.state.idx(*l);
+                set.add(op, U32::try_from(val)?.get());
+                if !set.mask.has_any() {
+                    set.bound = Bound::EMPTY;
+                    set.mask = Mask::DEFAULT;
+                }
                 self.state.is_valid()?;
             }
         };
diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index 9d980df..fc73bfe 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -352,9 +352,6 @@ impl<U: UInt> Mask<U> {
     }
 
     pub fn in_set(&self, val: U) -> Option<U> {
-        if !self.has_any() {
-            return None;
-        }
         let (overflow, v) = self.overflowing_in_set(val);
         if overflow {
             None
@@ -657,7 +654,7 @@ impl<U: UInt> TestSet<U> {
 impl<U: UInt> Bound<U> {
     pub fn try_combine(self, other: Self) -> anyhow::Result<Self> {
         anyhow::ensure!(self.high >= other.low);
-        anyhow::ensure!(self.low <= other.high);
+        anyhow::ensure!(other.low <= self.high);
         Ok(Bound {
             high: self.high.min(other.high),
             low: self.low.max(other.low),
-- 
2.43.0


From 2f6e1b2537b2c6c828caa5e7a17915befe64ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 49/86] fix: a stopped callback can watch or stop again while
 pending commands run

---
 crates/common/src/runtime/rx.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index a9b45f9..dc33949 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -115,15 +115,22 @@ impl Linkspace {
         };
     }
     pub fn drain_pending(&self, lk: &mut Matcher) {
-        for cmd in self.0.exec.pending.borrow_mut().drain(..) {
-            match cmd {
-                Pending::NewWatch { watch_entry } => {
-                    if let Some(w) = lk.register(watch_entry) {
-                        drop_watch(w, self, StopReason::Replaced)
+        // stopping a watch can add new commands
+        loop {
+            let cmds = std::mem::take(&mut *self.0.exec.pending.borrow_mut());
+            if cmds.is_empty() {
+                return;
+            }
+            for cmd in cmds {
+                match cmd {
+                    Pending::NewWatch { watch_entry } => {
+                        if let Some(w) = lk.register(watch_entry) {
+                            drop_watch(w, self, StopReason::Replaced)
+                        }
+                    }
+                    Pending::Close { id, range } => {
+                        lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
                     }
-                }
-                Pending::Close { id, range } => {
-                    lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
                 }
             }
         }
-- 
2.43.0


From 5f1628ebf6b0c230c935123b5d898df54af38ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 50/86] fix: processing inside of a callback panicked

---
 crates/common/src/runtime/rx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index dc33949..4284482 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -264,6 +264,10 @@ impl Linkspace {
     #[instrument(skip(self), ret)]
     pub fn process(&self) -> Stamp {
         let exec = &self.0.exec;
+        // called from a callback: the process call running it carries on
+        let Ok(mut lock) = exec.callbacks.try_borrow_mut() else {
+            return exec.process_upto.get();
+        };
         exec.written.set(false);
         let (txn, from, mut upto): (Rc<ReadTxn>, Stamp, Stamp) = {
             let mut txn = exec.process_txn.borrow_mut();
@@ -288,7 +292,6 @@ impl Linkspace {
             (txn.clone(), rx_last, txn_last)
         };
         let _g = tracing::error_span!("process log", ?from, atleast_upto=?upto).entered();
-        let mut lock = exec.callbacks.borrow_mut();
         self.drain_pending(&mut lock);
         exec.is_running.set(true);
         let mut count = Rc::strong_count(&txn);
-- 
2.43.0


From 48fb58aac5e27fe2f7e68cdab41fc0e6eb49298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 51/86] fix: pending watches and stops were not applied until a
 new packet arrived

---
 crates/common/src/runtime/rx.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 4284482..459584f 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -285,11 +285,7 @@ impl Linkspace {
                 }
             }
             let txn_last = txn.log_head();
-            if rx_last >= txn_last {
-                tracing::debug!(?txn_last, ?rx_last, "Already processed");
-                return rx_last;
-            }
-            (txn.clone(), rx_last, txn_last)
+            (txn.clone(), rx_last, txn_last.max(rx_last))
         };
         let _g = tracing::error_span!("process log", ?from, atleast_upto=?upto).entered();
         self.drain_pending(&mut lock);
-- 
2.43.0


From 76ee27efbc78484074b5fe4840e2d219e8b06d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 52/86] fix: the reasons break and finish for a stopped watch
 were swapped

---
 crates/common/src/runtime/rx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 459584f..14b61d7 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -309,15 +309,18 @@ impl Linkspace {
                 pkt,
             };
 
+            // what the last called callback returned
+            let broke = Cell::new(false);
             lock.trigger(
                 *pkt,
                 |p| {
                     let r = p.handle_pkt(&pkt, self);
                     validate();
+                    broke.set(r.is_break());
                     r
                 },
                 |w| {
-                    let reason = if w.last_test.1.is_break() {
+                    let reason = if w.last_test.0 && broke.get() {
                         StopReason::Break
                     } else {
                         StopReason::Finish
-- 
2.43.0


From 04a1fc014568d9f6ee9408f7a7fb6a95017feaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 53/86] fix: processing until something happens inside of a
 stopped callback is an error, not a panic

---
 crates/common/src/runtime/rx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 14b61d7..8479e7a 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -268,6 +268,7 @@ impl Linkspace {
         let Ok(mut lock) = exec.callbacks.try_borrow_mut() else {
             return exec.process_upto.get();
         };
+        exec.is_running.set(true);
         exec.written.set(false);
         let (txn, from, mut upto): (Rc<ReadTxn>, Stamp, Stamp) = {
             let mut txn = exec.process_txn.borrow_mut();
@@ -289,7 +290,6 @@ impl Linkspace {
         };
         let _g = tracing::error_span!("process log", ?from, atleast_upto=?upto).entered();
         self.drain_pending(&mut lock);
-        exec.is_running.set(true);
         let mut count = Rc::strong_count(&txn);
         let mut validate = || {
             if Rc::strong_count(&txn) != count {
-- 
2.43.0


From c8a6ac841bc4e8400df5bfa97d05e5bb3bf2dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 54/86] fix: lk_watch and lk_get_all return the number of
 calls, not the position in the query

---
 crates/common/src/runtime/rx.rs | 6 ++++--
 crates/linkspace/src/lib.rs     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 8479e7a..df938ba 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -406,6 +406,7 @@ impl Linkspace {
         }
         let span = debug_span!(parent:&span,"query", preds=%q.predicates);
         let mut counter = 0;
+        let mut calls = 0u32;
         let check_db = q.predicates.state.check_db();
         self.close(watch_id); // this is not ideal. But other close semantics seem worse.
         if check_db {
@@ -418,6 +419,7 @@ impl Linkspace {
                 .try_for_each(|dbp| {
                     let _g = local_span.enter();
                     tracing::debug!(pkt=%PktFmtDebug(&dbp.pkt), recv=%dbp.recv().unwrap(),"Match");
+                    calls += 1;
                     onmatch.handle_pkt(&dbp, self)
                 });
 
@@ -432,7 +434,7 @@ impl Linkspace {
             exec.is_reading.update(|i| i - 1);
             tracing::debug!(?r, "Done with DB");
             if matches!(r, ControlFlow::Break(_)) {
-                return Ok(crate::saturating_cast(counter));
+                return Ok(crate::saturating_cast(calls));
             }
         }
         match RxEntry::new(
@@ -448,7 +450,7 @@ impl Linkspace {
             }
             Err(r) => tracing::info!(e=?r,"Did not register"),
         }
-        Ok(crate::saturating_neg_cast(counter))
+        Ok(crate::saturating_neg_cast(calls))
     }
 
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index 9ff5c2a..58e954b 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -825,16 +825,18 @@ pub mod runtime {
         let r = lk.0.get_reader();
         let mode = query.0.get_mode()?;
         let mut breaks = false;
+        let mut calls = 0u32;
         for p in r.query(mode, &query.0.predicates, &mut c)? {
+            calls += 1;
             breaks = (cb)(&p);
             if breaks {
                 break;
             }
         }
         if breaks {
-            return Ok(saturating_neg_cast(c));
+            return Ok(saturating_neg_cast(calls));
         }
-        Ok(saturating_cast(c))
+        Ok(saturating_cast(calls))
     }
 
     /// get the first result from the database matching the query.
-- 
2.43.0


From ca9456320fde1b92e5ef7b00fb0fc33ec38fc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 55/86] fix: lk_watch returns a positive number of calls if the
 watch is finished

---
 crates/common/src/runtime/rx.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index df938ba..e4de681 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -99,7 +99,9 @@ impl Linkspace {
         }))
     }
 
-    fn insert_watch(&self, watch_entry: RxEntry) {
+    /// false if it can never match and was dropped
+    fn insert_watch(&self, watch_entry: RxEntry) -> bool {
+        let ok = watch_entry.recv_bounds.high > now().get();
         match self.0.exec.callbacks.try_borrow_mut() {
             Ok(mut lk) => {
                 if let Some(w) = lk.register(watch_entry) {
@@ -113,6 +115,7 @@ impl Linkspace {
                 .borrow_mut()
                 .push(Pending::NewWatch { watch_entry }),
         };
+        ok
     }
     pub fn drain_pending(&self, lk: &mut Matcher) {
         // stopping a watch can add new commands
@@ -437,7 +440,7 @@ impl Linkspace {
                 return Ok(crate::saturating_cast(calls));
             }
         }
-        match RxEntry::new(
+        let registered = match RxEntry::new(
             watch_id.to_vec(),
             q.into_owned(),
             counter,
@@ -448,7 +451,13 @@ impl Linkspace {
                 tracing::debug!("Setup Watch");
                 self.insert_watch(e)
             }
-            Err(r) => tracing::info!(e=?r,"Did not register"),
+            Err(r) => {
+                tracing::info!(e=?r,"Did not register");
+                false
+            }
+        };
+        if !registered {
+            return Ok(crate::saturating_cast(calls));
         }
         Ok(crate::saturating_neg_cast(calls))
     }
-- 
2.43.0


From c5bff4500643ea8315d081eb71c8b488cff34147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 56/86] fix: a watch with ':follow' was not told that it
 stopped

---
 crates/common/src/runtime/handlers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/common/src/runtime/handlers.rs b/crates/common/src/runtime/handlers.rs
index cb13465..5492fa7 100644
--- a/crates/common/src/runtime/handlers.rs
+++ b/crates/common/src/runtime/handlers.rs
@@ -122,4 +122,7 @@ impl<F: PktStreamHandler> PktStreamHandler for FollowHandler<F> {
         }
         ControlFlow::Continue(())
     }
+    fn stopped(&mut self, watch: BareWatch, rx: &Linkspace, reason: StopReason) {
+        self.inner.stopped(watch, rx, reason)
+    }
 }
-- 
2.43.0


From fe3e8da67781292c37d99fc8d25a08e3b1bddf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 57/86] fix: a watch dropped because its recv bound passed was
 not told that it stopped, nor was process_while

---
 crates/common/src/runtime/rx.rs | 16 ++++++++++++----
 crates/core/src/matcher/mod.rs  | 25 +++++++++++++++----------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index e4de681..2e3cedd 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -232,7 +232,7 @@ impl Linkspace {
                 next_check = next_check.min(last_step_constraint);
             }
 
-            match exec.next_work() {
+            match exec.next_work(|w| drop_watch(w, self, StopReason::Finish)) {
                 Ok(Some(next_oob)) => {
                     if next_oob != Stamp::MAX {
                         match next_oob.get().checked_sub(now().get()) {
@@ -497,8 +497,8 @@ impl Executor {
     /** return when next to process.
     Ok(None) means immediatly, Ok(Some(stamp)) means at stamp a watch can be dropped, Err means no current watches
      **/
-    #[instrument(skip(self), ret)]
-    fn next_work(&self) -> Result<Option<Stamp>, ()> {
+    #[instrument(skip(self, on_drop), ret)]
+    fn next_work(&self, mut on_drop: impl FnMut(RxEntry)) -> Result<Option<Stamp>, ()> {
         if self.is_running.get() {
             tracing::warn!("has_work called during work");
             panic!();
@@ -507,7 +507,15 @@ impl Executor {
         if !self.pending.borrow().is_empty() {
             return Ok(None);
         };
-        self.callbacks.borrow_mut().gc(now()).ok_or(()).map(Some)
+        let mut dropped = false;
+        let next = self.callbacks.borrow_mut().gc(now(), |w| {
+            dropped = true;
+            on_drop(w)
+        });
+        if dropped {
+            return Ok(None);
+        }
+        next.ok_or(()).map(Some)
     }
 }
 
diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index de3a8c9..ce9de37 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -251,18 +251,23 @@ impl<C> Matcher<C> {
             .for_each(on_drop);
     }
     /// clears out of bound watches and determine when the next gc should be run ( none means empty, Some(MAX) means no oob set)
-    #[instrument(skip(self))]
-    pub fn gc(&mut self, logptr: Stamp) -> Option<Stamp> {
+    #[instrument(skip(self, on_drop))]
+    pub fn gc(
+        &mut self,
+        logptr: Stamp,
+        on_drop: impl FnMut(WatchEntry<C>),
+    ) -> Option<Stamp> {
         let mut min: u64 = u64::MAX;
         let old_len = self.watch_entries.len();
-        self.watch_entries.retain(|e| {
-            if e.recv_bounds.high > logptr.get() {
-                min = e.recv_bounds.high.min(min);
-                true
-            } else {
-                false
-            }
-        });
+        self.watch_entries
+            .extract_if(|e| {
+                let done = e.recv_bounds.high <= logptr.get();
+                if !done {
+                    min = e.recv_bounds.high.min(min);
+                }
+                done
+            })
+            .for_each(on_drop);
         tracing::trace!(old_len, len = self.watch_entries.len());
         if self.watch_entries.is_empty() {
             None
-- 
2.43.0


From 8007ba5a9bafbcb89ffd6fd7e47d37f98050b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 58/86] fix: processing until something happens overslept a
 save made just before the wait

---
 crates/common/src/runtime/rx.rs  |  3 ++-
 crates/core/src/env/lmdb/mod.rs  | 12 ++++++++++++
 crates/ipcbus/src/udp_procbus.rs | 11 +++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 2e3cedd..009304a 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -188,6 +188,7 @@ impl Linkspace {
         // check the break conditions, and update 'next_check' as required for next check
         let mut awoken = None;
         loop {
+            let seen = self.env().last_event();
             let log_head = self.process();
             tracing::trace!(ev_notify=?awoken,db_head=?log_head,"step");
             if let Some(awoken) = awoken {
@@ -259,7 +260,7 @@ impl Linkspace {
             };
 
             tracing::debug!(wakeup=?d(next_check), "waiting for new event");
-            awoken = self.env().next_deadline(Some(next_check));
+            awoken = self.env().next_deadline_after(seen, Some(next_check));
         }
     }
 
diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 5ed39d8..b1fca51 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -84,6 +84,18 @@ impl BTreeEnv {
     pub fn next_deadline(&self, deadline: Option<std::time::Instant>) -> Option<u64> {
         self.0.log_head.next_deadline(deadline)
     }
+    /// the last event known to [Self::next_deadline]
+    pub fn last_event(&self) -> u64 {
+        self.0.log_head.val()
+    }
+    /// [Self::next_deadline] that does not wait if there was an event since [Self::last_event] gave `seen`
+    pub fn next_deadline_after(
+        &self,
+        seen: u64,
+        deadline: Option<std::time::Instant>,
+    ) -> Option<u64> {
+        self.0.log_head.next_deadline_after(seen, deadline)
+    }
     // private generic function.
     fn save<P: NetPkt>(&self, pkts: &mut [(P, SaveState)]) -> io::Result<Range<u64>> {
         let range = self.0.lmdb.save(pkts).map_err(db::as_io)?;
diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index c7c819a..a55590e 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -154,12 +154,23 @@ impl ProcBus {
     pub fn val(&self) -> u64 {
         self.0.val.load(Ordering::SeqCst)
     }
+    /// [Self::next_deadline] that does not wait if something was emitted since [Self::val] gave `seen`
+    pub fn next_deadline_after(&self, seen: u64, deadline: Option<Instant>) -> Option<u64> {
+        self.wait_event(Some(seen), deadline)
+    }
     pub fn next_deadline(&self, deadline: Option<Instant>) -> Option<u64> {
+        self.wait_event(None, deadline)
+    }
+    fn wait_event(&self, seen: Option<u64>, deadline: Option<Instant>) -> Option<u64> {
         tracing::trace!(ptr=%format!("{:p}",&self.0.val)
                         ,val=&self.0.val.load(Ordering::Relaxed),"Waiting");
         let mut listener = EventListener::new(&self.0.proc);
         let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
         listener.as_mut().listen();
+        let val = self.val();
+        if seen.is_some_and(|seen| seen != val) {
+            return Some(val);
+        }
         match deadline {
             Some(d) => {
                 if listener.as_mut().wait_deadline(d).is_none() {
-- 
2.43.0


From 68c126c1e7dc6c7c714f2b18ded87ed861cb8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 59/86] fix: an interrupted read in the header of a packet lost
 its place in the stream

---
 crates/common/src/pkt_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_reader.rs b/crates/common/src/pkt_reader.rs
index b8e2e62..7c08a64 100644
--- a/crates/common/src/pkt_reader.rs
+++ b/crates/common/src/pkt_reader.rs
@@ -58,7 +58,8 @@ impl<T: Read> Iterator for NetPktDecoder<T> {
                         buf = &mut tmp[n..];
                     }
                     Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => return None,
-                    //Err(ref e) if e.kind() == ErrorKind::Interrupted && buf.len() == UPTO_PKT_SIZE => {return None}
+                    // as read_exact does, what was read up to now must not be lost
+                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                     Err(e) => return Some(Err(Error::IO(e))),
                 }
             }
-- 
2.43.0


From 0281c3f58bd1e678ce85cfda5447f18fe7884d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 60/86] fix: encoding the empty space gave an expression that
 does not evaluate

---
 crates/pkt/src/space_fmt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index c0851e4..e81b9e3 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -323,7 +323,11 @@ impl EvalScopeImpl for SpaceFE {
             Ok(start..end)
         }
         fn encode_sp(_: &SpaceFE, b: &[u8], _: &[ABE]) -> ApplyResult<String> {
-            Space::from_slice(b).ok().map(|p| format!("[/{p}]")).into()
+            Space::from_slice(b)
+                .ok()
+                // [/] is no expression
+                .map(|p| if p.is_empty() { "[//]".into() } else { format!("[/{p}]") })
+                .into()
         }
 
         crate::abe::fncs!([
-- 
2.43.0


From c20d5f8eebc820fc21186a5d633420c8c1f7e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 61/86] fix: a delimiter excluded twice was not excluded by
 lk_tokenize_abe

---
 crates/linkspace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index 58e954b..7647305 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -320,7 +320,7 @@ pub mod abe {
         let plain = exclude_ctr
             .iter()
             .filter_map(|v| CtrChar::try_from_char(*v))
-            .fold(0, |a, b| a ^ b as u32);
+            .fold(0, |a, b| a | b as u32);
         for (a, b, c) in tokenize_abe(expr, plain, 0)? {
             if !per_comp(a, b, c) {
                 return Ok(());
-- 
2.43.0


From a8a6d00e7d14bbf842b7bed4ffd5731c56c61f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 62/86] fix: overwriting a local key took effect only if the
 hash of the new claim sorted that way

---
 crates/common/src/protocols/lns/claim.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/claim.rs b/crates/common/src/protocols/lns/claim.rs
index 2963935..f2a5cbd 100644
--- a/crates/common/src/protocols/lns/claim.rs
+++ b/crates/common/src/protocols/lns/claim.rs
@@ -101,7 +101,12 @@ impl Claim {
         links[0].tag[0..8].copy_from_slice(&until.0);
         let path = name.claim_space();
         let group = name.claim_group();
-        let pkt = linkpoint(group, LNS, &path, links, data, Stamp::ZERO, ()).as_netbox();
+        // local claims are set without a vote - the last one set is the one in use
+        let create = match name.name_type() {
+            NameType::Local => now(),
+            NameType::Public => Stamp::ZERO,
+        };
+        let pkt = linkpoint(group, LNS, &path, links, data, create, ()).as_netbox();
         ensure!(*pkt.get_create_stamp() < until);
         Self::from(pkt)
     }
-- 
2.43.0


From 5028ff2e481936f7548b0976822a4b0394f367f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 63/86] fix: public names of more than one component never
 resolved

---
 crates/common/src/protocols/lns/public_claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index e67b03d..6c6e097 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -71,9 +71,12 @@ pub fn walk_live_claims(
         .get_rooted_spacename()
         .into_buf()
         .append(sub);
+    let depth = *rspace.space_depth();
     let mut predicates =
         Query::dgsk(LNS, *parent.claim.pkt.get_group(), rspace, B64([255; 32])).predicates;
-    predicates.depth.add(crate::core::prelude::TestOp::Equal, 2);
+    predicates
+        .depth
+        .add(crate::core::prelude::TestOp::Equal, depth);
     let mut claim_votes: LkHashMap<(Option<Claim>, Vec<RecvPkt>)> = Default::default();
     let mut _count = 0;
     let max_required_votes = (parent.claim.authorities().count() + 1) / 2;
-- 
2.43.0


From 53e0f82409658f16d43d0de743b42d2c70bd752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 64/86] fix: a tie between claims was missed if another claim
 had fewer votes

---
 crates/common/src/protocols/lns/public_claim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index 6c6e097..a55d4d9 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -156,7 +156,7 @@ pub fn walk_live_claims(
     let live = votes_by_claim.pop().unwrap();
     let mut ties: Vec<_> = votes_by_claim
         .into_iter()
-        .take_while(|p| order(&live) == order(p))
+        .filter(|p| order(&live) == order(p))
         .collect();
     if !ties.is_empty() {
         ties.push(live);
-- 
2.43.0


From c227dbc1907ee8ff499f08087939454edfa7f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 65/86] fix: half of the votes ended the count before a claim
 that had them earlier was seen

---
 crates/common/src/protocols/lns/public_claim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index a55d4d9..2a8c9aa 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -79,7 +79,7 @@ pub fn walk_live_claims(
         .add(crate::core::prelude::TestOp::Equal, depth);
     let mut claim_votes: LkHashMap<(Option<Claim>, Vec<RecvPkt>)> = Default::default();
     let mut _count = 0;
-    let max_required_votes = (parent.claim.authorities().count() + 1) / 2;
+    let max_required_votes = parent.claim.authorities().count() / 2 + 1;
     for auth in parent.claim.authorities() {
         _count = 0;
         predicates.pubkey = TestSet::new_eq(auth.into());
-- 
2.43.0


From 68676b72e599c44fa2ab12c417c4f89891a8286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 66/86] fix: reading a point by its place could go on forever

---
 crates/core/src/query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index eb8dedd..3de350d 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -182,6 +182,9 @@ impl Query {
         predicates.domain.add(TestOp::Equal, domain.into());
         predicates.group.add(TestOp::Equal, group.into());
         predicates.rspace_prefix = prefix;
+        predicates
+            .check_space()
+            .expect("no other predicates on depth");
         predicates.pubkey.add(TestOp::Equal, key.into());
         Query {
             predicates,
-- 
2.43.0


From 58b08d995c461d57975f85544b1fb8fad218d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 67/86] fix: [read] gave a point in a space below the one that
 was asked for

---
 crates/common/src/eval/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 8493382..e1e2c2c 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -93,7 +93,9 @@ impl<R: LKS> ReadHash<R> {
         let env = self.0.lk()?;
         let reader = env.get_reader();
 
-        let predicates = Query::dgsk(domain, group, space, key).predicates;
+        let depth = *space.space_depth();
+        let mut predicates = Query::dgsk(domain, group, space, key).predicates;
+        predicates.depth.add(TestOp::Equal, depth);
         let pkt = reader
             .query_tree(query_mode::Order::Desc, &predicates)
             .next()
-- 
2.43.0


From cf24a5f27ef2fdc0d62e36959e5b0c1c6563f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 68/86] fix: the alternative of [/readhash] was only accepted
 if something followed it

---
 crates/common/src/eval/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index e1e2c2c..dff5197 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -157,6 +157,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                 let hash = it.next().context("missing hash")?;
                 let expr = it.next().context("missing expr")?;
                 let alt = it.next();
+                it.next().is_none().then_some(()).context("to many args?")?;
                 let hash = eval(scope, hash)?.concat();
                 let hash: LkHash = LkHash::try_fit_slice(&hash)?;
                 let env = this.0.lk()?;
@@ -164,7 +165,6 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                 match reader.read(&hash)? {
                     None => {
                         let alt = alt.with_context(|| format!("could not find pkt {}", hash))?;
-                        it.next().context("to many args?")?;
                         let r = eval(scope, alt)?.concat();
                         ApplyResult::Value(r)
                     }
-- 
2.43.0


From 817b97467300f77dc23ef9adc504322203d18e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 69/86] fix: [/readhash] evaluated its expression with the
 outer packet

---
 crates/common/src/eval/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index dff5197..fa9f7a3 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -169,7 +169,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                         ApplyResult::Value(r)
                     }
                     Some(pkt) => {
-                        let r = eval(&(scope, pkt_scope(&pkt)), expr)?.concat();
+                        let r = eval(&(pkt_scope(&pkt), scope), expr)?.concat();
                         //drop(pkt); drop(reader);
                         ApplyResult::Value(r)
                     }
-- 
2.43.0


From 46acad290c58de741aa1993a730d82f7346b10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 70/86] fix: [/lns] and [/private-lns] evaluated their
 expression with the outer packet

---
 crates/common/src/protocols/lns/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/protocols/lns/eval.rs b/crates/common/src/protocols/lns/eval.rs
index f9a1b19..87677ef 100644
--- a/crates/common/src/protocols/lns/eval.rs
+++ b/crates/common/src/protocols/lns/eval.rs
@@ -171,7 +171,7 @@ impl<R: LKS> EvalScopeImpl for NetLNS<R> {
                 ast::exact::<0>(_empty)?;
                 let name: Name = eval(scope, it.as_slice())?.try_into()?;
                 let claim = this.get_claim(name)?;
-                let v: ApplyResult = eval(&(scope, pkt_scope(&claim.pkt)), expr)
+                let v: ApplyResult = eval(&(pkt_scope(&claim.pkt), scope), expr)
                     .map(|v| v.concat())
                     .map_err(|e| anyhow!(e.to_string()))
                     .into();
@@ -249,7 +249,7 @@ impl<R: LKS> EvalScopeImpl for PrivateLNS<R> {
                 ast::exact::<0>(_empty)?;
                 let name: Name = eval(scope, it.as_slice())?.try_into()?;
                 let claim = this.get_claim(name)?.context("cant find claim")?;
-                let v: ApplyResult = eval(&(scope, pkt_scope(&claim.pkt)), expr)
+                let v: ApplyResult = eval(&(pkt_scope(&claim.pkt), scope), expr)
                     .map(|v| v.concat())
                     .map_err(|e| anyhow!(e.to_string()))
                     .into();
-- 
2.43.0


From 4420cef8f5956447a1e59e13eda9809b4062d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 71/86] fix: [readhash:..:recv] and [read:..:recv] gave now in
 place of when the point was received

---
 crates/common/src/eval/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index fa9f7a3..a775ed4 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -102,7 +102,7 @@ impl<R: LKS> ReadHash<R> {
             .context("no matching packet")?;
         let id = inp.get(4).copied().unwrap_or(b"pkt");
         let args = inp.get(5..).unwrap_or(&[]);
-        let r = pkt_scope(&*pkt).try_apply_func(id, args, true, scope);
+        let r = pkt_scope(&pkt).try_apply_func(id, args, true, scope);
         drop(reader);
         match r.into_opt() {
             Some(o) => o,
@@ -126,7 +126,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                     let reader = env.get_reader();
                     let pkt = reader.read(&hash)?.with_context(||format!("could not find pkt {}",hash))?;
                     let (id, args) = inp[1..].split_first().unwrap_or((&{b"pkt" as &[u8]},&[]));
-                    let r = pkt_scope(&*pkt).try_apply_func(id, args, true,scope);
+                    let r = pkt_scope(&pkt).try_apply_func(id, args, true,scope);
                     drop(reader);
                     r
                 },
-- 
2.43.0


From 199ea9ac0f63ce1088e605aa9839d6de2dca7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 72/86] fix: a status was set in reply to requests of other
 domains and groups

---
 crates/linkspace/src/conventions/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index bcd88e9..e6970a1 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -212,6 +212,8 @@ pub fn lk_status_set(
     std::mem::drop(initpkt);
 
     let mut q = lk_query(&Q);
+    q = lk_query_push(q, "group", "=", &*PRIVATE)?;
+    q = lk_query_push(q, "domain", "=", &*domain)?;
     let prefix = lk_status_space(LkStatus {
         instance: None,
         ..status
-- 
2.43.0


From b883727cd43e58e78b8b80a1fe577aebfa8c8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 73/86] fix: a recent point without links or without data
 passed as a status reply

---
 crates/linkspace/src/conventions/status.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index e6970a1..f2bb221 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -132,6 +132,9 @@ pub fn lk_status_watch(
             last_request = *pkt.get_create_stamp();
             tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             false
+        } else if pkt.get_links().is_empty() || pkt.data().is_empty() {
+            tracing::debug!(pkt=%PktFmt(&pkt),"not a reply");
+            false
         } else {
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
-- 
2.43.0


From 82e78fc822bd6c449f26aed43e7203a17962a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 74/86] fix: a status watch waited from the request it found
 last, not from the most recent one

---
 crates/linkspace/src/conventions/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index f2bb221..ee1cdcc 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -129,7 +129,7 @@ pub fn lk_status_watch(
     // We want to capture any old request, so we first lk_get_all both requests and replies.
     lk_get_all(lk, &query, &mut |pkt| {
         if pkt.get_links().is_empty() && pkt.data().is_empty() {
-            last_request = *pkt.get_create_stamp();
+            last_request = last_request.max(*pkt.get_create_stamp());
             tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             false
         } else if pkt.get_links().is_empty() || pkt.data().is_empty() {
-- 
2.43.0


From 3ac41247abcd3c188d41aad0c89330ff6b0e96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 75/86] fix: lk_pull panicked if the qid can not be part of a
 space

---
 crates/linkspace/src/conventions/pull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/pull.rs b/crates/linkspace/src/conventions/pull.rs
index d9890ca..9c2ee63 100644
--- a/crates/linkspace/src/conventions/pull.rs
+++ b/crates/linkspace/src/conventions/pull.rs
@@ -42,7 +42,8 @@ pub fn lk_pull_point(query: &Query) -> LkResult<NetPktBox> {
         .context("missing :qid:... option")?;
     let data = query.0.to_string();
     tracing::trace!(data);
-    let pull_space = rspace_buf(&[b"pull", &*group, &*domain, id]);
+    let pull_space = RootedSpaceBuf::try_from_iter([b"pull" as &[u8], &*group, &*domain, id])
+        .context("cant use :qid:... as a space component")?;
     let pkt = lk_linkpoint(
         data.as_bytes(),
         EXCHANGE_DOMAIN,
-- 
2.43.0


From c7aec55575ef3072cab3e963a7bb3ecf55b5de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 76/86] fix: data reader: overflowing data was reordered by
 carry, and lost after the last read

---
 crates/common/src/cli/reader.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/crates/common/src/cli/reader.rs b/crates/common/src/cli/reader.rs
index 60766c3..05c8154 100644
--- a/crates/common/src/cli/reader.rs
+++ b/crates/common/src/cli/reader.rs
@@ -236,21 +236,21 @@ impl Reader {
         freespace: usize,
         buf: &mut Vec<u8>,
     ) -> anyhow::Result<Option<()>> {
-        if self.call_limit == 0 {
-            return Ok(None);
-        }
-
+        // what is left of a previous read does not count as a read
         if let Some(mut b) = self.next.take() {
             if self.on_overflow == EMode::Carry {
                 self.read_next_data(scope, freespace, buf)?;
-                b.extend_from_slice(buf);
-                *buf = b;
-            } else {
-                *buf = b;
+                b.append(buf);
+                b.extend(self.next.take().unwrap_or_default());
             }
+            *buf = b;
             self.check_size(buf, freespace)?;
             return Ok(Some(()));
         }
+
+        if self.call_limit == 0 {
+            return Ok(None);
+        }
         let take = self.take_max.unwrap_or(freespace) as u64;
 
         self.call_limit -= 1;
@@ -283,12 +283,6 @@ impl Reader {
         Ok(Some(()))
     }
     fn check_size(&mut self, buf: &mut Vec<u8>, freespace: usize) -> anyhow::Result<()> {
-        if self.on_overflow == EMode::Carry {
-            if let Some(mut carry) = self.next.take() {
-                carry.extend_from_slice(buf);
-                *buf = carry;
-            }
-        }
         if freespace < buf.len() {
             match self.on_overflow {
                 EMode::Error => anyhow::bail!(
-- 
2.43.0


From 6943137bdf6a7a1db8d15ab454c89ba8dcc95aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 77/86] fix: dedup: a capacity of 0 divided by zero, and the
 hash was read unaligned

---
 crates/common/src/pkt_stream_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_stream_utils.rs b/crates/common/src/pkt_stream_utils.rs
index aa0f296..7e4d3dd 100644
--- a/crates/common/src/pkt_stream_utils.rs
+++ b/crates/common/src/pkt_stream_utils.rs
@@ -58,7 +58,10 @@ impl QuickDedup {
         }
     }
     pub fn probable_contains(&mut self, h: LkHash) -> bool {
-        let i: usize = unsafe { *(&h.0 as *const [u8; 32] as *const usize) };
+        if self.bufs.is_empty() {
+            return false;
+        }
+        let i = u64::from_ne_bytes(h.0[..8].try_into().unwrap()) as usize;
         let idx = i % self.bufs.len();
         let r = self.bufs[idx] == h;
         self.bufs[idx] = h;
-- 
2.43.0


From ca59b25c07b7e436f97905c581da0335c5ac93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 78/86] fix: get-links: an error on a link of a link was
 dropped, and the command went on

---
 cli/linkspace/src/get_links.rs | 37 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/cli/linkspace/src/get_links.rs b/cli/linkspace/src/get_links.rs
index cfbb567..852cfd3 100644
--- a/cli/linkspace/src/get_links.rs
+++ b/cli/linkspace/src/get_links.rs
@@ -1,4 +1,8 @@
-use std::{cell::RefCell, rc::Rc};
+use std::{
+    cell::{Cell, RefCell},
+    ops::ControlFlow,
+    rc::Rc,
+};
 
 use crate::*;
 use anyhow::bail;
@@ -53,17 +57,32 @@ pub fn get_links(
         let qid = [&count_be as &[u8], &*link.ptr].concat();
         let q = lk_query_push(lk_hash_query(link.ptr), "", "qid", &qid)?;
         let print_fnc = out.clone();
+        // an error in the callback only stops its watch
+        let failed = Rc::new(Cell::new(None));
+        let set_failed = failed.clone();
         let res = lk_watch(
             lk,
             &q,
-            try_cb(move |p, lk| -> anyhow::Result<()> {
-                print_fnc.borrow_mut()(p)?;
-                if level > 0 {
-                    get_links(lk, p, level - 1, mode, print_fnc.clone())?;
+            try_cb(move |p, lk| -> ControlFlow<()> {
+                let mut handle = || -> anyhow::Result<()> {
+                    print_fnc.borrow_mut()(p)?;
+                    if level > 0 {
+                        get_links(lk, p, level - 1, mode, print_fnc.clone())?;
+                    }
+                    Ok(())
+                };
+                match handle() {
+                    Ok(()) => ControlFlow::Continue(()),
+                    Err(e) => {
+                        set_failed.set(Some(e));
+                        ControlFlow::Break(())
+                    }
                 }
-                Ok(())
             }),
         )?;
+        if let Some(e) = failed.take() {
+            return Err(e);
+        }
         if res != 0 {
             continue;
         }
@@ -78,7 +97,11 @@ pub fn get_links(
             }
             GetLinksMode::Pause => {
                 tracing::debug!("Pause on {link} in {} not found", pkt.hash());
-                if lk_process_while(lk, Some(&*qid), Stamp::ZERO)? == 0 {
+                let found = lk_process_while(lk, Some(&*qid), Stamp::ZERO)?;
+                if let Some(e) = failed.take() {
+                    return Err(e);
+                }
+                if found == 0 {
                     bail!("link {link} not found (from {})", pkt.hash())
                 }
             }
-- 
2.43.0


From daee6819882bd87a6b57b3260bc1486d11216bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 79/86] fix: watch: a query without a :qid: panicked in place
 of an error

---
 crates/common/src/runtime/rx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 009304a..a24c9b1 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -380,7 +380,7 @@ impl Linkspace {
         let id: &[u8] = query
             .qid()?
             .flatten()
-            .expect("watch always requires a :qid:...  option");
+            .context("watch always requires a :qid:...  option")?;
         let follow = query.get_known_opt(KnownOptions::Follow)?;
         let start = None; //query.get_known_opt(KnownOptions::Start).map(|v| Ptr::try_from(v.clone())).transpose()?;
                           // TODO span should already have these fields.
-- 
2.43.0


From f885bd0646174753170d80176a74bff34cfe53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 80/86] fix: multi-watch: statements of an --or that could not
 be met stayed in the query

---
 cli/linkspace/src/multi_watch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/linkspace/src/multi_watch.rs b/cli/linkspace/src/multi_watch.rs
index 8e02d62..316ac02 100644
--- a/cli/linkspace/src/multi_watch.rs
+++ b/cli/linkspace/src/multi_watch.rs
@@ -84,7 +84,9 @@ pub fn setup_watch(
 
     let mut ok = mv.constraint.or.is_empty();
     for opt in mv.constraint.or.iter() {
-        if query.parse(opt.as_bytes(), &cli_scope).is_ok() {
+        let mut with_opt = query.clone();
+        if with_opt.parse(opt.as_bytes(), &cli_scope).is_ok() {
+            query = with_opt;
             ok = true;
             break;
         }
-- 
2.43.0


From 6d08aff1c1e8adbe2032d382019e660a74dcdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 81/86] fix: SpaceBuf::components refused every space that is
 not empty

---
 crates/pkt/src/space.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index 75f2e8f..5b52861 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -232,8 +232,8 @@ impl SpaceBuf {
     }
 
     pub fn components(&self) -> Result<Vec<Vec<u8>>, SpaceError> {
-        let iter = self.as_ref().iter();
-        let res = iter.map(Vec::from).collect();
+        let mut iter = self.as_ref().iter();
+        let res = iter.by_ref().map(Vec::from).collect();
         if iter.space.inner_bytes.is_empty() {
             Ok(res)
         } else {
-- 
2.43.0


From 6aa474caa1fc886856e59fb46214eeaca6a1050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:53 +0000
Subject: [PATCH 82/86] fix: a packet box was freed with another layout than it
 was allocated with

---
 crates/pkt/src/netpkt/netpkt_ptr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/netpkt/netpkt_ptr.rs b/crates/pkt/src/netpkt/netpkt_ptr.rs
index 7483735..662dcba 100644
--- a/crates/pkt/src/netpkt/netpkt_ptr.rs
+++ b/crates/pkt/src/netpkt/netpkt_ptr.rs
@@ -213,11 +213,14 @@ pub fn netpktbox_layout(
     pkt_header: &PointHeader,
 ) -> (std::alloc::Layout, <NetPktFatPtr as ptr::Pointee>::Metadata) {
     use std::alloc::Layout;
-    let clen: usize = pkt_header.padded_content_size().div_ceil(8).into();
+    // the layout of the NetPktFatPtr, a box of it is freed as such
+    let clen: usize = pkt_header.padded_content_size().into();
     let layout = Layout::new::<PartialNetHeader>()
-        .extend(Layout::new::<u64>().repeat(clen).unwrap().0)
+        .extend(Layout::array::<u8>(clen).unwrap())
         .unwrap()
         .0
+        .align_to(std::mem::align_of::<NetPktPtr>())
+        .unwrap()
         .pad_to_align();
     (layout, clen)
 }
-- 
2.43.0


From c531fb0cccc987823d05485dd6dae9dfeb867163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:36 +0000
Subject: [PATCH 83/86] fix: threads that opened a folder at the same time got
 sessions that did not notify each other

---
 crates/common/src/static_env.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/common/src/static_env.rs b/crates/common/src/static_env.rs
index 3dbff1d..e9246ee 100644
--- a/crates/common/src/static_env.rs
+++ b/crates/common/src/static_env.rs
@@ -30,19 +30,14 @@ pub fn get_env(path: &Path, mkdir: bool) -> io::Result<BTreeEnv> {
         }
         Err(e) => return Err(e),
     };
-    if let Some(v) = ENVS
-        .read()
-        .unwrap()
-        .as_ref()
-        .and_then(|o| o.get(&handle).cloned())
-    {
-        return Ok(v);
+    // held while opening, or threads that start together get a session each
+    let mut envs = ENVS.write().unwrap();
+    let envs = envs.get_or_insert_default();
+    if let Some(v) = envs.get(&handle) {
+        return Ok(v.clone());
     }
     let env = BTreeEnv::open(path.to_owned(), mkdir)?;
-    ENVS.write()
-        .unwrap()
-        .get_or_insert_default()
-        .insert(handle, env.clone());
+    envs.insert(handle, env.clone());
     Ok(env)
 }
 
-- 
2.43.0


From 5b2e16e8978f8c923b9c4f4030e15713a28a2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:11 +0000
Subject: [PATCH 84/86] fix: multi-watch ended the answer of a query at a
 packet it may not write

---
 crates/common/src/cli/opts.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/common/src/cli/opts.rs b/crates/common/src/cli/opts.rs
index 3d22d27..e1a9516 100644
--- a/crates/common/src/cli/opts.rs
+++ b/crates/common/src/cli/opts.rs
@@ -241,12 +241,11 @@ impl CommonOpts {
         }
     }
     pub fn stdout_writer(&self) -> impl PktStreamHandler {
-        let allow_private = self.write_private().unwrap_or(false);
         let mut out = std::io::stdout();
         let scope = self.clone();
         move |p: &dyn NetPkt, _rx: &Linkspace| -> std::io::Result<()> {
-            if !allow_private {
-                p.check_private().map_err(|e| e.io())?
+            if scope.check_private(p).map_err(|e| e.io())?.is_none() {
+                return Ok(());
             }
             write_pkt2(&None, p, &scope.eval_scope(), &mut out)
         }
-- 
2.43.0


From e7cca0a0c67238950a5c6775d5ac513ea2b90d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:52 +0000
Subject: [PATCH 85/86] fix: a status watch went on after its handler had
 enough

---
 crates/linkspace/src/conventions/status.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index ee1cdcc..a89ece7 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -117,13 +117,14 @@ pub fn lk_status_watch(
     d_timeout: Stamp,
     mut cb: impl crate::runtime::cb::PktHandler + 'static,
 ) -> LkResult<bool> {
-    use crate::runtime::{lk_get_all, lk_watch2};
+    use crate::runtime::{lk_get_all, lk_stop, lk_watch2};
     use linkspace_common::prelude::{U16, U32};
     use tracing::debug_span;
 
     let span = debug_span!("status_poll", ?status, ?d_timeout);
     let _ = span.enter();
     let mut ok = false;
+    let mut stopped = false;
     let mut last_request = Stamp::ZERO;
     let mut query: Query = lk_status_overwatch(status, d_timeout)?;
     // We want to capture any old request, so we first lk_get_all both requests and replies.
@@ -139,9 +140,14 @@ pub fn lk_status_watch(
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
             tracing::debug!("recently replied");
-            cnt.is_break()
+            stopped = cnt.is_break();
+            stopped
         }
     })?;
+    if stopped {
+        lk_stop(lk, status.qid, false);
+        return Ok(ok);
+    }
     if last_request == Stamp::ZERO {
         tracing::debug!("creating new req");
         let req = lk_status_request(status).unwrap();
-- 
2.43.0


From de55168f63dd2408564e32f99fb601c687b78ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 86/86] fix: get-links in pause mode could not wait for the
 links of a packet that came late

---
 cli/linkspace/src/get_links.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cli/linkspace/src/get_links.rs b/cli/linkspace/src/get_links.rs
index 852cfd3..68994a5 100644
--- a/cli/linkspace/src/get_links.rs
+++ b/cli/linkspace/src/get_links.rs
@@ -60,6 +60,9 @@ pub fn get_links(
         // an error in the callback only stops its watch
         let failed = Rc::new(Cell::new(None));
         let set_failed = failed.clone();
+        // waiting is not possible during a callback
+        let follow = Rc::new(RefCell::new(None));
+        let set_follow = follow.clone();
         let res = lk_watch(
             lk,
             &q,
@@ -67,7 +70,11 @@ pub fn get_links(
                 let mut handle = || -> anyhow::Result<()> {
                     print_fnc.borrow_mut()(p)?;
                     if level > 0 {
-                        get_links(lk, p, level - 1, mode, print_fnc.clone())?;
+                        if matches!(mode, GetLinksMode::Pause) {
+                            *set_follow.borrow_mut() = Some(p.as_netbox());
+                        } else {
+                            get_links(lk, p, level - 1, mode, print_fnc.clone())?;
+                        }
                     }
                     Ok(())
                 };
@@ -83,6 +90,9 @@ pub fn get_links(
         if let Some(e) = failed.take() {
             return Err(e);
         }
+        if let Some(p) = follow.take() {
+            get_links(lk, &p, level - 1, mode, out.clone())?;
+        }
         if res != 0 {
             continue;
         }
@@ -104,6 +114,9 @@ pub fn get_links(
                 if found == 0 {
                     bail!("link {link} not found (from {})", pkt.hash())
                 }
+                if let Some(p) = follow.take() {
+                    get_links(lk, &p, level - 1, mode, out.clone())?;
+                }
             }
             GetLinksMode::Error => bail!("link {link} not found (from {})", pkt.hash()),
         };
-- 
2.43.0

