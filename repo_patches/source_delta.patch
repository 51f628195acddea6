From 3ded2579ed064436c9f3ebfba139e65dd65bd4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 01/21] fix: report an empty writeConstraint as an error
 instead of panicking

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..3d63f6a 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::UnknownWriteConstraint.at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0


From 2ea0288561e078733ed4c23b98bdb8e805be5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 02/21] fix: reject bit ranges that overflow or have extra
 parts, accept surrounding whitespace

---
 svd-parser/src/bitrange.rs | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..f9918bd 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -18,9 +18,10 @@ impl Parse for BitRange {
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
         let (end, start, range_type): (u32, u32, BitRangeType) =
             if let Some(range) = tree.get_child("bitRange") {
-                let text = range.text().ok_or_else(|| {
-                    SVDError::InvalidBitRange(InvalidBitRange::Empty).at(tree.id())
-                })?;
+                let text = range
+                    .text()
+                    .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Empty).at(tree.id()))?
+                    .trim();
                 if !text.starts_with('[') {
                     return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
                     // TODO: Maybe have a MissingOpen/MissingClosing variant
@@ -31,7 +32,7 @@ impl Parse for BitRange {
                 }
 
                 let mut parts = text[1..text.len() - 1].split(':');
-                (
+                let (msb, lsb) = (
                     parts
                         .next()
                         .ok_or_else(|| {
@@ -50,8 +51,11 @@ impl Parse for BitRange {
                         .map_err(|_| {
                             SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
                         })?,
-                    BitRangeType::BitRange,
-                )
+                );
+                if parts.next().is_some() {
+                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
+                }
+                (msb, lsb, BitRangeType::BitRange)
             // TODO: Consider matching instead so we can say which of these tags are missing
             } else if let (Some(lsb), Some(msb)) = (tree.get_child("lsb"), tree.get_child("msb")) {
                 (
@@ -69,22 +73,27 @@ impl Parse for BitRange {
             {
                 // Special case because offset and width are directly provided
                 // (ie. do not need to be calculated as in the final step)
+                // TODO: capture that error comes from offset/width tag
+                // TODO: `u32::parse` should not hide it's errors
+                let offset = u32::parse(&offset, &()).map_err(|_| {
+                    SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
+                })?;
+                let width = u32::parse(&width, &()).map_err(|_| {
+                    SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
+                })?;
+                if offset.checked_add(width).is_none() {
+                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
+                }
                 return Ok(BitRange {
-                    // TODO: capture that error comes from offset/width tag
-                    // TODO: `u32::parse` should not hide it's errors
-                    offset: u32::parse(&offset, &()).map_err(|_| {
-                        SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
-                    })?,
-                    width: u32::parse(&width, &()).map_err(|_| {
-                        SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
-                    })?,
+                    offset,
+                    width,
                     range_type: BitRangeType::OffsetWidth,
                 });
             } else {
                 return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
             };
 
-        if start > end {
+        if start > end || end == u32::MAX {
             return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
         }
         Ok(Self {
-- 
2.43.0


From 5cd69abae878db994dbc24dec0f80893c572a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 03/21] fix: refuse reversed and overflowing bit ranges when
 reading text or serde data

---
 svd-rs/src/bitrange.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..2b747e5 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -68,6 +68,9 @@ impl BitRange {
         let mut parts = text[1..text.len() - 1].split(':');
         let msb = parts.next()?.parse::<u32>().ok()?;
         let lsb = parts.next()?.parse::<u32>().ok()?;
+        if parts.next().is_some() || lsb > msb || msb == u32::MAX {
+            return None;
+        }
         Some(Self {
             offset: lsb,
             width: msb - lsb + 1,
@@ -139,7 +142,12 @@ mod ser_de {
                     bit_offset,
                     bit_width,
                 } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
-                SerBitRange::MsbLsb { msb, lsb } => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                SerBitRange::MsbLsb { msb, lsb } if lsb <= msb && msb < u32::MAX => {
+                    Ok(BitRange::from_msb_lsb(msb, lsb))
+                }
+                SerBitRange::MsbLsb { .. } => {
+                    Err(serde::de::Error::custom("Invalid msb and lsb values"))
+                }
             }
         }
     }
-- 
2.43.0


From 90ed4a3ad67596705b8013b63478aa3dcd044c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:37 +0000
Subject: [PATCH 04/21] fix: dimIndex items with spaces around them, and the
 overflow for indexes up to 2^32-1

---
 svd-rs/src/dimelement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..02de240 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -160,7 +160,7 @@ impl DimElement {
                 }
             }
         } else {
-            Some(text.split(',').map(|s| s.to_string()).collect())
+            Some(text.split(',').map(|s| s.trim().to_string()).collect())
         })
         .filter(|v| !v.is_empty())
     }
@@ -178,7 +178,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if max - min != self.dim - 1 {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
-- 
2.43.0


From d0dbed2d4f2382b226d33fb6fb7d8a800046c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:54 +0000
Subject: [PATCH 05/21] fix: reversed address sorting for values of 0x8000_0000
 and above

---
 svd-encoder/src/device.rs     | 2 +-
 svd-encoder/src/peripheral.rs | 2 +-
 svd-encoder/src/register.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..7d73705 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -99,7 +99,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
+                refs.sort_by_key(|p| std::cmp::Reverse(p.base_address));
             }
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..156331e 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -144,7 +144,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
+                refs.sort_by_key(|r| std::cmp::Reverse(r.address_offset()));
             }
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..2418c97 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -116,7 +116,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
+                refs.sort_by_key(|f| std::cmp::Reverse(f.bit_offset()));
             }
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
-- 
2.43.0


From 75e30ae88501b2ffae45692653e6f4b4ae7c2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:54 +0000
Subject: [PATCH 06/21] fix: FieldInfoBuilder::bit_offset called after
 bit_width

---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 697ce5887996d65ddfc7e68828f14444b54be3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:54 +0000
Subject: [PATCH 07/21] fix: EnumeratedValues::modify_from drops the
 derivedFrom it is given

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From f7c9f46a48061f3a0ceb70524f43099d17520205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:54 +0000
Subject: [PATCH 08/21] fix: arrays without dimIndex become single elements
 when deserialized

---
 svd-rs/src/dimelement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 02de240..0704a74 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -22,6 +22,7 @@ pub struct DimElement {
     #[cfg_attr(
         feature = "serde",
         serde(
+            default,
             deserialize_with = "ser_de::deserialize_dim_index",
             serialize_with = "ser_de::serialize_dim_index",
             skip_serializing_if = "Option::is_none"
-- 
2.43.0


From 4f8faab7b33f870d6a5c20c4b5bfe107d4fedb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 09/21] fix: accept upper case X don't-care digits in 0b
 literals as in # literals

---
 svd-parser/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/types.rs b/svd-parser/src/types.rs
index 878897e..6345302 100644
--- a/svd-parser/src/types.rs
+++ b/svd-parser/src/types.rs
@@ -27,7 +27,10 @@ impl Parse for u32 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u32::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u32::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u32>()
         })
@@ -57,7 +60,10 @@ impl Parse for u64 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u64::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u64::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u64>()
         })
-- 
2.43.0


From 8d64452a1543caedbacd051b0991e3f25603de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 10/21] fix: derive a register's dataType and a cluster's
 description

---
 svd-rs/src/derive_from.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index 9578852..2ba0239 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -13,6 +13,7 @@ pub trait DeriveFrom {
 impl DeriveFrom for ClusterInfo {
     fn derive_from(&self, other: &Self) -> Self {
         let mut derived = self.clone();
+        derived.description = derived.description.or_else(|| other.description.clone());
         derived.default_register_properties = derived
             .default_register_properties
             .derive_from(&other.default_register_properties);
@@ -71,6 +72,7 @@ impl DeriveFrom for RegisterInfo {
         let mut derived = self.clone();
         derived.description = derived.description.or_else(|| other.description.clone());
         derived.properties = derived.properties.derive_from(&other.properties);
+        derived.datatype = derived.datatype.or(other.datatype);
         derived.fields = derived.fields.or_else(|| other.fields.clone());
         derived.write_constraint = derived.write_constraint.or(other.write_constraint);
         derived.read_action = derived.read_action.or(other.read_action);
-- 
2.43.0


From d5e9792d192a0f933d62705a103cd398b6455634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:32 +0000
Subject: [PATCH 11/21] fix: keep the path of the element that children are
 taken from in chained derivations

---
 svd-parser/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..7236c32 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -412,7 +412,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -447,7 +447,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -482,7 +482,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -647,7 +647,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+        path = derive_peripheral(p, dpath, index)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From 527d1b50da3cbaf48fd947e68902107973f0c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:32 +0000
Subject: [PATCH 12/21] fix: resolve a field's derivedFrom of the form
 REGISTER.FIELD instead of panicking

---
 svd-parser/src/expand.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 7236c32..2ef3ccd 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -458,16 +458,19 @@ pub fn derive_field(
     rpath: &RegisterPath,
     index: &Index,
 ) -> Result<Option<FieldPath>> {
-    let (dregister, dname) = FieldPath::parse_str(dpath);
-    let rdpath;
-    let field_path;
-    if let Some(dregister) = dregister {
-        field_path = dregister.new_field(dname);
-        rdpath = dregister;
-    } else {
-        field_path = rpath.new_field(dname);
-        rdpath = rpath.clone();
-    }
+    let (rdpath, dname) = match dpath.rsplit_once('.') {
+        None => (rpath.clone(), dpath),
+        Some((register, dname)) => {
+            let rdpath = match RegisterPath::parse_str(register) {
+                // FULL.PATH.FIELD
+                (Some(block), rdname) => block.new_register(rdname),
+                // REG.FIELD
+                (None, rdname) => rpath.block.new_register(rdname),
+            };
+            (rdpath, dname)
+        }
+    };
+    let field_path = rdpath.new_field(dname);
     if &rdpath == rpath && dname == &f.name {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
-- 
2.43.0


From ebaec37bb6a8b5044a50c59d389438e727742bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 13/21] fix: detect derivation cycles that do not pass through
 the element being derived

---
 svd-parser/src/expand.rs | 90 +++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 14 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 2ef3ccd..7531137 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -387,6 +387,17 @@ pub fn derive_cluster(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<BlockPath>> {
+    let mut chain = vec![path.new_cluster(&c.name)];
+    derive_cluster_chain(c, dpath, path, index, &mut chain)
+}
+
+fn derive_cluster_chain(
+    c: &mut Cluster,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    chain: &mut Vec<BlockPath>,
 ) -> Result<Option<BlockPath>> {
     let (dparent, dname) = BlockPath::parse_str(dpath);
     let rdpath;
@@ -398,9 +409,10 @@ pub fn derive_cluster(
         cluster_path = path.new_cluster(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &c.name {
+    if chain.contains(&cluster_path) {
         return Err(anyhow!("Cluster {cluster_path} is self-derived"));
     }
+    chain.push(cluster_path.clone());
     let d = index
         .clusters
         .get(&cluster_path)
@@ -412,7 +424,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
+        cpath = derive_cluster_chain(c, dpath, &rdpath, index, chain)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -422,6 +434,17 @@ pub fn derive_register(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<RegisterPath>> {
+    let mut chain = vec![path.new_register(&r.name)];
+    derive_register_chain(r, dpath, path, index, &mut chain)
+}
+
+fn derive_register_chain(
+    r: &mut Register,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    chain: &mut Vec<RegisterPath>,
 ) -> Result<Option<RegisterPath>> {
     let (dblock, dname) = RegisterPath::parse_str(dpath);
     let rdpath;
@@ -433,9 +456,10 @@ pub fn derive_register(
         reg_path = path.new_register(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &r.name {
+    if chain.contains(&reg_path) {
         return Err(anyhow!("Register {reg_path} is self-derived"));
     }
+    chain.push(reg_path.clone());
     let d = index
         .registers
         .get(&reg_path)
@@ -447,7 +471,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
+        rpath = derive_register_chain(r, dpath, &rdpath, index, chain)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -457,6 +481,17 @@ pub fn derive_field(
     dpath: &str,
     rpath: &RegisterPath,
     index: &Index,
+) -> Result<Option<FieldPath>> {
+    let mut chain = vec![rpath.new_field(&f.name)];
+    derive_field_chain(f, dpath, rpath, index, &mut chain)
+}
+
+fn derive_field_chain(
+    f: &mut Field,
+    dpath: &str,
+    rpath: &RegisterPath,
+    index: &Index,
+    chain: &mut Vec<FieldPath>,
 ) -> Result<Option<FieldPath>> {
     let (rdpath, dname) = match dpath.rsplit_once('.') {
         None => (rpath.clone(), dpath),
@@ -471,9 +506,10 @@ pub fn derive_field(
         }
     };
     let field_path = rdpath.new_field(dname);
-    if &rdpath == rpath && dname == &f.name {
+    if chain.contains(&field_path) {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
+    chain.push(field_path.clone());
     let d = index
         .fields
         .get(&field_path)
@@ -485,7 +521,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
+        fpath = derive_field_chain(f, dpath, &rdpath, index, chain)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -574,6 +610,20 @@ pub fn derive_enumerated_values(
     if Some(dpath) == ev.name.as_deref() {
         return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
     }
+    let mut chain = Vec::new();
+    if let Some(name) = ev.name.as_deref() {
+        chain.push(fpath.new_enum(name));
+    }
+    derive_enumerated_values_chain(ev, dpath, fpath, index, &mut chain)
+}
+
+fn derive_enumerated_values_chain(
+    ev: &mut EnumeratedValues,
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index,
+    chain: &mut Vec<EnumPath>,
+) -> Result<EnumPath> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -608,17 +658,18 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
         index.evs.get(&epath).map(|d| (d, epath))
     };
 
     if let Some((d, epath)) = d {
+        if chain.contains(&epath) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        chain.push(epath.clone());
         *ev = ev.derive_from(d);
         if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
+            derive_enumerated_values_chain(ev, dpath, &epath.field, index, chain)
         } else {
             Ok(epath)
         }
@@ -636,11 +687,22 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
-        return Err(anyhow!("Peripheral {dpath} is self-derived"));
-    }
+    let mut chain = vec![BlockPath::new(&p.name)];
+    derive_peripheral_chain(p, dpath, index, &mut chain)
+}
+
+fn derive_peripheral_chain(
+    p: &mut Peripheral,
+    dpath: &str,
+    index: &Index,
+    chain: &mut Vec<BlockPath>,
+) -> Result<Option<BlockPath>> {
     let mut path = None;
     let derpath = BlockPath::new(dpath);
+    if chain.contains(&derpath) {
+        return Err(anyhow!("Peripheral {dpath} is self-derived"));
+    }
+    chain.push(derpath.clone());
     let d = index
         .peripherals
         .get(&derpath)
@@ -650,7 +712,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?.or(path);
+        path = derive_peripheral_chain(p, dpath, index, chain)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From f75bc78e216b30a32d80672576f83d1a46c2f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 14/21] fix: report a cluster derived from one that contains it
 instead of recursing without end

---
 svd-parser/src/expand.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 7531137..1d48c67 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -346,9 +346,10 @@ fn expand_register_cluster(
     rc: RegisterCluster,
     path: &BlockPath,
     index: &Index,
+    active: &mut Vec<BlockPath>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, active)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
@@ -359,7 +360,15 @@ fn expand_cluster_array(
     mut c: Cluster,
     path: &BlockPath,
     index: &Index,
+    active: &mut Vec<BlockPath>,
 ) -> Result<()> {
+    // A cluster derived from one that contains it would contain itself without end
+    let origin = path.new_cluster(&c.name);
+    if active.contains(&origin) {
+        return Err(anyhow!("Cluster {origin} contains itself"));
+    }
+    active.push(origin);
+
     let mut cpath = None;
     let dpath = c.derived_from.take();
     if let Some(dpath) = dpath {
@@ -368,8 +377,9 @@ fn expand_cluster_array(
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, active)?;
     }
+    active.pop();
 
     match c {
         Cluster::Single(c) => expand_cluster(regs, c),
@@ -734,7 +744,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0


From 2f1117ca3fb55e4966c73c2516f5e027daabc7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:52 +0000
Subject: [PATCH 15/21] fix: return an error when expansion overflows addresses
 instead of panicking or wrapping

---
 svd-parser/src/expand.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 1d48c67..3aa5469 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -6,7 +6,7 @@ use std::fmt;
 use std::mem::take;
 use svd_rs::{
     array::names, cluster, field, peripheral, register, Cluster, ClusterInfo, DeriveFrom, Device,
-    EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
+    DimElement, EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
 };
 
 /// Path to `peripheral` or `cluster` element
@@ -382,10 +382,16 @@ fn expand_cluster_array(
     active.pop();
 
     match c {
-        Cluster::Single(c) => expand_cluster(regs, c),
+        Cluster::Single(c) => expand_cluster(regs, c)?,
         Cluster::Array(info, dim) => {
+            check_last_item(
+                &info.name,
+                info.address_offset as u64,
+                &dim,
+                u32::MAX as u64,
+            )?;
             for c in cluster::expand(&info, &dim) {
-                expand_cluster(regs, c);
+                expand_cluster(regs, c)?;
             }
         }
     }
@@ -536,17 +542,30 @@ fn derive_field_chain(
     Ok(fpath)
 }
 
-fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) {
+/// Checks that the address of the last item of an array does not overflow
+fn check_last_item(name: &str, start: u64, dim: &DimElement, limit: u64) -> Result<()> {
+    let shift = dim.dim.saturating_sub(1) as u64 * dim.dim_increment as u64;
+    match start.checked_add(shift) {
+        Some(last) if last <= limit => Ok(()),
+        _ => Err(anyhow!("Address of the last item of {name} is too large")),
+    }
+}
+
+fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) -> Result<()> {
     for rc in c.children {
         match rc {
             RegisterCluster::Cluster(_) => unreachable!(),
             RegisterCluster::Register(mut r) => {
                 r.name = format!("{}_{}", c.name, r.name);
-                r.address_offset += c.address_offset;
+                r.address_offset = r
+                    .address_offset
+                    .checked_add(c.address_offset)
+                    .ok_or_else(|| anyhow!("Address offset of {} is too large", r.name))?;
                 regs.push(r.into());
             }
         }
     }
+    Ok(())
 }
 
 fn expand_register_array(
@@ -573,6 +592,12 @@ fn expand_register_array(
             regs.push(r.into());
         }
         Register::Array(info, dim) => {
+            check_last_item(
+                &info.name,
+                info.address_offset as u64,
+                &dim,
+                u32::MAX as u64,
+            )?;
             regs.extend(register::expand(&info, &dim).map(|r| r.single().into()));
         }
     }
@@ -604,6 +629,8 @@ fn expand_field(
             fields.push(f);
         }
         Field::Array(info, dim) => {
+            let end = info.bit_offset() as u64 + info.bit_width() as u64;
+            check_last_item(&info.name, end, &dim, u32::MAX as u64)?;
             fields.extend(field::expand(&info, &dim).map(Field::Single));
         }
     }
@@ -752,6 +779,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
                 device.peripherals.push(p);
             }
             Peripheral::Array(info, dim) => {
+                check_last_item(&info.name, info.base_address, &dim, u64::MAX)?;
                 device
                     .peripherals
                     .extend(peripheral::expand(&info, &dim).map(Peripheral::Single));
-- 
2.43.0


From 1d1ac19ec863f01d35c7b02e724481fc3c0a1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 16/21] fix: format each part of a qualified derivedFrom path
 as the element it refers to

---
 svd-encoder/src/cluster.rs          |  4 ++--
 svd-encoder/src/config.rs           | 26 ++++++++++++++++++++++++++
 svd-encoder/src/enumeratedvalues.rs | 15 +++++++++++++--
 svd-encoder/src/field.rs            |  4 ++--
 svd-encoder/src/register.rs         |  4 ++--
 5 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/svd-encoder/src/cluster.rs b/svd-encoder/src/cluster.rs
index 34d4806..2d8ecbd 100644
--- a/svd-encoder/src/cluster.rs
+++ b/svd-encoder/src/cluster.rs
@@ -3,7 +3,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number},
+    config::{change_case, change_path_case, format_number},
     svd::{Cluster, ClusterInfo},
 };
 
@@ -67,7 +67,7 @@ impl Encode for ClusterInfo {
         if let Some(v) = &self.derived_from {
             e.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.cluster_name),
+                change_path_case(v, &[config.cluster_name], config),
             );
         }
 
diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index a78dbbb..01d3672 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -63,6 +63,32 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
     }
 }
 
+/// Changes case of a `derivedFrom` path, each part with the format of the element it names.
+///
+/// `formats` are these of the target element itself and of the elements enclosing it, innermost
+/// first. The rest of path are clusters and, in a full path, `peripheral` at the beginning.
+pub(crate) fn change_path_case(
+    path: &str,
+    formats: &[Option<IdentifierFormat>],
+    config: &Config,
+) -> String {
+    let parts = path.split('.').collect::<Vec<_>>();
+    let count = parts.len();
+    parts
+        .into_iter()
+        .enumerate()
+        .map(|(i, part)| {
+            let case = match formats.get(count - 1 - i) {
+                Some(case) => *case,
+                None if i == 0 => config.peripheral_name,
+                None => config.cluster_name,
+            };
+            change_case(part, case)
+        })
+        .collect::<Vec<_>>()
+        .join(".")
+}
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum NumberFormat {
     /// `UpperHex` format
diff --git a/svd-encoder/src/enumeratedvalues.rs b/svd-encoder/src/enumeratedvalues.rs
index 2a23795..8a619a8 100644
--- a/svd-encoder/src/enumeratedvalues.rs
+++ b/svd-encoder/src/enumeratedvalues.rs
@@ -1,6 +1,9 @@
 use super::{new_node, Config, Element, Encode, EncodeError};
 
-use crate::{config::change_case, svd::EnumeratedValues};
+use crate::{
+    config::{change_case, change_path_case},
+    svd::EnumeratedValues,
+};
 
 impl Encode for EnumeratedValues {
     type Error = EncodeError;
@@ -22,7 +25,15 @@ impl Encode for EnumeratedValues {
         if let Some(v) = &self.derived_from {
             base.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.enumerated_values_name),
+                change_path_case(
+                    v,
+                    &[
+                        config.enumerated_values_name,
+                        config.field_name,
+                        config.register_name,
+                    ],
+                    config,
+                ),
             );
         }
 
diff --git a/svd-encoder/src/field.rs b/svd-encoder/src/field.rs
index 1d080af..e5c1402 100644
--- a/svd-encoder/src/field.rs
+++ b/svd-encoder/src/field.rs
@@ -1,7 +1,7 @@
 use super::{new_node, Config, Element, ElementMerge, Encode, EncodeError, XMLNode};
 use crate::bitrange::encode_bitrange;
 
-use crate::config::change_case;
+use crate::config::{change_case, change_path_case};
 use crate::svd::{Field, FieldInfo};
 
 impl Encode for Field {
@@ -63,7 +63,7 @@ impl Encode for FieldInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.field_name),
+                change_path_case(v, &[config.field_name, config.register_name], config),
             );
         }
 
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index 2418c97..8bd0e49 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -5,7 +5,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number, DerivableSorting, Sorting},
+    config::{change_case, change_path_case, format_number, DerivableSorting, Sorting},
     svd::{Register, RegisterInfo},
 };
 
@@ -103,7 +103,7 @@ impl Encode for RegisterInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.register_name),
+                change_path_case(v, &[config.register_name], config),
             );
         }
 
-- 
2.43.0


From 60695fb1fcdb03068cfb40e1067e4469f71288a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 17/21] fix: refuse overflowing bitOffset and bitWidth in serde
 data

---
 svd-rs/src/bitrange.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 2b747e5..cc4d8d1 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -141,7 +141,12 @@ mod ser_de {
                 SerBitRange::OffsetWidth {
                     bit_offset,
                     bit_width,
-                } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
+                } if bit_offset.checked_add(bit_width).is_some() => {
+                    Ok(BitRange::from_offset_width(bit_offset, bit_width))
+                }
+                SerBitRange::OffsetWidth { .. } => Err(serde::de::Error::custom(
+                    "Invalid bitOffset and bitWidth values",
+                )),
                 SerBitRange::MsbLsb { msb, lsb } if lsb <= msb && msb < u32::MAX => {
                     Ok(BitRange::from_msb_lsb(msb, lsb))
                 }
-- 
2.43.0


From 85ced43c006aabe4f24e537f99ddd9ab813ec5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 18/21] fix: do not substitute placeholders again in an index
 that was just filled in

---
 svd-rs/src/array.rs      | 4 ++--
 svd-rs/src/peripheral.rs | 2 +-
 svd-rs/src/register.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/svd-rs/src/array.rs b/svd-rs/src/array.rs
index d302b4b..819424b 100644
--- a/svd-rs/src/array.rs
+++ b/svd-rs/src/array.rs
@@ -71,7 +71,7 @@ pub fn names<'a, T: Name>(info: &'a T, dim: &'a DimElement) -> impl Iterator<Ite
                     .find(|e| e.value.map(|v| v.to_string().as_str() == i.deref()) == Some(true))
             })
             .map(|n| n.name.clone())
-            .unwrap_or_else(|| name.replace("[%s]", &i).replace("%s", &i))
+            .unwrap_or_else(|| name.replace("[%s]", "%s").replace("%s", &i))
     })
 }
 
@@ -90,7 +90,7 @@ pub fn descriptions<'a, T: Description>(
                     .find(|e| e.value.map(|v| v.to_string().as_str() == i.deref()) == Some(true))
             })
             .and_then(|n| n.description.clone())
-            .or_else(|| description.map(|d| d.replace("[%s]", &i).replace("%s", &i)))
+            .or_else(|| description.map(|d| d.replace("[%s]", "%s").replace("%s", &i)))
     })
 }
 
diff --git a/svd-rs/src/peripheral.rs b/svd-rs/src/peripheral.rs
index 1e4a0a7..7808644 100644
--- a/svd-rs/src/peripheral.rs
+++ b/svd-rs/src/peripheral.rs
@@ -149,7 +149,7 @@ pub fn expand<'a>(
             info.base_address = base_address;
             info.display_name = info
                 .display_name
-                .map(|d| d.replace("[%s]", &idx).replace("%s", &idx));
+                .map(|d| d.replace("[%s]", "%s").replace("%s", &idx));
             info
         })
 }
diff --git a/svd-rs/src/register.rs b/svd-rs/src/register.rs
index b9a8622..ea4c109 100644
--- a/svd-rs/src/register.rs
+++ b/svd-rs/src/register.rs
@@ -135,7 +135,7 @@ pub fn expand<'a>(
             info.address_offset = address_offset;
             info.display_name = info
                 .display_name
-                .map(|d| d.replace("[%s]", &idx).replace("%s", &idx));
+                .map(|d| d.replace("[%s]", "%s").replace("%s", &idx));
             info
         })
 }
-- 
2.43.0


From d7e26750541e32477c1c5a1ddc8fa3932394fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 19/21] fix: validate the values of dimArrayIndex

---
 svd-rs/src/dimelement.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 0704a74..f8e2336 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -216,9 +216,13 @@ impl DimElement {
     ///
     /// # Notes
     ///
-    /// This doesn't do anything.
-    pub fn validate(&self, _lvl: ValidateLevel) -> Result<(), SvdError> {
-        // TODO
+    /// This validates the values of the `dimArrayIndex`, nothing else.
+    pub fn validate(&self, lvl: ValidateLevel) -> Result<(), SvdError> {
+        if let Some(index) = self.dim_array_index.as_ref() {
+            for value in &index.values {
+                value.validate(lvl)?;
+            }
+        }
         Ok(())
     }
     /// Get the indexes of the array or list.
-- 
2.43.0


From 6db5cb2ecffd67fff0a603871604157bcc0e65e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 20/21] fix: name of a path that consists of a peripheral only

---
 svd-parser/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 3aa5469..4a3a1f0 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -47,7 +47,7 @@ impl BlockPath {
         (block, name)
     }
     pub fn name(&self) -> &String {
-        self.path.last().unwrap()
+        self.path.last().unwrap_or(&self.peripheral)
     }
     pub fn parent(&self) -> Option<Self> {
         let mut p = self.clone();
-- 
2.43.0


From 2cd36ddb2acdbb87d9b940a8ee03f3787a3c68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:46 +0000
Subject: [PATCH 21/21] fix: iterate over registers and clusters without
 recursion

---
 svd-rs/src/registercluster.rs | 36 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/svd-rs/src/registercluster.rs b/svd-rs/src/registercluster.rs
index e9e09f9..79c8d1b 100644
--- a/svd-rs/src/registercluster.rs
+++ b/svd-rs/src/registercluster.rs
@@ -66,11 +66,10 @@ pub struct RegisterIter<'a> {
 impl<'a> std::iter::Iterator for RegisterIter<'a> {
     type Item = &'a Register;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Register(reg)) => Some(reg),
-            _ => self.next(),
-        }
+        self.all.by_ref().find_map(|rc| match rc {
+            RegisterCluster::Register(reg) => Some(reg),
+            _ => None,
+        })
     }
 }
 
@@ -82,11 +81,10 @@ pub struct RegisterIterMut<'a> {
 impl<'a> std::iter::Iterator for RegisterIterMut<'a> {
     type Item = &'a mut Register;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Register(reg)) => Some(reg),
-            _ => self.next(),
-        }
+        self.all.by_ref().find_map(|rc| match rc {
+            RegisterCluster::Register(reg) => Some(reg),
+            _ => None,
+        })
     }
 }
 
@@ -98,11 +96,10 @@ pub struct ClusterIter<'a> {
 impl<'a> std::iter::Iterator for ClusterIter<'a> {
     type Item = &'a Cluster;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Cluster(c)) => Some(c),
-            _ => self.next(),
-        }
+        self.all.by_ref().find_map(|rc| match rc {
+            RegisterCluster::Cluster(c) => Some(c),
+            _ => None,
+        })
     }
 }
 
@@ -114,11 +111,10 @@ pub struct ClusterIterMut<'a> {
 impl<'a> std::iter::Iterator for ClusterIterMut<'a> {
     type Item = &'a mut Cluster;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.all.next() {
-            None => None,
-            Some(RegisterCluster::Cluster(c)) => Some(c),
-            _ => self.next(),
-        }
+        self.all.by_ref().find_map(|rc| match rc {
+            RegisterCluster::Cluster(c) => Some(c),
+            _ => None,
+        })
     }
 }
 
-- 
2.43.0

