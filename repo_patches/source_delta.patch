From 73f0d3da84f06c7ed8c15d4af05a7e66c0da1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 01/13] fix: look up directly defined moves by their exact
 amount

The exact-match step looked up the amount-1 key again, so a directly defined
move such as y2 (with no y) could only be found through its inverse.
---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From dd2dac86f496728617f62eb614661b26345853a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 02/13] fix: keep the layer prefix in parse_move!

parse_move!("2R") and parse_move!("3-7R") silently produced R.
---
 cubing_macros/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..82a45c9 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MoveLayer, MovePrefix, MoveRange};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -29,12 +29,27 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
     match move_string.parse::<Move>() {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(MoveLayer { layer })) => quote! {
+                    Some(cubing::alg::MovePrefix::Layer(cubing::alg::MoveLayer { layer: #layer }))
+                },
+                Some(MovePrefix::Range(MoveRange {
+                    outer_layer,
+                    inner_layer,
+                })) => quote! {
+                    Some(cubing::alg::MovePrefix::Range(cubing::alg::MoveRange {
+                        outer_layer: #outer_layer,
+                        inner_layer: #inner_layer,
+                    }))
+                },
+            };
             let move_amount = r#move.amount;
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From 9aed806617a5bf4e33393155da3c23b648089789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 03/13] fix: print every parsable move instead of failing to
 format it

Moves such as _SLASH_2 or R_PLUSPLUS_2 parse, but formatting them returned an
error, so to_string() (and the alg CLI, and error messages naming the move)
panicked; 2_SLASH_ lost its prefix and _PLUS_ printed as an unparsable 1+.
---
 cubing_core/src/alg/move.rs | 45 +++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..1330750 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -70,18 +70,23 @@ impl<'de> Visitor<'de> for MoveVisitor {
     }
 }
 
+fn non_empty_family<'a>(family: &'a str, internal_suffix: &str) -> Option<&'a str> {
+    family
+        .strip_suffix(internal_suffix)
+        .filter(|family| !family.is_empty())
+}
+
 impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Anything that has no puzzle-specific notation (e.g. a parsed `_SLASH_2`)
+        // uses the regular notation with the internal family name, which can be parsed back.
+        if self.quantum.family == _SLASH_ && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
+        if let Some(family) = non_empty_family(&self.quantum.family, _PLUS_) {
             let suffix = if self.amount < 0 { "-" } else { "+" };
             write!(
                 f,
@@ -95,22 +100,24 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
+        if let Some(family) = non_empty_family(&self.quantum.family, _PLUSPLUS_) {
             let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
+                1 => Some("++"),
+                -1 => Some("--"),
+                _ => None,
             };
-            write!(
-                f,
-                "{}{}",
-                QuantumMove {
-                    family: family.to_owned(),
-                    prefix: self.quantum.prefix.clone()
-                },
-                suffix
-            )?;
-            return Ok(());
+            if let Some(suffix) = suffix {
+                write!(
+                    f,
+                    "{}{}",
+                    QuantumMove {
+                        family: family.to_owned(),
+                        prefix: self.quantum.prefix.clone()
+                    },
+                    suffix
+                )?;
+                return Ok(());
+            }
         }
         write!(f, "{}", self.quantum)?;
         fmt_amount(f, self.amount)
-- 
2.43.0


From 678b38e504db70be2af34e5a9123c69926c0d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 04/13] fix: end a trailing line comment before closing a
 grouping or brackets

Inverting [R: // comment<newline>U] printed [R: U'<newline>// comment], where
the comment swallows the closing bracket, so the output could not be parsed.
---
 cubing_core/src/alg/alg.rs        | 10 ++++++++++
 cubing_core/src/alg/commutator.rs |  6 +++++-
 cubing_core/src/alg/conjugate.rs  |  6 +++++-
 cubing_core/src/alg/grouping.rs   |  2 +-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..d884e14 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -18,6 +18,16 @@ impl Alg {
         let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
         Alg { nodes }
     }
+
+    // Formats the alg for use before a closing delimiter (or separator), making
+    // sure that the delimiter does not become part of a trailing line comment.
+    pub(crate) fn fmt_nested(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", self)?;
+        if let Some(AlgNode::LineCommentNode(_)) = self.nodes.last() {
+            writeln!(f)?;
+        }
+        Ok(())
+    }
 }
 
 impl fmt::Display for Alg {
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..6d20f78 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -23,6 +23,10 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_nested(f)?;
+        write!(f, ", ")?;
+        self.b.fmt_nested(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..ac5f9d8 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -22,6 +22,10 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_nested(f)?;
+        write!(f, ": ")?;
+        self.b.fmt_nested(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..3373865 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -59,7 +59,7 @@ impl fmt::Display for Grouping {
         if include_parentheses {
             write!(f, "(")?;
         }
-        write!(f, "{}", self.alg)?;
+        self.alg.fmt_nested(f)?;
         if include_parentheses {
             write!(f, ")")?;
         }
-- 
2.43.0


From 041cd259a04418aca8ce1be4d3046bb17fc57a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 05/13] fix: pack orientations in a byte for every supported
 orientation count

Packing (num_orientations, i) separately from the equivalent (0, i) overflowed
the byte for 72, 80, 84, 88, 90, 92, 96, 98, 100, 102, 104, 105 and 106
orientations: KPuzzle::try_new panicked in debug builds and silently built
corrupt tables in release builds.
---
 cubing_core/src/kpuzzle/packed/orientation_packer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..22fa162 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -74,7 +74,7 @@ impl OrientationPacker {
 
         // Ignore an idiom suggestion by Clippy that doesn't work here (because we use `orientation_mod` as a value, not just as an index into `packing_table`).
         #[allow(clippy::needless_range_loop)]
-        for orientation_mod in 0..=(u8::MAX) {
+        for orientation_mod in 0..num_orientations {
             let factor = if orientation_mod == 0 {
                 num_orientations
             } else {
@@ -93,6 +93,10 @@ impl OrientationPacker {
             }
         }
 
+        // `(num_orientations, i)` has the same meaning as `(0, i)`, so it shares its packed values.
+        // (Separate values would not fit into a byte for every `num_orientations` up to `MAX_NUM_ORIENTATIONS`.)
+        packing_table[num_orientations as usize] = packing_table[0];
+
         let mut transformation_lookup: [[u8; NUM_BYTE_VALUES]; MAX_NUM_ORIENTATIONS] =
             [[BOGUS_PACKED_VALUE; NUM_BYTE_VALUES]; MAX_NUM_ORIENTATIONS];
         // Ignore an idiom suggestion by Clippy that doesn't work here (because we use `orientation_mod` as a value, not just as an index into `packing_table`).
-- 
2.43.0


From 68e525de40ff5cf82c1f5a0d7b0f41113b060223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 06/13] fix: refuse orbits with zero orientations instead of
 dividing by zero

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..1cd98b2 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -198,6 +198,14 @@ impl KPuzzle {
 
         for orbit_definition in &definition.orbits {
             let num_orientations = orbit_definition.num_orientations;
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} must be at least 1.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
-- 
2.43.0


From 08126ad9a4a91bcaaab1f9bf919ca0508d2e5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 07/13] fix: never allocate a zero-sized layout for puzzles
 without pieces

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 1cd98b2..cbe3d02 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -227,7 +227,8 @@ impl KPuzzle {
                 definition,
                 num_bytes: bytes_offset,
                 ordered_orbit_info,
-                layout: Layout::array::<u8>(bytes_offset).map_err(|_| InvalidDefinitionError {
+                // Allocating with a zero-sized layout would be undefined behaviour.
+                layout: Layout::array::<u8>(bytes_offset.max(1)).map_err(|_| InvalidDefinitionError {
                     description: "Could not construct packed layout.".to_owned(),
                 })?,
             }),
-- 
2.43.0


From 43bebabdffb1ac139f6b581f7b216817a8e1acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 08/13] fix: do not report InvalidAlgError as its own source

Walking the source chain of such an error never terminated.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index cbe3d02..eb359ee 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -83,11 +83,7 @@ pub enum InvalidAlgError {
     InvalidMove(InvalidMoveError),
 }
 
-impl Error for InvalidAlgError {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for InvalidAlgError {}
 
 fn identity_transformation(kpuzzle: &KPuzzle) -> KTransformation {
     let mut packed_orbit_data =
-- 
2.43.0


From c3bef95d965b7fbd7a18a75b9d0092102d0441aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 09/13] fix: return an error for malformed pattern data instead
 of panicking

KPattern::try_from_data panicked on a missing orbit, on arrays that are too
short and on orientations out of range.
---
 cubing_core/src/kpuzzle/packed/kpattern.rs | 48 +++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..96cc06f 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -39,8 +39,13 @@ impl KPattern {
                 let default_orbit = kpattern_data.get(&orbit_info.name);
                 let default_orbit = match default_orbit {
                     Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                    None => {
+                        return Err(ConversionError::InvalidKPatternData(
+                            format!("Missing data for orbit {}.", orbit_info.name).into(),
+                        ))
+                    }
                 };
+                Self::check_data_entry(orbit_info, default_orbit, i as usize)?;
 
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                 new_kpattern.set_orientation_with_mod(
@@ -71,6 +76,47 @@ impl KPattern {
         Ok(new_kpattern)
     }
 
+    // Checks everything except that `orientation_mod` is a factor of `num_orientations`.
+    fn check_data_entry(
+        orbit_info: &KPuzzleOrbitInfo,
+        orbit_data: &KPatternOrbitData,
+        i: usize,
+    ) -> Result<(), ConversionError> {
+        let error = |description: String| {
+            Err(ConversionError::InvalidKPatternData(
+                InvalidKPatternDataError { description },
+            ))
+        };
+        let orientation_mod = match &orbit_data.orientation_mod {
+            None => Some(0),
+            Some(orientation_mod) => orientation_mod.get(i).copied(),
+        };
+        match (
+            orbit_data.pieces.get(i),
+            orbit_data.orientation.get(i),
+            orientation_mod,
+        ) {
+            (Some(_), Some(&orientation), Some(orientation_mod)) => {
+                let modulus = if orientation_mod == 0 {
+                    orbit_info.num_orientations
+                } else {
+                    orientation_mod
+                };
+                if orientation >= modulus {
+                    return error(format!(
+                        "Orientation of {} seen for piece at index {} in orbit {}. This must be less than {}.",
+                        orientation, i, orbit_info.name, modulus
+                    ));
+                }
+                Ok(())
+            }
+            _ => error(format!(
+                "Missing data for piece at index {} in orbit {}. Expected data for {} pieces.",
+                i, orbit_info.name, orbit_info.num_pieces
+            )),
+        }
+    }
+
     pub fn to_data(&self) -> KPatternData {
         let mut data = KPatternData::new();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
-- 
2.43.0


From a375ee915bb4825ca11d2d4bcfefe9b12d58130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 10/13] fix: return an error for malformed transformation data

KTransformation::try_from_data panicked on a missing orbit, on arrays that are
too short and on orientation deltas out of range, and it accepted values that
are not a permutation: applying those read out of bounds, and inverting them
left uninitialized bytes in the result.
---
 .../src/kpuzzle/packed/ktransformation.rs     | 48 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..8728bc8 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -8,7 +8,8 @@ use crate::{
 };
 
 use super::{
-    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError, KPuzzle,
+    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError,
+    InvalidKTransformationDataError, KPuzzle,
 };
 
 #[derive(Clone, Eq)]
@@ -35,8 +36,13 @@ impl KTransformation {
                 let orbit = ktransformation_data.get(&orbit_info.name);
                 let orbit = match orbit {
                     Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                    None => {
+                        return Err(ConversionError::InvalidKTransformationData(
+                            format!("Missing data for orbit {}.", orbit_info.name).into(),
+                        ))
+                    }
                 };
+                Self::check_data_entry(orbit_info, orbit, i as usize)?;
 
                 new_ktransformation.set_permutation_idx(
                     orbit_info,
@@ -53,6 +59,44 @@ impl KTransformation {
         Ok(new_ktransformation)
     }
 
+    fn check_data_entry(
+        orbit_info: &KPuzzleOrbitInfo,
+        orbit_data: &KTransformationOrbitData,
+        i: usize,
+    ) -> Result<(), ConversionError> {
+        let error = |description: String| {
+            Err(ConversionError::InvalidKTransformationData(
+                InvalidKTransformationDataError { description },
+            ))
+        };
+        match (
+            orbit_data.permutation.get(i),
+            orbit_data.orientation_delta.get(i),
+        ) {
+            (Some(&permutation_idx), Some(&orientation_delta)) => {
+                if permutation_idx >= orbit_info.num_pieces
+                    || orbit_data.permutation[..i].contains(&permutation_idx)
+                {
+                    return error(format!(
+                        "The data for orbit {} is not a permutation of its {} pieces (due to the value {} at index {}).",
+                        orbit_info.name, orbit_info.num_pieces, permutation_idx, i
+                    ));
+                }
+                if orientation_delta >= orbit_info.num_orientations {
+                    return error(format!(
+                        "Orientation delta of {} seen for piece at index {} in orbit {}. This must be less than {}.",
+                        orientation_delta, i, orbit_info.name, orbit_info.num_orientations
+                    ));
+                }
+                Ok(())
+            }
+            _ => error(format!(
+                "Missing data for piece at index {} in orbit {}. Expected data for {} pieces.",
+                i, orbit_info.name, orbit_info.num_pieces
+            )),
+        }
+    }
+
     pub fn to_data(&self) -> KTransformationData {
         let mut data = KTransformationData::new();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
-- 
2.43.0


From 269a1baab90d22c0c8dfcd6ccf3c1cf20054911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 11/13] fix: check the value passed to set_permutation_idx

The safe setter accepted any byte, which made applying the transformation read
out of bounds. Inverting a transformation whose entries were set to repeated
values left uninitialized bytes in the result.
---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 8728bc8..fc2858f 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -192,15 +192,14 @@ impl KTransformation {
         }
     }
 
-    /// # Safety
-    /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
     /// # Safety
-    /// This version does not check whether `i` is in the correct range.
+    /// This version does not check whether `i` or `value` are in the correct ranges.
     pub unsafe fn set_permutation_idx_unchecked(
         &mut self,
         orbit_info: &KPuzzleOrbitInfo,
@@ -299,7 +298,8 @@ impl KTransformation {
     }
 
     pub fn invert(&self) -> KTransformation {
-        let mut new_ktransformation = KTransformation::new_uninitialized(self.kpuzzle().clone());
+        // This makes sure that every byte is initialized even if individual entries were set to values that do not form a permutation.
+        let mut new_ktransformation = self.kpuzzle().identity_transformation();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             let num_orientations = orbit_info.num_orientations;
 
-- 
2.43.0


From a47dc388961f3a6013793071f41684674ab16486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 12/13] fix: panic instead of accessing foreign memory when
 puzzles do not match

Applying a transformation to (or into) a value of a puzzle with a different
layout read and wrote out of bounds through a safe API.
---
 cubing_core/src/kpuzzle/packed/kpattern.rs        |  4 ++++
 cubing_core/src/kpuzzle/packed/kpuzzle.rs         | 15 +++++++++++++++
 cubing_core/src/kpuzzle/packed/ktransformation.rs |  4 ++++
 .../src/kpuzzle/packed/packed_orbit_data.rs       | 10 ++++++++++
 4 files changed, 33 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 96cc06f..a94cfea 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -305,6 +305,10 @@ impl KPattern {
         transformation: &KTransformation,
         into_kpattern: &mut KPattern,
     ) {
+        self.packed_orbit_data
+            .assert_layout_compatible(&transformation.packed_orbit_data);
+        self.packed_orbit_data
+            .assert_layout_compatible(&into_kpattern.packed_orbit_data);
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             // TODO: optimization when either value is the identity.
             for i in 0..orbit_info.num_pieces {
diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index eb359ee..32e1494 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -299,6 +299,21 @@ impl KPuzzle {
     }
 }
 
+impl KPuzzleData {
+    /// Whether values for the two puzzles have the same layout, so that they can be combined.
+    pub(crate) fn is_layout_compatible(&self, other: &KPuzzleData) -> bool {
+        std::ptr::eq(self, other)
+            || (self.ordered_orbit_info.len() == other.ordered_orbit_info.len()
+                && self
+                    .ordered_orbit_info
+                    .iter()
+                    .zip(other.ordered_orbit_info.iter())
+                    .all(|(a, b)| {
+                        a.num_pieces == b.num_pieces && a.num_orientations == b.num_orientations
+                    }))
+    }
+}
+
 impl From<&KPuzzle> for KPuzzle {
     fn from(value: &KPuzzle) -> Self {
         value.clone()
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index fc2858f..d323d55 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -257,6 +257,10 @@ impl KTransformation {
         transformation: &KTransformation,
         into_ktransformation: &mut KTransformation,
     ) {
+        self.packed_orbit_data
+            .assert_layout_compatible(&transformation.packed_orbit_data);
+        self.packed_orbit_data
+            .assert_layout_compatible(&into_ktransformation.packed_orbit_data);
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             // TODO: optimization when either value is the identity.
             for i in 0..orbit_info.num_pieces {
diff --git a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
index a1b84c2..e04ecb1 100644
--- a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
+++ b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
@@ -25,6 +25,16 @@ impl PackedOrbitData {
         &self.kpuzzle
     }
 
+    /// Panics if the values belong to puzzles with different layouts (which would access bytes out of bounds).
+    pub(crate) fn assert_layout_compatible(&self, other: &PackedOrbitData) {
+        assert!(
+            self.kpuzzle.data.is_layout_compatible(&other.kpuzzle.data),
+            "Tried to combine values for incompatible puzzles: {} and {}",
+            self.kpuzzle.definition().name,
+            other.kpuzzle.definition().name
+        );
+    }
+
     pub(crate) unsafe fn new_with_uninitialized_bytes(kpuzzle: KPuzzle) -> Self {
         let bytes = unsafe { alloc(kpuzzle.data.layout) };
         Self { kpuzzle, bytes }
-- 
2.43.0


From 11cb998cc53beb64e5eac99eb10bffce88d0d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 13/13] fix: refuse puzzle definitions with malformed move data

KPuzzle::try_new accepted them and using the move panicked later.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 32e1494..64f65be 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -218,7 +218,7 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
-        Ok(Self {
+        let kpuzzle = Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
@@ -228,7 +228,15 @@ impl KPuzzle {
                     description: "Could not construct packed layout.".to_owned(),
                 })?,
             }),
-        })
+        };
+        for (key_move, transformation_data) in &kpuzzle.definition().moves {
+            KTransformation::try_from_data(&kpuzzle, transformation_data).map_err(|e| {
+                InvalidDefinitionError {
+                    description: format!("Invalid definition for move {}: {}", key_move, e),
+                }
+            })?;
+        }
+        Ok(kpuzzle)
     }
 
     pub fn try_from_json(json_bytes: &[u8]) -> Result<KPuzzle, InvalidDefinitionError> {
@@ -286,7 +294,7 @@ impl KPuzzle {
             // TODO: Avoid constructing this `KTransformation`.
             MoveLookupResultSource::DirectlyDefined(transformation_data) => {
                 KTransformation::try_from_data(self, transformation_data)
-                    .expect("TODO: invalid definition — this should be caught earlier")
+                    .expect("Invalid move definition")
             }
             MoveLookupResultSource::DerivedFromAlg(alg) => self.transformation_from_alg(alg)?,
         };
-- 
2.43.0

