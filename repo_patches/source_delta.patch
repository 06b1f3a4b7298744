From 1b07dd3644c2e9c3e32d9bf55ba43b5d6c6cc471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 01/35] fix: let `Lit::new` accept the documented maximum
 variable index

---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From 0c08bcf4b8ba33f6fc1e93b9f2b730f85eedba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 02/35] fix: detect conflicting literals in value lines

---
 src/types/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..f5de13b 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1041,10 +1041,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1078,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From 123a2121f04f3c3eaa08a0b378e7216c410aeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 03/35] fix: do not panic on value lines starting with a
 non-ASCII character

---
 src/types/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index f5de13b..ee908c4 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -986,16 +986,16 @@ impl Assignment {
     ///
     /// Can return various parsing errors
     pub fn extend_from_vline(&mut self, lines: &str) -> Result<(), InvalidVLine> {
-        if lines.is_empty() {
+        let Some(tag) = lines.chars().next() else {
             return Err(InvalidVLine::EmptyLine);
-        }
+        };
+        let content = lines[tag.len_utf8()..].trim();
         // determine line format
         let format = if lines.contains('x') {
             VLineFormat::PbComp
-        } else if !lines[1..].trim().contains(' ')
-            && lines[1..].trim() != "0"
-            && lines[1..]
-                .trim()
+        } else if !content.contains(' ')
+            && content != "0"
+            && content
                 .chars()
                 .try_for_each(|c| {
                     if c == '1' || c == '0' {
-- 
2.43.0


From ef1bb4793952b4616c3a7b545b2f77d14ccc8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 04/35] fix: evaluate cardinality constraints correctly under
 partial assignments

---
 src/types/constraints.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..47bb5d8 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -887,13 +887,21 @@ impl CardConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + 1,
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
-        match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+        // `range.start` and `range.end` are the minimum and maximum (inclusive) attainable values
+        let (always, never) = match self {
+            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.end <= *b, range.start > *b),
+            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b, range.end < *b),
+            CardConstraint::Eq(CardEqConstr { b, .. }) => (
+                range.start == *b && range.end == *b,
+                range.start > *b || range.end < *b,
+            ),
+        };
+        if always {
+            TernaryVal::True
+        } else if never {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
-- 
2.43.0


From 2717d35d1ae9bbf8a105d3df456475e4b14f311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 05/35] fix: evaluate pseudo-Boolean constraints correctly
 under partial assignments

---
 src/types/constraints.rs | 45 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 47bb5d8..7dbb09c 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1630,33 +1630,24 @@ impl PbConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + coeff,
             });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
-            }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+        // `range.start` and `range.end` are the minimum and maximum (inclusive) attainable values.
+        // If they do not fit in an `isize`, they are larger than any bound.
+        let b = self.bound();
+        let cmp = |val: usize| {
+            isize::try_from(val).map_or(std::cmp::Ordering::Greater, |val: isize| val.cmp(&b))
+        };
+        let (min, max) = (cmp(range.start), cmp(range.end));
+        let (always, never) = match self {
+            PbConstraint::Ub(_) => (max.is_le(), min.is_gt()),
+            PbConstraint::Lb(_) => (min.is_ge(), max.is_lt()),
+            PbConstraint::Eq(_) => (min.is_eq() && max.is_eq(), min.is_gt() || max.is_lt()),
+        };
+        if always {
+            TernaryVal::True
+        } else if never {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
-- 
2.43.0


From 9a1da8e1e53163aa37ec90506653519817fced8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 06/35] fix: do not underflow when inverting cardinality
 constraints

---
 src/types/constraints.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 7dbb09c..ae03561 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1028,7 +1028,8 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            // if `self` is a tautology, so is the lower bound of 0
+            b: length.saturating_sub(self.b),
         }
     }
 
@@ -1082,6 +1083,10 @@ impl CardLbConstr {
     }
 
     /// Converts the lower bound constraint into an equivalent upper bound constraint
+    ///
+    /// # Panics
+    ///
+    /// If the constraint is unsatisfiable, since there is no equivalent upper bound constraint
     #[must_use]
     pub fn invert(mut self) -> CardUbConstr {
         self.lits.iter_mut().for_each(|l| {
@@ -1090,7 +1095,9 @@ impl CardLbConstr {
         let length = self.lits.len();
         CardUbConstr {
             lits: self.lits,
-            b: length - self.b,
+            b: length
+                .checked_sub(self.b)
+                .expect("cannot invert an unsatisfiable lower bound constraint"),
         }
     }
 
-- 
2.43.0


From 21ecfe5094ee425aca3a932eae2a7c2405d029d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 07/35] fix: avoid overflows when classifying constraints

---
 src/types/constraints.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index ae03561..9b66dd3 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1048,7 +1048,7 @@ impl CardUbConstr {
     /// Checks if the constraint is a clause
     #[must_use]
     pub fn is_clause(&self) -> bool {
-        self.b + 1 == self.lits.len()
+        self.lits.len().checked_sub(1) == Some(self.b)
     }
 }
 
@@ -1885,8 +1885,8 @@ impl PbUbConstr {
             .iter()
             .fold(usize::MAX, |min, (_, coeff)| std::cmp::min(min, *coeff));
         // self.b >= 0 since not unsat
-        self.weight_sum <= self.b.unsigned_abs() + min_coeff
-            && self.weight_sum > self.b.unsigned_abs()
+        // self.b < self.weight_sum since not a tautology
+        self.weight_sum - self.b.unsigned_abs() <= min_coeff
     }
 }
 
@@ -1984,7 +1984,7 @@ impl PbLbConstr {
             .iter()
             .fold(usize::MAX, |min, (_, coeff)| std::cmp::min(min, *coeff));
         // note: self.b <= self.weight_sum is checked in is_unsat
-        self.b.unsigned_abs() + min_coeff > self.weight_sum
+        min_coeff > self.weight_sum - self.b.unsigned_abs()
     }
 
     /// Gets the unit weight of the constraint, if it exists
-- 
2.43.0


From 57fedd79411edab2dcb3220ce560c5b5abbd7324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 08/35] fix: panic as documented when extending constraints
 with negative bounds to cardinality constraints

---
 src/types/constraints.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 9b66dd3..0cb2b9c 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1822,7 +1822,10 @@ impl PbUbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: self
+                .b
+                .try_into()
+                .expect("constraint is unsatisfiable"),
         }
     }
 
@@ -1954,7 +1957,10 @@ impl PbLbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: self
+                .b
+                .try_into()
+                .expect("constraint is a tautology"),
         }
     }
 
@@ -2083,7 +2089,10 @@ impl PbEqConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: self
+                .b
+                .try_into()
+                .expect("constraint is unsatisfiable"),
         }
     }
 
-- 
2.43.0


From 0587dce5b443074b3fd550073b8ef4ca639349be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 09/35] fix: do not divide by zero for equality constraints
 with zero weights

---
 src/types/constraints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 0cb2b9c..1d76612 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1555,6 +1555,10 @@ impl PbConstraint {
                 match unit_weight {
                     None => return Err(PbToCardError::NotACard),
                     Some(unit_weight) => {
+                        if unit_weight == 0 {
+                            // since this is not unsat, b is zero
+                            return Err(PbToCardError::Tautology);
+                        }
                         if b % unit_weight != 0 {
                             return Err(PbToCardError::Unsat);
                         }
-- 
2.43.0


From 76fa28036ba7335005fc10dcd08de26e8395cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 10/35] fix: equality constraints with zero weights are not
 assignments

---
 src/types/constraints.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 1d76612..e9c764f 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -2118,7 +2118,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == self.weight_sum
+        // literals with zero weight are not assigned by the constraint
+        self.b.unsigned_abs() == self.weight_sum && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Checks if the constraint assigns all literals to false
@@ -2127,7 +2128,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == 0
+        // literals with zero weight are not assigned by the constraint
+        self.b.unsigned_abs() == 0 && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Gets the unit weight of the constraint, if it exists
-- 
2.43.0


From c7b860c5dfa550f6df517b8fffed71e488573b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 11/35] fix: reify tautological upper bound constraints
 correctly

---
 src/encodings/atomics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..55817c7 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -129,6 +129,9 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
         !card.is_unsat(),
         "the constraint must be satisfiable to reify it: {card}"
     );
+    if card.is_tautology() {
+        return PbConstraint::new_unit(lit);
+    }
     match card {
         CardConstraint::Ub(c) => {
             let (lits, bound) = c.decompose_ref();
@@ -204,6 +207,9 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
         !pb.is_unsat(),
         "the constraint must be satisfiable to reify it: {pb}"
     );
+    if pb.is_tautology() {
+        return PbConstraint::new_unit(lit);
+    }
     match pb {
         PbConstraint::Ub(c) => {
             let ws = isize::try_from(pb.weight_sum())
-- 
2.43.0


From 37c2e78d7f95bb0eaf6cc92f3c1426eedb6eaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 12/35] fix: do not underflow when converting an empty range in
 the inverted simulators

---
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/simulators.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..3a06363 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,6 +53,9 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.n_lits() - (range.end - 1);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..449d1b4 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,6 +53,9 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.weight_sum() - (range.end - 1);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
-- 
2.43.0


From 8dc88b2761141f959c287d6a94e031863d4730ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 13/35] fix: include bound zero in unbounded ranges for
 encoding both bounds with the inverted simulators

---
 src/encodings/card/mod.rs | 2 +-
 src/encodings/pb/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..bf6a152 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -488,7 +488,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..e1bd156 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -536,7 +536,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
-- 
2.43.0


From 9530af36517f0218e7bee3dbcf9eaf1d541550c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 14/35] fix: do not overflow for encoding ranges bounded by
 `usize::MAX`

---
 src/encodings/card/mod.rs | 12 ++++++------
 src/encodings/pb/mod.rs   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index bf6a152..574409a 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index e1bd156..5a239dd 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -503,10 +503,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -519,10 +519,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -535,10 +535,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
-- 
2.43.0


From a23e71d70ebc5983c9b8f4c09ebdba86f48ce665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 15/35] fix: sum up the weights of repeated literals when
 creating pseudo-Boolean encodings

---
 src/encodings/pb/adder.rs      |  3 +--
 src/encodings/pb/dpw/mod.rs    |  3 +--
 src/encodings/pb/gte/mod.rs    |  3 +--
 src/encodings/pb/mod.rs        | 14 ++++++++++++++
 src/encodings/pb/simulators.rs | 10 ++++------
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..915f341 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -445,8 +445,7 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..722a1e2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -435,8 +435,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..1d8ecd0 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -368,8 +368,7 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 5a239dd..411bcc2 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -42,6 +42,7 @@ use crate::types::constraints::PbLbConstr;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -496,6 +497,19 @@ where
     }
 }
 
+/// Collects weighted literals into a map, summing up the weights of literals that appear more than
+/// once
+fn collect_weighted_lits<I>(lits: I) -> RsHashMap<Lit, usize>
+where
+    I: IntoIterator<Item = (Lit, usize)>,
+{
+    let mut map = RsHashMap::default();
+    for (lit, weight) in lits {
+        *map.entry(lit).or_insert(0) += weight;
+    }
+    map
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 449d1b4..b2b8482 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -85,8 +85,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
@@ -95,7 +94,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::collect_weighted_lits(iter.into_iter().map(|(l, w)| (!l, w)));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -554,8 +553,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
@@ -565,7 +563,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted_lits(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
-- 
2.43.0


From e61acf692d3c11ac43aa87d147e5c4f28a5a3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 16/35] fix: do not panic when reserving variables for the
 binary adder

---
 src/encodings/pb/adder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 915f341..ba73822 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -860,7 +860,7 @@ where
 
 /// Reserves the variables for the last node in `nodes` recursively
 fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
+    let (nodes, node) = nodes.split_at_mut(nodes.len() - 1);
 
     let node = &mut node[0];
     node.reserve(var_manager);
-- 
2.43.0


From 8a12706965a0899c7ca1e970eff05b09040184e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 17/35] fix: reset the comparator when encoding the binary
 adder from scratch

---
 src/encodings/pb/adder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index ba73822..0773442 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -186,6 +186,11 @@ impl super::BoundUpper for BinaryAdder {
                 out.enc_only_if = false;
             }
         }
+        if let Some(structure) = &mut self.structure {
+            for output in structure.comparator.iter_mut().flatten() {
+                output.enc_if = false;
+            }
+        }
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -299,6 +304,11 @@ impl super::BoundLower for BinaryAdder {
                 out.enc_only_if = false;
             }
         }
+        if let Some(structure) = &mut self.structure {
+            for output in structure.comparator.iter_mut().flatten() {
+                output.enc_only_if = false;
+            }
+        }
         self.encode_lb_change(range, collector, var_manager)
     }
 
-- 
2.43.0


From 1887691b1434ae18664041b855e992e562b110b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 18/35] fix: do not enforce bounds of the binary adder before
 added literals are encoded

---
 src/encodings/pb/adder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 0773442..378dd22 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -198,6 +198,9 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -319,6 +322,9 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-- 
2.43.0


From a5005a4b5e8519b08220d97c9764770e56aed13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 19/35] fix: do not panic on literals with weight zero in
 pseudo-Boolean encodings

---
 src/encodings/pb/adder.rs   | 7 ++++++-
 src/encodings/pb/dpw/mod.rs | 3 ++-
 src/encodings/pb/gte/mod.rs | 7 ++++++-
 src/encodings/pb/mod.rs     | 5 ++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 378dd22..638cc63 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -451,7 +451,8 @@ impl crate::encodings::EncodeStats for BinaryAdder {
 }
 
 impl From<RsHashMap<Lit, usize>> for BinaryAdder {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -468,6 +469,10 @@ impl FromIterator<(Lit, usize)> for BinaryAdder {
 impl Extend<(Lit, usize)> for BinaryAdder {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
         iter.into_iter().for_each(|(l, w)| {
+            // Literals with weight zero do not contribute to the sum
+            if w == 0 {
+                return;
+            }
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 722a1e2..fd3d328 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -416,7 +416,8 @@ impl crate::encodings::EncodeStats for DynamicPolyWatchdog {
 }
 
 impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + *w);
         let mut db = totdb::Db::default();
         let weight_queue = lit_weight_queue(lits.clone().into_iter(), &mut db);
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 1d8ecd0..db2d120 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -358,7 +358,8 @@ impl crate::encodings::EncodeStats for GeneralizedTotalizer {
 }
 
 impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -375,6 +376,10 @@ impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
 impl Extend<(Lit, usize)> for GeneralizedTotalizer {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
         iter.into_iter().for_each(|(l, w)| {
+            // Literals with weight zero do not contribute to the sum
+            if w == 0 {
+                return;
+            }
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 411bcc2..3f300ce 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -498,13 +498,16 @@ where
 }
 
 /// Collects weighted literals into a map, summing up the weights of literals that appear more than
-/// once
+/// once and skipping literals with weight zero
 fn collect_weighted_lits<I>(lits: I) -> RsHashMap<Lit, usize>
 where
     I: IntoIterator<Item = (Lit, usize)>,
 {
     let mut map = RsHashMap::default();
     for (lit, weight) in lits {
+        if weight == 0 {
+            continue;
+        }
         *map.entry(lit).or_insert(0) += weight;
     }
     map
-- 
2.43.0


From b12cbc3095e330845f2da86710b356866696d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 20/35] fix: recognize equality constraints with zero weights
 as tautologies

---
 src/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index e9c764f..abca6ab 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1412,7 +1412,7 @@ impl PbConstraint {
         match self {
             PbConstraint::Ub(constr) => constr.is_tautology(),
             PbConstraint::Lb(constr) => constr.is_tautology(),
-            PbConstraint::Eq(_) => false,
+            PbConstraint::Eq(constr) => constr.b == 0 && constr.weight_sum == 0,
         }
     }
 
-- 
2.43.0


From b21c90b2bb7c7e494a60e9505652976539464b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 21/35] fix: do not classify equalities as cardinality
 constraints if no multiple of their weight matches the bound

---
 src/types/constraints.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index abca6ab..6d80cc9 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1452,7 +1452,9 @@ impl PbConstraint {
         match self {
             PbConstraint::Ub(constr) => constr.find_unit_weight().is_some(),
             PbConstraint::Lb(constr) => constr.find_unit_weight().is_some(),
-            PbConstraint::Eq(constr) => constr.find_unit_weight().is_some(),
+            PbConstraint::Eq(constr) => constr
+                .find_unit_weight()
+                .is_some_and(|weight| weight > 0 && constr.b.unsigned_abs() % weight == 0),
         }
     }
 
-- 
2.43.0


From d94432df68357b2b86226fb4c5f59daef6b3dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 22/35] fix: do not enforce reserved but unencoded outputs of
 the dynamic polynomial watchdog

---
 src/encodings/pb/dpw/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index fd3d328..469b5e3 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -836,9 +836,26 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     if oidx >= tot_db[dpw.root()].max_val() {
         return Ok(vec![]);
     }
-    let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
+    let lit_data = match &tot_db[dpw.root()] {
+        totdb::Node::Leaf(lit) => totdb::LitData::Lit {
+            lit: *lit,
+            semantics: Some(totdb::Semantics::IfAndOnlyIf),
+        },
+        totdb::Node::Unit(node) => node.lits[oidx],
+        totdb::Node::General(node) => node.lit_data(oidx + 1).unwrap_or_default(),
+        totdb::Node::Dummy => unreachable!(),
+    };
+    // NOTE: an output literal might be reserved without being encoded
+    let totdb::LitData::Lit {
+        lit: olit,
+        semantics: Some(semantics),
+    } = lit_data
+    else {
         return Err(EnforceError::NotEncoded);
     };
+    if !semantics.has_if() {
+        return Err(EnforceError::NotEncoded);
+    }
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
     let mut enforced_weight = (oidx + 1) * output_weight - 1;
-- 
2.43.0


From 670a82ee78082aa08cc066d07a0c2699000cf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 23/35] fix: keep the maps of ReindexingVarManager in step with
 requested, reserved and forgotten variables

---
 src/instances/mod.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..9c7d27e 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,8 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    /// For each output variable, the input variable that it was re-indexed from (if any)
+    out_map: Vec<Option<Var>>,
 }
 
 impl ReindexingVarManager {
@@ -166,8 +167,12 @@ impl ReindexingVarManager {
     pub fn from_next_free(next_var: Var) -> Self {
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
+            out_map: (0..next_var.idx32())
+                .map(|idx| Some(Var::new(idx)))
+                .collect(),
         }
     }
 }
@@ -179,7 +184,9 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            // variables that were not handed out by re-indexing have no original
+            self.out_map.resize(v.idx(), None);
+            self.out_map.push(Some(in_var));
             v
         }
     }
@@ -188,7 +195,7 @@ impl ReindexVars for ReindexingVarManager {
         if out_var.idx() >= self.out_map.len() {
             return None;
         }
-        Some(self.out_map[out_var.idx()])
+        self.out_map[out_var.idx()]
     }
 }
 
@@ -229,7 +236,13 @@ impl ManageVars for ReindexingVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        for (in_var, out_var) in other.in_map {
+            self.in_map.insert(in_var, out_var);
+            if self.out_map.len() <= out_var.idx() {
+                self.out_map.resize(out_var.idx() + 1, None);
+            }
+            self.out_map[out_var.idx()] = Some(in_var);
+        }
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +251,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.truncate(min_var.idx());
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
-- 
2.43.0


From 127cc9ae54c34d4b5cbe3ce2f674cc9d049711b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 24/35] fix: keep the cardinality and pseudo-Boolean
 constraints of the other instance when extending

---
 src/instances/sat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..2b36e2f 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -709,6 +709,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
-- 
2.43.0


From 8f069b4f12598cd4e28ac6ad28e99bf444e7888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 25/35] fix: mark the variables of clauses that an instance is
 extended by as used

---
 src/instances/sat.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 2b36e2f..1da7c75 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -1159,7 +1159,7 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        iter.into_iter().for_each(|cl| self.add_clause(cl));
     }
 }
 
@@ -1172,7 +1172,14 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        let Self {
+            cnf, var_manager, ..
+        } = self;
+        cnf.extend_clauses(cl_iter.into_iter().inspect(|cl| {
+            for l in cl {
+                super::ManageVars::mark_used(var_manager, l.var());
+            }
+        }))
     }
 }
 
-- 
2.43.0


From 1de1fef18d38f6b4c7727296a1c0170e85cd961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 26/35] fix: mark the variable used for sanitized unsatisfiable
 instances as used

---
 src/instances/sat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 1da7c75..fbfcc04 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -929,6 +929,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -936,7 +938,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
-- 
2.43.0


From 551bd2ff69541e816770fbe0f0cae51e5d48b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 27/35] fix: relax soft clauses with the literal that incurs
 their cost in solve_maxsat

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..7b9865a 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1665,7 +1665,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-- 
2.43.0


From 61dd164eeafb0d34b32d977b1948cb077797dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 28/35] fix: consider objective variables and empty formulas in
 solution-improving search

---
 src/algs/maxsat.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..ec3b096 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -61,9 +61,17 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
+        let obj_max_var = objective.iter().map(|(l, _)| l.var()).max();
+        let Some(max_var) = std::cmp::max(solver.max_var(), obj_max_var) else {
+            return match solver.solve().expect("solver error while solving") {
+                SolverResult::Sat => Some((Assignment::default(), 0)),
+                SolverResult::Unsat => None,
+                SolverResult::Interrupted => unreachable!(),
+            };
         };
+        solver
+            .reserve(max_var)
+            .expect("solver error while reserving variables");
         let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
         let mut enc: PbEnc = objective.iter().copied().collect();
 
-- 
2.43.0


From 94fb584cd17f8b76183bfb9d86be5fe5a2bb2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 29/35] fix: reserve the variables of objectives before
 converting the constraints to clauses

---
 src/instances/multiopt.rs | 26 ++++++--------------------
 src/instances/opt.rs      | 23 ++++++++++-------------
 2 files changed, 16 insertions(+), 33 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..91489a3 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -137,16 +137,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
-        let soft_cls = self
-            .objs
+        let (constrs, objs) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let soft_cls = objs
             .into_iter()
             .map(Objective::into_soft_cls)
             .collect();
@@ -159,16 +152,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv);
-        let soft_lits = self
-            .objs
+        let (constrs, objs) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let soft_lits = objs
             .into_iter()
             .map(|o| {
                 let (hards, softs) = o.into_soft_lits(&mut vm);
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 7b9865a..0a681ac 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1289,11 +1289,9 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        (cnf, self.obj.into_soft_cls(), vm)
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        (cnf, obj.into_soft_cls(), vm)
     }
 
     /// Converts the instance to a set of hard clauses and soft literals, an
@@ -1303,11 +1301,9 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
+        let (constrs, obj) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let (hard_softs, softs) = obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
     }
@@ -1649,8 +1645,9 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
-        let (cnf, vm) = self.constrs.into_cnf();
-        let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let mut vm = if let Some(max_var) = vm.max_var() {
             super::BasicVarManager::from_next_free(max_var + 1)
         } else {
             super::BasicVarManager::default()
@@ -1669,7 +1666,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-        let (iter, offset) = self.obj.into_soft_cls();
+        let (iter, offset) = obj.into_soft_cls();
         let obj: Vec<_> = iter.into_iter().map(handle_soft_cls).collect();
         let (sol, cost) = Alg::solve(&mut solver, &obj)?;
         Some((
-- 
2.43.0


From 16db559762ac1f7f1fb42d55ea151d6b091035c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 30/35] fix: represent empty soft clauses as an offset when
 increasing weights

---
 src/instances/opt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 0a681ac..195090c 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -529,10 +529,18 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+            return;
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
-- 
2.43.0


From aa8bbc3217310f5d0fdde0736916b51c78c357c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 31/35] fix: consider repeated literals and clauses in
 unweighted objectives when updating and looking up weights

---
 src/instances/opt.rs | 47 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 195090c..e6896f0 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -55,6 +55,13 @@ impl Default for Objective {
     }
 }
 
+/// Removes all occurrences of an element from a vector and returns how many there were
+fn remove_all<T: PartialEq>(vec: &mut Vec<T>, elem: &T) -> usize {
+    let before = vec.len();
+    vec.retain(|other| other != elem);
+    before - vec.len()
+}
+
 impl Objective {
     /// Creates a new empty objective
     #[must_use]
@@ -400,18 +407,15 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    match remove_all(soft_lits, &l) {
+                        0 => None,
+                        cnt => Some(cnt * crate::utils::unreachable_none!(*unit_weight)),
                     }
-                    None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
-                        }
+                        let cnt = remove_all(soft_lits, &l);
                         soft_lits.push(l);
-                        None
+                        (cnt > 0).then_some(cnt * *unit_weight)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -500,18 +504,15 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    match remove_all(soft_clauses, &cl) {
+                        0 => None,
+                        cnt => Some(cnt * crate::utils::unreachable_none!(*unit_weight)),
                     }
-                    None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
-                        }
+                        let cnt = remove_all(soft_clauses, &cl);
                         soft_clauses.push(cl);
-                        None
+                        (cnt > 0).then_some(cnt * *unit_weight)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -578,10 +579,9 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
+                match soft_lits.iter().filter(|l2| *l2 == &l).count() {
+                    0 => None,
+                    cnt => Some(cnt * crate::utils::unreachable_none!(*unit_weight)),
                 }
             }
         }
@@ -597,10 +597,9 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
+                match soft_clauses.iter().filter(|cl2| *cl2 == cl).count() {
+                    0 => None,
+                    cnt => Some(cnt * crate::utils::unreachable_none!(*unit_weight)),
                 }
             }
         }
-- 
2.43.0


From 2ee62d927820d5b82749007a1f0ceb1202979736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 32/35] fix: do not change the value of objectives when
 normalizing

---
 src/instances/opt.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index e6896f0..d274a8e 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -950,7 +950,12 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    return Self(IntObj::Unweighted {
+                        offset: *offset,
+                        unit_weight: None,
+                        soft_lits: Vec::default(),
+                        soft_clauses: Vec::default(),
+                    });
                 }
                 let unit_weight = *soft_lits
                     .values()
@@ -1016,26 +1021,28 @@ impl Objective {
                 }
 
                 soft_lits.sort_unstable();
+                for pair in soft_lits.windows(2) {
+                    if pair[0] == pair[1] {
+                        // duplicate literal: objective is actually weighted
+                        self.unweighted_2_weighted();
+                        return self.normalize();
+                    }
+                }
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
-                    if soft_lits[next] == !soft_lits[next + 1] {
+                while next < soft_lits.len() {
+                    if next + 1 < soft_lits.len() && soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
                             .expect("can only handle weights up to `isize::MAX`");
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
-                        // duplicate literal: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
                     soft_lits.swap(end, next);
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From 74da78f1c642cee4b0d24797756b6bd1be5ac6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 33/35] fix: recognize an empty cardinality equality with bound
 zero as a tautology

---
 src/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 6d80cc9..ac85edd 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -769,7 +769,7 @@ impl CardConstraint {
         match self {
             CardConstraint::Ub(constr) => constr.is_tautology(),
             CardConstraint::Lb(constr) => constr.is_tautology(),
-            CardConstraint::Eq(_) => false,
+            CardConstraint::Eq(constr) => constr.b == 0 && constr.lits.is_empty(),
         }
     }
 
-- 
2.43.0


From cf94f4129934ac5f6034b71255400d4106f0e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:14 +0000
Subject: [PATCH 34/35] fix: DynamicPolyWatchdog did not scale the encoded
 range if a higher precision added nothing

---
 src/encodings/pb/dpw/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 469b5e3..8333878 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -394,6 +394,13 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
             let output_weight = 1 << (structure.output_power());
+            // if nothing had to be added for the current precision, outputs are still at the precision
+            // of the structure
+            let output_weight = output_weight
+                * 2_usize.pow(
+                    crate::utils::digits(structure.prec_div, 2)
+                        - crate::utils::digits(self.prec_div, 2),
+                );
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
-- 
2.43.0


From fc303246932ef23eaeaca9ab3a9883eaa227e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:00 +0000
Subject: [PATCH 35/35] fix: DynamicPolyWatchdog panicked if no weight reaches
 the precision divisor, and ignored it for a single input

---
 src/encodings/pb/dpw/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 8333878..ffee6c6 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -158,6 +158,12 @@ impl DynamicPolyWatchdog {
         self.weight_queue.is_empty()
     }
 
+    /// Checks whether no input weight reaches the current precision divisor, i.e., nothing needs to
+    /// be encoded
+    fn is_trivial(&self) -> bool {
+        self.in_lits.values().all(|&w| w < self.prec_div)
+    }
+
     /// Given a range of output values to limit the encoding to, returns additional clauses that
     /// "shrink" the encoding through hardening
     ///
@@ -271,7 +277,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
-        if self.structure.is_none() {
+        if self.structure.is_none() && !self.is_trivial() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
                 self.prec_div,
@@ -320,12 +326,15 @@ impl super::BoundUpper for DynamicPolyWatchdog {
                 );
             enforce_ub(structure, ub, &self.db)
         } else {
+            if self.is_trivial() {
+                return Ok(vec![]);
+            }
             if self.in_lits.len() > 1 {
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert_eq!(self.in_lits.len(), 1);
             let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
+            Ok(if *w / std::cmp::max(self.prec_div, 1) <= ub {
                 vec![]
             } else {
                 vec![-(*l)]
@@ -367,7 +376,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         }
         let n_vars_before = var_manager.n_used();
         let mut fresh = false;
-        if self.structure.is_none() && !self.in_lits.is_empty() {
+        if self.structure.is_none() && !self.is_trivial() {
             fresh = true;
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
-- 
2.43.0

