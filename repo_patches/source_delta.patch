From eec826012a15d345c009ff34ff546a434b4f5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 01/67] fix: allow creating literals of the variable with the
 maximum index

Lit::new is documented to panic only for indices above Var::MAX_IDX.
---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From d32c7210d6cefaf1fb03e7cd49e4264b10967522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 02/67] fix: detect conflicting negative literals in value
 lines

The value of the literal, not of the variable, was compared to the
polarity, so "v 1 -1" was accepted and "v -1 -1" rejected.
---
 src/types/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..f5de13b 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1041,10 +1041,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1078,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From f99351fea124491225c91cfc7449f918b718cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 03/67] fix: no panic on value lines starting with a multi-byte
 character

---
 src/types/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index f5de13b..77f7d35 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -990,12 +990,13 @@ impl Assignment {
             return Err(InvalidVLine::EmptyLine);
         }
         // determine line format
+        // (the tag is checked below, it might not be a single-byte character)
+        let values = lines.get(1..).unwrap_or("").trim();
         let format = if lines.contains('x') {
             VLineFormat::PbComp
-        } else if !lines[1..].trim().contains(' ')
-            && lines[1..].trim() != "0"
-            && lines[1..]
-                .trim()
+        } else if !values.contains(' ')
+            && values != "0"
+            && values
                 .chars()
                 .try_for_each(|c| {
                     if c == '1' || c == '0' {
-- 
2.43.0


From 5c6eb5e1863218f8a3908f1bd0d65975d7049a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 04/67] fix: evaluation of cardinality constraints at the
 boundaries

A lower bound or equality at the maximum still reachable value was
reported as violated, an already satisfied lower bound as undetermined.
Upper bounds above the number of literals no longer overflow.
---
 src/types/constraints.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..1062d58 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -887,17 +887,29 @@ impl CardConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + 1,
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
+        // all values in `range.start..=range.end` are still possible
         match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+            CardConstraint::Ub(CardUbConstr { b, .. }) => ternary(range.end <= *b, range.start > *b),
+            CardConstraint::Lb(CardLbConstr { b, .. }) => ternary(range.start >= *b, range.end < *b),
+            CardConstraint::Eq(CardEqConstr { b, .. }) => ternary(
+                range.start == *b && range.end == *b,
+                range.start > *b || range.end < *b,
+            ),
         }
     }
 }
 
+/// Ternary value from conditions under which it is certainly true and false, respectively
+fn ternary(is_true: bool, is_false: bool) -> TernaryVal {
+    if is_true {
+        TernaryVal::True
+    } else if is_false {
+        TernaryVal::False
+    } else {
+        TernaryVal::DontCare
+    }
+}
+
 impl<'slf> IntoIterator for &'slf CardConstraint {
     type Item = &'slf Lit;
 
@@ -1020,7 +1032,8 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            // a bound above the number of literals is always satisfied
+            b: length.saturating_sub(self.b),
         }
     }
 
@@ -1039,7 +1052,7 @@ impl CardUbConstr {
     /// Checks if the constraint is a clause
     #[must_use]
     pub fn is_clause(&self) -> bool {
-        self.b + 1 == self.lits.len()
+        self.b.checked_add(1) == Some(self.lits.len())
     }
 }
 
-- 
2.43.0


From 7256563523c7c2e1c2708df2b0310d97fecd1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 05/67] fix: evaluation of pseudo-boolean constraints at the
 boundaries

Same as for cardinality constraints, and sums above isize::MAX are
compared to the bound as numbers.
---
 src/types/constraints.rs | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 1062d58..c3d534a 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1635,33 +1635,21 @@ impl PbConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + coeff,
             });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
+        // all values in `start..=end` are bounds for what is still possible
+        let (start, end) = (range.start as i128, range.end as i128);
+        match self {
+            PbConstraint::Ub(PbUbConstr { b, .. }) => {
+                let b = *b as i128;
+                ternary(end <= b, start > b)
+            }
+            PbConstraint::Lb(PbLbConstr { b, .. }) => {
+                let b = *b as i128;
+                ternary(start >= b, end < b)
+            }
+            PbConstraint::Eq(PbEqConstr { b, .. }) => {
+                let b = *b as i128;
+                ternary(start == b && end == b, start > b || end < b)
             }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
         }
     }
 }
-- 
2.43.0


From 46079989bcc52cd867dfbac9cdaf7a4d00ce0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 06/67] fix: extend_to_card_constr panics on negative bounds,
 as documented

The absolute value of the bound was used, yielding a different constraint.
---
 src/types/constraints.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index c3d534a..c5b15f0 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1817,7 +1817,7 @@ impl PbUbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("constraint is unsat"),
         }
     }
 
@@ -1949,7 +1949,7 @@ impl PbLbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("constraint is a tautology"),
         }
     }
 
@@ -2078,7 +2078,7 @@ impl PbEqConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("constraint is unsat"),
         }
     }
 
-- 
2.43.0


From 410101e9a80bb578b76281cce46cb76c4bc6239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 07/67] fix: no division by zero for equalities with zero
 coefficients

---
 src/types/constraints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index c5b15f0..eae3fb5 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1553,6 +1553,10 @@ impl PbConstraint {
                 match unit_weight {
                     None => return Err(PbToCardError::NotACard),
                     Some(unit_weight) => {
+                        if unit_weight == 0 {
+                            // since this is not unsat, the bound is zero as well
+                            return Err(PbToCardError::Tautology);
+                        }
                         if b % unit_weight != 0 {
                             return Err(PbToCardError::Unsat);
                         }
-- 
2.43.0


From 3fd0cb79b7fe80a96706546d7d035e5a1cae8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 08/67] fix: literals with zero coefficient are not assigned by
 an equality

---
 src/types/constraints.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index eae3fb5..67aa5e9 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -2104,7 +2104,7 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == self.weight_sum
+        self.b.unsigned_abs() == self.weight_sum && self.lits.iter().all(|&(_, w)| w > 0)
     }
 
     /// Checks if the constraint assigns all literals to false
@@ -2113,7 +2113,7 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == 0
+        self.b.unsigned_abs() == 0 && self.lits.iter().all(|&(_, w)| w > 0)
     }
 
     /// Gets the unit weight of the constraint, if it exists
-- 
2.43.0


From 320cc1fa4166edc3c0000920c5fc5957e1c7bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 09/67] fix: a tautological upper bound implying a literal
 forces the literal

The reification of constraints that always hold allowed or forbade the
wrong assignments (or overflowed).
---
 src/encodings/atomics.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..88c5e55 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -131,6 +131,10 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     );
     match card {
         CardConstraint::Ub(c) => {
+            if c.is_tautology() {
+                // the literal needs to be true in any case
+                return PbConstraint::new_lb_unsigned([(lit, 1)], 1);
+            }
             let (lits, bound) = c.decompose_ref();
             let bound = 2 * lits.len() - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
@@ -206,6 +210,10 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
     );
     match pb {
         PbConstraint::Ub(c) => {
+            if c.is_tautology() {
+                // the literal needs to be true in any case
+                return PbConstraint::new_lb_unsigned([(lit, 1)], 1);
+            }
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
             let (lits, bound) = c.decompose_ref();
-- 
2.43.0


From 03cc36674780166177deba76c5750de2e36a3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 10/67] fix: bound ranges ending at usize::MAX, empty ranges
 and unbounded equality ranges

Encoding bounds up to and including usize::MAX overflowed, inverting an
empty range underflowed, and an equality range without lower end skipped zero.
---
 src/encodings/card/mod.rs        | 14 +++++++-------
 src/encodings/card/simulators.rs |  3 +++
 src/encodings/pb/mod.rs          | 14 +++++++-------
 src/encodings/pb/simulators.rs   |  3 +++
 4 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..0440a7b 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..3a06363 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,6 +53,9 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.n_lits() - (range.end - 1);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..5623149 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -503,10 +503,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -519,10 +519,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -535,10 +535,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..449d1b4 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,6 +53,9 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.weight_sum() - (range.end - 1);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
-- 
2.43.0


From f8b2a37b95203645e641cccbba89abd54e05f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 11/67] fix: trivial lower bounds and resetting of lower bounds
 in referenced totalizers

Enforcing a lower bound of zero panicked, and encoding a lower bound from
scratch reset the upper instead of the lower bound encoding.
---
 src/encodings/card/totalizer/referenced.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8a1f1d3..f99569c 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -191,11 +191,14 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.reset_encoded(totdb::Semantics::If);
+        self.db.reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
@@ -232,11 +235,14 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.borrow_mut().reset_encoded(totdb::Semantics::If);
+        self.db.borrow_mut().reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
-- 
2.43.0


From 75a6907eb6dae00c3fe3313081b0f9244a566988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 12/67] fix: encode_both of totalizers starts from scratch

Unlike the other non-incremental encoding methods (and its own documentation),
it left out clauses given to an earlier collector.
---
 src/encodings/card/totalizer/mod.rs        | 25 ++++------------
 src/encodings/card/totalizer/referenced.rs | 34 ++--------------------
 2 files changed, 7 insertions(+), 52 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..0b5761b 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -347,22 +347,7 @@ impl super::BoundLowerIncremental for Totalizer {
     }
 }
 
-impl super::BoundBoth for Totalizer {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl super::BoundBoth for Totalizer {}
 
 impl super::BoundBothIncremental for Totalizer {}
 
@@ -636,11 +621,11 @@ impl super::cert::BoundBoth for Totalizer {
         R: std::ops::RangeBounds<usize> + Clone,
         W: std::io::Write,
     {
-        use super::cert::BoundLowerIncremental;
-        use super::cert::BoundUpperIncremental;
+        use super::cert::BoundLower;
+        use super::cert::BoundUpper;
 
-        self.encode_ub_change_cert(range.clone(), collector, var_manager, proof)?;
-        self.encode_lb_change_cert(range, collector, var_manager, proof)?;
+        self.encode_ub_cert(range.clone(), collector, var_manager, proof)?;
+        self.encode_lb_cert(range, collector, var_manager, proof)?;
         Ok(())
     }
 
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index f99569c..04cfe90 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -380,39 +380,9 @@ impl crate::encodings::card::BoundLowerIncremental for TotCell<'_> {
     }
 }
 
-impl crate::encodings::card::BoundBoth for Tot<'_> {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl crate::encodings::card::BoundBoth for Tot<'_> {}
 
-impl crate::encodings::card::BoundBoth for TotCell<'_> {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl crate::encodings::card::BoundBoth for TotCell<'_> {}
 
 impl crate::encodings::card::BoundBothIncremental for Tot<'_> {}
 
-- 
2.43.0


From 9ec39376f339ef4e4af247824a098aa884e24d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 13/67] fix: count reserved variables in encoding statistics

---
 src/encodings/card/totalizer/mod.rs | 2 ++
 src/encodings/pb/adder.rs           | 2 ++
 src/encodings/pb/dpw/mod.rs         | 2 ++
 src/encodings/pb/gte/mod.rs         | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 0b5761b..904cd74 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -175,7 +175,9 @@ impl super::EncodeIncremental for Totalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_tree();
         if let Some(root) = self.root {
+            let n_vars_before = var_manager.n_used();
             self.db.reserve_vars(NodeCon::full(root), var_manager);
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..2c6b7aa 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -413,11 +413,13 @@ impl super::EncodeIncremental for BinaryAdder {
         self.extend_structure();
 
         if let Some(structure) = &self.structure {
+            let n_vars_before = var_manager.n_used();
             for &o in &structure.outputs {
                 if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
                     reserve(&mut self.nodes[..=node], var_manager);
                 }
             }
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..1a67da2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -271,6 +271,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
+        let n_vars_before = var_manager.n_used();
         if self.structure.is_none() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -284,6 +285,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
             self.db
                 .reserve_vars(NodeCon::full(structure.root()), var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..725749f 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -231,7 +231,9 @@ impl super::EncodeIncremental for GeneralizedTotalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_tree(usize::MAX);
         if let Some(con) = self.root {
+            let n_vars_before = var_manager.n_used();
             self.db.reserve_vars(con, var_manager);
+            self.n_vars += var_manager.n_used() - n_vars_before;
         }
     }
 }
-- 
2.43.0


From 9ceb46a04a872b38074a1478208d15d2119b529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 14/67] fix: pseudo-Boolean encodings add up repeated literals
 and ignore zero weights

Collecting weighted literals into an encoding kept only the last weight of a
literal given several times, and a weight of zero made the encodings panic.
---
 src/encodings/pb/adder.rs      |  9 ++++++---
 src/encodings/pb/dpw/mod.rs    |  9 ++++++---
 src/encodings/pb/gte/mod.rs    |  9 ++++++---
 src/encodings/pb/mod.rs        | 16 ++++++++++++++++
 src/encodings/pb/simulators.rs | 10 ++++------
 5 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 2c6b7aa..b6eec3c 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -437,7 +437,8 @@ impl crate::encodings::EncodeStats for BinaryAdder {
 }
 
 impl From<RsHashMap<Lit, usize>> for BinaryAdder {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -447,14 +448,16 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted(iter))
     }
 }
 
 impl Extend<(Lit, usize)> for BinaryAdder {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
         iter.into_iter().for_each(|(l, w)| {
+            if w == 0 {
+                return;
+            }
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 1a67da2..2d7ff1f 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -100,6 +100,9 @@ impl DynamicPolyWatchdog {
                 "cannot add inputs after building the encoding",
             ));
         }
+        if weight == 0 {
+            return Ok(());
+        }
         if let Some(lweight) = self.in_lits.get_mut(&lit) {
             *lweight += weight;
         } else {
@@ -418,7 +421,8 @@ impl crate::encodings::EncodeStats for DynamicPolyWatchdog {
 }
 
 impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + *w);
         let mut db = totdb::Db::default();
         let weight_queue = lit_weight_queue(lits.clone().into_iter(), &mut db);
@@ -437,8 +441,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted(iter))
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 725749f..7c1ed4e 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -360,7 +360,8 @@ impl crate::encodings::EncodeStats for GeneralizedTotalizer {
 }
 
 impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -370,14 +371,16 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted(iter))
     }
 }
 
 impl Extend<(Lit, usize)> for GeneralizedTotalizer {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
         iter.into_iter().for_each(|(l, w)| {
+            if w == 0 {
+                return;
+            }
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 5623149..9d37135 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -42,6 +42,7 @@ use crate::types::constraints::PbLbConstr;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -496,6 +497,21 @@ where
     }
 }
 
+/// Collects weighted literals, adding up the weights of repeated literals and dropping literals
+/// with weight zero
+fn collect_weighted<Iter>(lits: Iter) -> RsHashMap<Lit, usize>
+where
+    Iter: IntoIterator<Item = (Lit, usize)>,
+{
+    let mut collected = RsHashMap::default();
+    for (lit, weight) in lits {
+        if weight > 0 {
+            *collected.entry(lit).or_insert(0) += weight;
+        }
+    }
+    collected
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 449d1b4..38ec945 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -85,8 +85,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weighted(iter))
     }
 }
 
@@ -95,7 +94,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::collect_weighted(iter.into_iter().map(|(l, w)| (!l, w)));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -554,8 +553,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weighted(iter))
     }
 }
 
@@ -565,7 +563,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
-- 
2.43.0


From 7f7348d0f17fc72e9831a51f520902a6e37c9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 15/67] fix: binary adder reserve and only-if direction of
 carries

Reserving variables split the nodes past the last one and panicked, and the
only-if direction of a carry encoded the if direction of its inputs.
---
 src/encodings/pb/adder.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index b6eec3c..83b1dda 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -826,9 +826,9 @@ where
                 bit
             };
 
-            let a = get_bit_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_if(*b, nodes, collector, var_manager)?;
-            let c = get_bit_if(*c, nodes, collector, var_manager)?;
+            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
+            let c = get_bit_only_if(*c, nodes, collector, var_manager)?;
 
             collector.add_clause(b | c | !carry)?;
             collector.add_clause(a | c | !carry)?;
@@ -841,20 +841,20 @@ where
                 if carry.enc_only_if {
                     return Ok(carry.bit);
                 }
-                carry.enc_if = true;
+                carry.enc_only_if = true;
                 carry.bit
             } else {
                 let bit = var_manager.new_lit();
                 *carry = Some(Output {
                     bit,
-                    enc_if: true,
-                    enc_only_if: false,
+                    enc_if: false,
+                    enc_only_if: true,
                 });
                 bit
             };
 
-            let a = get_bit_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_if(*b, nodes, collector, var_manager)?;
+            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
 
             collector.add_clause(a | !carry)?;
             collector.add_clause(b | !carry)?;
@@ -866,7 +866,7 @@ where
 
 /// Reserves the variables for the last node in `nodes` recursively
 fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
+    let (nodes, node) = nodes.split_at_mut(nodes.len() - 1);
 
     let node = &mut node[0];
     node.reserve(var_manager);
-- 
2.43.0


From 510c5c595790f9cc936d719474589953fa8a11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 16/67] fix: binary adder tracks the encoded direction of each
 bound

Encoding lower bounds looked at the flag for upper bounds, the flags of bounds
were never reset, and those of both directions of the nodes always together, so
that clauses were missing. Bounds are kept in a map, since a list indexed by the
bound runs out of memory for large weights.
---
 src/encodings/pb/adder.rs | 123 ++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 73 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 83b1dda..370df99 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -61,10 +61,26 @@ struct Structure {
     /// The output bits of the structure
     outputs: Vec<Option<Connection>>,
     /// Comparator structure for providing assumptions
-    comparator: Vec<Option<Output>>,
+    comparator: RsHashMap<usize, Output>,
 }
 
 impl BinaryAdder {
+    /// Iterates over all node and comparator outputs
+    fn outputs_mut(&mut self) -> impl Iterator<Item = &mut Output> + '_ {
+        self.nodes
+            .iter_mut()
+            .flat_map(|node| match node {
+                Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => {
+                    sum.iter_mut().chain(carry)
+                }
+            })
+            .chain(
+                self.structure
+                    .iter_mut()
+                    .flat_map(|structure| structure.comparator.values_mut()),
+            )
+    }
+
     fn extend_structure(&mut self) {
         if self.lit_buffer.is_empty() {
             return;
@@ -145,7 +161,7 @@ impl BinaryAdder {
                     q.pop_front()
                 })
                 .collect(),
-            comparator: Vec::new(),
+            comparator: RsHashMap::default(),
         });
     }
 }
@@ -170,22 +186,7 @@ impl super::BoundUpper for BinaryAdder {
         R: std::ops::RangeBounds<usize>,
     {
         // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.outputs_mut().for_each(|out| out.enc_if = false);
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -193,12 +194,15 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-        let Some(Some(Output {
+        let Some(Output {
             bit, enc_if: true, ..
-        })) = structure.comparator.get(ub)
+        }) = structure.comparator.get(&ub)
         else {
             return Err(EnforceError::NotEncoded);
         };
@@ -242,11 +246,8 @@ impl super::BoundUpperIncremental for BinaryAdder {
                     outputs.push(None);
                 }
             }
-            if structure.comparator.len() < range.end {
-                structure.comparator.resize(range.end, None);
-            }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val] {
+                let output = if let Some(output) = structure.comparator.get_mut(&val) {
                     if output.enc_if {
                         continue;
                     }
@@ -254,11 +255,14 @@ impl super::BoundUpperIncremental for BinaryAdder {
                     output.bit
                 } else {
                     let bit = var_manager.new_lit();
-                    structure.comparator[val] = Some(Output {
-                        bit,
-                        enc_if: true,
-                        enc_only_if: false,
-                    });
+                    structure.comparator.insert(
+                        val,
+                        Output {
+                            bit,
+                            enc_if: true,
+                            enc_only_if: false,
+                        },
+                    );
                     bit
                 };
                 comparator_if(val, output, &outputs, collector)?;
@@ -283,22 +287,7 @@ impl super::BoundLower for BinaryAdder {
         R: std::ops::RangeBounds<usize>,
     {
         // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.outputs_mut().for_each(|out| out.enc_only_if = false);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -309,14 +298,17 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-        let Some(Some(Output {
+        let Some(Output {
             bit,
             enc_only_if: true,
             ..
-        })) = structure.comparator.get(lb - 1)
+        }) = structure.comparator.get(&(lb - 1))
         else {
             return Err(EnforceError::NotEncoded);
         };
@@ -360,23 +352,23 @@ impl super::BoundLowerIncremental for BinaryAdder {
                     outputs.push(None);
                 }
             }
-            if structure.comparator.len() < range.end {
-                structure.comparator.resize(range.end, None);
-            }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_if {
+                let output = if let Some(output) = structure.comparator.get_mut(&(val - 1)) {
+                    if output.enc_only_if {
                         continue;
                     }
                     output.enc_only_if = true;
                     output.bit
                 } else {
                     let bit = var_manager.new_lit();
-                    structure.comparator[val - 1] = Some(Output {
-                        bit,
-                        enc_if: false,
-                        enc_only_if: true,
-                    });
+                    structure.comparator.insert(
+                        val - 1,
+                        Output {
+                            bit,
+                            enc_if: false,
+                            enc_only_if: true,
+                        },
+                    );
                     bit
                 };
                 comparator_only_if(val - 1, output, &outputs, collector)?;
@@ -389,22 +381,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
     }
 }
 
-impl super::BoundBoth for BinaryAdder {
-    fn encode_both<Col, R>(
-        &mut self,
-        range: R,
-        collector: &mut Col,
-        var_manager: &mut dyn ManageVars,
-    ) -> Result<(), crate::OutOfMemory>
-    where
-        Col: CollectClauses,
-        R: std::ops::RangeBounds<usize> + Clone,
-    {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
-    }
-}
+impl super::BoundBoth for BinaryAdder {}
 
 impl super::BoundBothIncremental for BinaryAdder {}
 
-- 
2.43.0


From 9981186247877cc403f29b40c2430209d4e1f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 17/67] fix: binary adder with weights using the highest bits
 of usize

---
 src/encodings/pb/adder.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 370df99..8d528ad 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -98,7 +98,7 @@ impl BinaryAdder {
                     std::collections::VecDeque::with_capacity(1)
                 });
             }
-            for (idx, bucket) in buckets.iter_mut().take(max_bucket + 1).enumerate() {
+            for (idx, bucket) in buckets.iter_mut().take(max_bucket).enumerate() {
                 if weight & (1usize << idx) != 0 {
                     // NOTE: we push to the front here in order to get input literals into the
                     // structure first
@@ -868,6 +868,12 @@ fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
     }
 }
 
+/// Checks whether bit `idx` is set in `val`
+#[inline]
+fn has_bit(val: usize, idx: usize) -> bool {
+    idx < usize::BITS as usize && val & (1usize << idx) != 0
+}
+
 fn comparator_if<Col>(
     rhs: usize,
     output: Lit,
@@ -877,9 +883,9 @@ fn comparator_if<Col>(
 where
     Col: CollectClauses,
 {
-    debug_assert!(rhs < (1usize << lhs.len()));
+    debug_assert!((lhs.len()..usize::BITS as usize).all(|idx| !has_bit(rhs, idx)));
 
-    let y = |idx: usize| -> bool { rhs & (1usize << idx) != 0 };
+    let y = |idx: usize| -> bool { has_bit(rhs, idx) };
 
     let comp_clause = |i: usize| -> Option<Clause> {
         if y(i) {
@@ -918,15 +924,15 @@ fn comparator_only_if<Col>(
 where
     Col: CollectClauses,
 {
-    debug_assert!(rhs < (1usize << lhs.len()));
+    debug_assert!((lhs.len()..usize::BITS as usize).all(|idx| !has_bit(rhs, idx)));
 
-    if rhs == (1usize << lhs.len()) - 1 {
+    if (0..lhs.len()).all(|idx| has_bit(rhs, idx)) {
         return collector.add_clause(crate::clause![!output]);
     }
 
     let rhs = rhs + 1;
 
-    let y = |idx: usize| -> bool { rhs & (1usize << idx) != 0 };
+    let y = |idx: usize| -> bool { has_bit(rhs, idx) };
 
     let comp_clause = |i: usize| -> Option<Clause> {
         if !y(i) {
-- 
2.43.0


From 1a171b54c7d48be376dcd00b72d212d95222af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 18/67] fix: overflow of the highest value to encode in the
 generalized totalizer

---
 src/encodings/pb/gte/mod.rs        |  9 ++++++---
 src/encodings/pb/gte/referenced.rs | 14 ++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 7c1ed4e..518d9c1 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -270,7 +270,10 @@ impl super::BoundUpper for GeneralizedTotalizer {
         // Enforce bound on internal tree
         if let Some(con) = self.root {
             self.db[con.id]
-                .vals(con.rev_map_round_up(ub + 1)..=con.rev_map(ub + self.max_leaf_weight))
+                .vals(
+                    con.rev_map_round_up(ub + 1)
+                        ..=con.rev_map(ub.saturating_add(self.max_leaf_weight)),
+                )
                 .try_for_each(|val| {
                     match &self.db[con.id] {
                         totdb::Node::Leaf(lit) => {
@@ -332,7 +335,7 @@ impl super::BoundUpperIncremental for GeneralizedTotalizer {
             self.db[con.id]
                 .vals(
                     con.rev_map_round_up(range.start + 1)
-                        ..=con.rev_map(range.end + self.max_leaf_weight),
+                        ..=con.rev_map(range.end.saturating_add(self.max_leaf_weight)),
                 )
                 .try_for_each(|val| {
                     self.db
@@ -513,7 +516,7 @@ impl super::cert::BoundUpperIncremental for GeneralizedTotalizer {
             self.db[con.id]
                 .vals(
                     con.rev_map_round_up(range.start + 1)
-                        ..=con.rev_map(range.end + self.max_leaf_weight),
+                        ..=con.rev_map(range.end.saturating_add(self.max_leaf_weight)),
                 )
                 .try_for_each(|val| {
                     (_, leaves_init) = self
diff --git a/src/encodings/pb/gte/referenced.rs b/src/encodings/pb/gte/referenced.rs
index 9965f55..313a1f3 100644
--- a/src/encodings/pb/gte/referenced.rs
+++ b/src/encodings/pb/gte/referenced.rs
@@ -158,7 +158,10 @@ impl crate::encodings::pb::BoundUpper for Gte<'_> {
         let mut assumps = vec![];
         // Enforce bound on internal tree
         self.db[self.root.id]
-            .vals(self.root.rev_map_round_up(ub + 1)..=self.root.rev_map(ub + self.max_leaf_weight))
+            .vals(
+                self.root.rev_map_round_up(ub + 1)
+                    ..=self.root.rev_map(ub.saturating_add(self.max_leaf_weight)),
+            )
             .try_for_each(|val| {
                 match &self.db[self.root.id] {
                     totdb::Node::Leaf(lit) => {
@@ -220,7 +223,10 @@ impl crate::encodings::pb::BoundUpper for GteCell<'_> {
         let mut assumps = vec![];
         // Enforce bound on internal tree
         self.db.borrow()[self.root.id]
-            .vals(self.root.rev_map_round_up(ub + 1)..=self.root.rev_map(ub + self.max_leaf_weight))
+            .vals(
+                self.root.rev_map_round_up(ub + 1)
+                    ..=self.root.rev_map(ub.saturating_add(self.max_leaf_weight)),
+            )
             .try_for_each(|val| {
                 match &self.db.borrow()[self.root.id] {
                     totdb::Node::Leaf(lit) => {
@@ -277,7 +283,7 @@ impl crate::encodings::pb::BoundUpperIncremental for Gte<'_> {
         self.db[self.root.id]
             .vals(
                 self.root.rev_map_round_up(range.start + 1)
-                    ..=self.root.rev_map(range.end + self.max_leaf_weight),
+                    ..=self.root.rev_map(range.end.saturating_add(self.max_leaf_weight)),
             )
             .try_for_each(|val| {
                 self.db
@@ -306,7 +312,7 @@ impl BoundUpperIncremental for GteCell<'_> {
         }
         let mut vals = self.db.borrow()[self.root.id].vals(
             self.root.rev_map_round_up(range.start + 1)
-                ..=self.root.rev_map(range.end + self.max_leaf_weight),
+                ..=self.root.rev_map(range.end.saturating_add(self.max_leaf_weight)),
         );
         vals.try_for_each(|val| {
             self.db
-- 
2.43.0


From ecb22a7d5546c4eec7c917ba2f25c59d2271aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 19/67] fix: next_higher/next_lower of pseudo-Boolean encodings
 skip no possible sum

Literals not yet in the tree were not considered, and values at the ends of the
range of sums underflowed.
---
 src/encodings/pb/gte/mod.rs        | 31 +++++++++++++++++++++---------
 src/encodings/pb/gte/referenced.rs |  6 ++++++
 src/encodings/pb/mod.rs            |  2 +-
 src/encodings/pb/simulators.rs     |  9 +++++++++
 4 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 518d9c1..0d1cc9f 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -156,6 +156,18 @@ impl GeneralizedTotalizer {
         }
     }
 
+    /// Gets the next higher value with an output in the tree
+    fn next_higher_output(&self, val: usize) -> usize {
+        if let Some(con) = self.root {
+            self.db[con.id]
+                .vals(con.rev_map_round_up(val + 1)..)
+                .next()
+                .map_or(val + 1, |val| con.map(val))
+        } else {
+            val + 1
+        }
+    }
+
     /// Gets the number of output literals in the generalized totalizer
     #[must_use]
     pub fn n_output_lits(&self) -> usize {
@@ -203,20 +215,21 @@ impl super::Encode for GeneralizedTotalizer {
     }
 
     fn next_higher(&self, val: usize) -> usize {
-        if let Some(con) = self.root {
-            self.db[con.id]
-                .vals(con.rev_map_round_up(val + 1)..)
-                .next()
-                .map_or(val + 1, |val| con.map(val))
-        } else {
-            val + 1
+        if !self.lit_buffer.is_empty() {
+            // the tree does not know about the sums including these literals
+            return val + 1;
         }
+        self.next_higher_output(val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
         if val == 0 {
             return 0;
         }
+        if !self.lit_buffer.is_empty() {
+            // the tree does not know about the sums including these literals
+            return val - 1;
+        }
         if let Some(con) = self.root {
             return self.db[con.id]
                 .vals(con.offset()..con.rev_map_round_up(val))
@@ -446,7 +459,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let mut val = enc.next_higher(ub);
+        let mut val = enc.next_higher_output(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
@@ -479,7 +492,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 )?;
                 #[cfg(feature = "verbose-proofs")]
                 proof.equals(&unit_cl, Some(unit_id.into()))?;
-                val = enc.next_higher(val);
+                val = enc.next_higher_output(val);
                 unit_id
             };
             collector.add_cert_clause(unit_cl, unit_id)?;
diff --git a/src/encodings/pb/gte/referenced.rs b/src/encodings/pb/gte/referenced.rs
index 313a1f3..2feaca0 100644
--- a/src/encodings/pb/gte/referenced.rs
+++ b/src/encodings/pb/gte/referenced.rs
@@ -96,6 +96,9 @@ impl crate::encodings::pb::Encode for Gte<'_> {
     }
 
     fn next_lower(&self, val: usize) -> usize {
+        if val == 0 {
+            return 0;
+        }
         self.db[self.root.id]
             .vals(self.root.offset()..self.root.rev_map_round_up(val))
             .next_back()
@@ -116,6 +119,9 @@ impl crate::encodings::pb::Encode for GteCell<'_> {
     }
 
     fn next_lower(&self, val: usize) -> usize {
+        if val == 0 {
+            return 0;
+        }
         self.db.borrow()[self.root.id]
             .vals(self.root.offset()..self.root.rev_map_round_up(val))
             .next_back()
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 9d37135..f1c3926 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -81,7 +81,7 @@ pub trait Encode {
     /// Gets the next lower value possible to be achieved by the weighted sum.
     /// Might simply return `val - 1` if no stronger value can be inferred.
     fn next_lower(&self, val: usize) -> usize {
-        val - 1
+        val.saturating_sub(1)
     }
 }
 
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 38ec945..1068170 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -110,10 +110,19 @@ where
     }
 
     fn next_higher(&self, val: usize) -> usize {
+        if val >= self.weight_sum {
+            return val + 1;
+        }
         self.weight_sum - self.pb_enc.next_lower(self.weight_sum - val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
+        if val == 0 {
+            return 0;
+        }
+        if val > self.weight_sum {
+            return self.weight_sum;
+        }
         self.weight_sum - self.pb_enc.next_higher(self.weight_sum - val)
     }
 }
-- 
2.43.0


From 0f5fa0160ce8e864ca0e36c9d717522fc974ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 20/67] fix: equalities with equal coefficients that do not
 divide the bound

Such a constraint is recognised as a cardinality constraint, but converting it
reports that it is unsatisfiable, which made encoding and sanitizing it panic.
---
 src/encodings/pb/cert.rs | 18 +++++++++++++++++-
 src/encodings/pb/mod.rs  | 10 ++++++++--
 src/instances/sat.rs     | 10 +++++++++-
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..bc79839 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -6,7 +6,9 @@ use crate::encodings::cert::ConstraintEncodingError;
 use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Lit;
+use crate::types::Var;
 
 /// Trait for certified PB encodings that allow upper bounding of the form `sum of lits <=
 /// ub`
@@ -383,7 +385,21 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
-        let card = crate::utils::unreachable_err!(constr.into_card_constr());
+        let unit_weight = constr.iter().next().map_or(1, |&(_, w)| w);
+        let card = match constr.into_card_constr() {
+            Ok(card) => card,
+            Err(PbToCardError::Tautology) => return Ok(()),
+            Err(PbToCardError::Unsat) => {
+                // an equality of which the bound is not a multiple of the unit weight
+                let unsat_id = proof.operations::<Var>(
+                    &((pigeons::OperationSequence::from(id) / unit_weight)
+                        + (pigeons::OperationSequence::from(id + 1) / unit_weight)),
+                )?;
+                collector.add_cert_clause(crate::clause![], unsat_id)?;
+                return Ok(());
+            }
+            Err(PbToCardError::NotACard) => unreachable!(),
+        };
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
             collector,
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index f1c3926..d105575 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -39,6 +39,7 @@ use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbEqConstr;
 use crate::types::constraints::PbLbConstr;
+use crate::types::constraints::PbToCardError;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -487,8 +488,13 @@ where
         return collector.add_clause(unreachable_err!(constr.into_clause()));
     }
     if constr.is_card() {
-        let card = unreachable_err!(constr.into_card_constr());
-        return card::default_encode_cardinality_constraint(card, collector, var_manager);
+        return match constr.into_card_constr() {
+            Ok(card) => card::default_encode_cardinality_constraint(card, collector, var_manager),
+            Err(PbToCardError::Tautology) => Ok(()),
+            // e.g., an equality of which the bound is not a multiple of the unit weight
+            Err(PbToCardError::Unsat) => collector.add_clause(Clause::new()),
+            Err(PbToCardError::NotACard) => unreachable!(),
+        };
     }
     match PBE::encode_constr(constr, collector, var_manager) {
         Ok(()) => Ok(()),
diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..e7f0234 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -4,6 +4,7 @@ use crate::encodings::CollectClauses;
 use crate::types::constraints::CardConstraint;
 use crate::types::constraints::ConstraintRef;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Assignment;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -893,7 +894,14 @@ impl<VM: super::ManageVars> Instance<VM> {
                     return None;
                 }
                 if pb.is_card() {
-                    cards.push(crate::utils::unreachable_err!(pb.into_card_constr()));
+                    match pb.into_card_constr() {
+                        Ok(card) => cards.push(card),
+                        Err(PbToCardError::Tautology) => (),
+                        // e.g., an equality of which the bound is not a multiple of the unit
+                        // weight
+                        Err(PbToCardError::Unsat) => unsat = true,
+                        Err(PbToCardError::NotACard) => unreachable!(),
+                    }
                     return None;
                 }
                 Some(pb)
-- 
2.43.0


From 726aba15d74b079be4df105df53b6184614079d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 21/67] fix: dynamic polynomial watchdog only enforces bounds
 that are encoded

After reserving variables, the output had a literal without clauses, and
enforcing an upper bound returned it rather than reporting that the bound is not
encoded.
---
 src/encodings/pb/dpw/mod.rs | 3 +++
 src/encodings/totdb/mod.rs  | 4 ----
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 2d7ff1f..a0ac049 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -844,6 +844,9 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
         return Err(EnforceError::NotEncoded);
     };
+    if !tot_db[dpw.root()].semantics_if(oidx + 1) {
+        return Err(EnforceError::NotEncoded);
+    }
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
     let mut enforced_weight = (oidx + 1) * output_weight - 1;
diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index dc923e0..3f10e5e 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -946,7 +946,6 @@ impl Node {
     }
 
     /// Checks if a given output value has "if" semantics encoded
-    #[cfg(feature = "_internals")]
     #[must_use]
     pub fn semantics_if(&self, val: usize) -> bool {
         match &self {
@@ -1132,7 +1131,6 @@ impl UnitNode {
     }
 
     /// Checks if a given value has "if" semantics encoded
-    #[cfg(feature = "_internals")]
     #[inline]
     #[must_use]
     pub fn semantics_if(&self, val: usize) -> bool {
@@ -1262,7 +1260,6 @@ impl GeneralNode {
     }
 
     /// Checks if a given value has the "if" semantics encoded
-    #[cfg(feature = "_internals")]
     #[inline]
     #[must_use]
     pub fn semantics_if(&self, val: usize) -> bool {
@@ -1306,7 +1303,6 @@ impl LitData {
         }
     }
 
-    #[cfg(feature = "_internals")]
     #[inline]
     #[must_use]
     fn semantics_if(self) -> bool {
-- 
2.43.0


From 530595f28ab7268f829a44cfa021b640b08ab494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 22/67] fix: precision of the dynamic polynomial watchdog above
 all weights

Building the structure at a precision divisor above all weights panicked, and
the bound on a single literal and on no literals ignored the precision.
---
 src/encodings/pb/dpw/mod.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index a0ac049..5f22a7f 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -139,6 +139,14 @@ impl DynamicPolyWatchdog {
         Ok(())
     }
 
+    /// Checks whether there are weights that need to be added to the structure at the current
+    /// precision
+    fn is_pending(&self) -> bool {
+        self.weight_queue
+            .last_key_value()
+            .is_some_and(|(&weight, _)| weight >= self.prec_div)
+    }
+
     /// Gets the next possible precision divisor value
     ///
     /// Note that this is not the next possible precision value from the last _set_ precision but
@@ -275,7 +283,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
             return;
         }
         let n_vars_before = var_manager.n_used();
-        if self.structure.is_none() {
+        if self.structure.is_none() && self.is_pending() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
                 self.prec_div,
@@ -312,9 +320,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             return Ok(vec![]);
         }
         if let Some(structure) = &self.structure {
-            if !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if self.is_pending() {
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert!(structure.prec_div >= self.prec_div);
@@ -326,11 +332,17 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             enforce_ub(structure, ub, &self.db)
         } else {
             if self.in_lits.len() > 1 {
-                return Err(EnforceError::NotEncoded);
+                return if self.is_pending() {
+                    Err(EnforceError::NotEncoded)
+                } else {
+                    // at this precision, all weights are zero
+                    Ok(vec![])
+                };
             }
-            debug_assert_eq!(self.in_lits.len(), 1);
-            let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
+            let Some((l, w)) = self.in_lits.iter().next() else {
+                return Ok(vec![]);
+            };
+            Ok(if *w / std::cmp::max(self.prec_div, 1) <= ub {
                 vec![]
             } else {
                 vec![-(*l)]
@@ -372,7 +384,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         }
         let n_vars_before = var_manager.n_used();
         let mut fresh = false;
-        if self.structure.is_none() && !self.in_lits.is_empty() {
+        if self.structure.is_none() && self.is_pending() {
             fresh = true;
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -382,12 +394,10 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 var_manager,
             ));
         }
+        let extend = !fresh && self.is_pending();
         if let Some(structure) = &mut self.structure {
             let n_clauses_before = collector.n_clauses();
-            if !fresh
-                && !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if extend {
                 // precision has been increased, need to extend encoding
                 let new_struct = build_structure(
                     &mut self.weight_queue,
-- 
2.43.0


From e60bc27337d57ec942d7c9c9dbb3d3338d556d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 23/67] fix: value ranges of totalizer nodes including
 usize::MAX

---
 src/encodings/totdb/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index 3f10e5e..b8b9b5f 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -796,11 +796,15 @@ impl NodeLike for Node {
                 };
                 let from = match range.start_bound() {
                     std::ops::Bound::Included(b) => bin_search(*b),
-                    std::ops::Bound::Excluded(b) => bin_search(*b + 1),
+                    std::ops::Bound::Excluded(b) => {
+                        b.checked_add(1).map_or(node.lits.len(), bin_search)
+                    }
                     std::ops::Bound::Unbounded => 0,
                 };
                 let till = match range.end_bound() {
-                    std::ops::Bound::Included(b) => bin_search(*b + 1),
+                    std::ops::Bound::Included(b) => {
+                        b.checked_add(1).map_or(node.lits.len(), bin_search)
+                    }
                     std::ops::Bound::Excluded(b) => bin_search(*b),
                     std::ops::Bound::Unbounded => node.lits.len(),
                 };
@@ -1037,11 +1041,15 @@ impl Node {
                 };
                 let from = match range.start_bound() {
                     std::ops::Bound::Included(b) => bin_search(*b),
-                    std::ops::Bound::Excluded(b) => bin_search(*b + 1),
+                    std::ops::Bound::Excluded(b) => {
+                        b.checked_add(1).map_or(lits.len(), bin_search)
+                    }
                     std::ops::Bound::Unbounded => 0,
                 };
                 let till = match range.end_bound() {
-                    std::ops::Bound::Included(b) => bin_search(*b + 1),
+                    std::ops::Bound::Included(b) => {
+                        b.checked_add(1).map_or(lits.len(), bin_search)
+                    }
                     std::ops::Bound::Excluded(b) => bin_search(*b),
                     std::ops::Bound::Unbounded => lits.len(),
                 };
-- 
2.43.0


From 3082dcfc9e21d441a9f13cfe9bf28b51d7c62181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 24/67] fix: overflows for sums of weights close to usize::MAX

---
 src/encodings/nodedb.rs     | 6 +++++-
 src/encodings/pb/dpw/mod.rs | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/encodings/nodedb.rs b/src/encodings/nodedb.rs
index d4c743d..da0af45 100644
--- a/src/encodings/nodedb.rs
+++ b/src/encodings/nodedb.rs
@@ -337,7 +337,11 @@ impl NodeCon {
             }
         }
         if !val.is_multiple_of(self.multiplier()) {
-            val += self.multiplier();
+            match val.checked_add(self.multiplier()) {
+                Some(next) => val = next,
+                // there is no output value of this size
+                None => return usize::MAX,
+            }
         }
         self.rev_map(val)
     }
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 5f22a7f..55969a6 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -360,7 +360,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
                 if ub < output_weight {
                     return ub;
                 }
-                (ub + 1) / output_weight * output_weight - 1
+                ub.saturating_add(1) / output_weight * output_weight - 1
             }
             None => ub,
         }
@@ -859,12 +859,12 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     }
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
-    let mut enforced_weight = (oidx + 1) * output_weight - 1;
+    let mut enforced_weight = oidx * output_weight + (output_weight - 1);
     debug_assert!(enforced_weight >= ub);
     // Set needed tares
     for power in (0..dpw.output_power()).rev() {
         let weight = 1 << power;
-        if ub + weight <= enforced_weight {
+        if weight <= enforced_weight - ub {
             enforced_weight -= weight;
             assumps.push(dpw.tares[power]);
         }
-- 
2.43.0


From f6908b3202e682e4bdd99fe9a178bd35f75af070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 25/67] fix: binary adder upper bounds after lower bounds and
 encode_both

The nodes are re-encoded for upper bounds where the encoding of lower bounds
only marked them, and encode_both encodes the lower bounds first, as they are
skipped if their comparator is already encoded for upper bounds.
---
 src/encodings/pb/adder.rs | 132 +++++++++++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 23 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 8d528ad..5fe4038 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -65,20 +65,47 @@ struct Structure {
 }
 
 impl BinaryAdder {
-    /// Iterates over all node and comparator outputs
-    fn outputs_mut(&mut self) -> impl Iterator<Item = &mut Output> + '_ {
+    /// Resets which directions of the nodes are encoded
+    fn reset_nodes(&mut self) {
+        for node in &mut self.nodes {
+            for out in node.outputs_mut() {
+                out.enc_if = false;
+                out.enc_only_if = false;
+            }
+        }
+    }
+
+    /// Gets which of the nodes have their sum and carry encoded in the if direction
+    fn nodes_enc_if(&self) -> Vec<(bool, bool)> {
+        let enc_if = |out: &Option<Output>| out.is_some_and(|out| out.enc_if);
         self.nodes
-            .iter_mut()
-            .flat_map(|node| match node {
+            .iter()
+            .map(|node| match node {
                 Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => {
-                    sum.iter_mut().chain(carry)
+                    (enc_if(sum), enc_if(carry))
                 }
             })
-            .chain(
-                self.structure
-                    .iter_mut()
-                    .flat_map(|structure| structure.comparator.values_mut()),
-            )
+            .collect()
+    }
+
+    /// Resets the if direction of all nodes that were not encoded in that direction before
+    fn restore_nodes_enc_if(&mut self, before: &[(bool, bool)]) {
+        let before = before
+            .iter()
+            .copied()
+            .chain(std::iter::repeat((false, false)));
+        for (node, (sum_before, carry_before)) in self.nodes.iter_mut().zip(before) {
+            match node {
+                Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => {
+                    if let Some(sum) = sum {
+                        sum.enc_if &= sum_before;
+                    }
+                    if let Some(carry) = carry {
+                        carry.enc_if &= carry_before;
+                    }
+                }
+            }
+        }
     }
 
     fn extend_structure(&mut self) {
@@ -186,7 +213,12 @@ impl super::BoundUpper for BinaryAdder {
         R: std::ops::RangeBounds<usize>,
     {
         // reset previous encoding status
-        self.outputs_mut().for_each(|out| out.enc_if = false);
+        self.reset_nodes();
+        if let Some(structure) = &mut self.structure {
+            for out in structure.comparator.values_mut() {
+                out.enc_if = false;
+            }
+        }
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -287,7 +319,12 @@ impl super::BoundLower for BinaryAdder {
         R: std::ops::RangeBounds<usize>,
     {
         // reset previous encoding status
-        self.outputs_mut().for_each(|out| out.enc_only_if = false);
+        self.reset_nodes();
+        if let Some(structure) = &mut self.structure {
+            for out in structure.comparator.values_mut() {
+                out.enc_only_if = false;
+            }
+        }
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -336,6 +373,9 @@ impl super::BoundLowerIncremental for BinaryAdder {
         let n_clauses_before = collector.n_clauses();
 
         self.extend_structure();
+        // NOTE: encoding the only-if direction of the carries marks outputs as encoded in the if
+        // direction that are not entirely, these must not be skipped for later upper bounds
+        let enc_if_before = self.nodes_enc_if();
         if let Some(structure) = &mut self.structure {
             // TODO: could maybe optimize some edge cases here where we are guaranteed to never use
             // certain outputs of the adder
@@ -354,7 +394,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
             }
             for val in range {
                 let output = if let Some(output) = structure.comparator.get_mut(&(val - 1)) {
-                    if output.enc_only_if {
+                    if output.enc_if || output.enc_only_if {
                         continue;
                     }
                     output.enc_only_if = true;
@@ -375,15 +415,52 @@ impl super::BoundLowerIncremental for BinaryAdder {
             }
         }
 
+        self.restore_nodes_enc_if(&enc_if_before);
         self.n_clauses += collector.n_clauses() - n_clauses_before;
         self.n_vars += var_manager.n_used() - n_vars_before;
         Ok(())
     }
 }
 
-impl super::BoundBoth for BinaryAdder {}
+impl super::BoundBoth for BinaryAdder {
+    fn encode_both<Col, R>(
+        &mut self,
+        range: R,
+        collector: &mut Col,
+        var_manager: &mut dyn ManageVars,
+    ) -> Result<(), crate::OutOfMemory>
+    where
+        Col: CollectClauses,
+        R: std::ops::RangeBounds<usize> + Clone,
+    {
+        // reset previous encoding status
+        self.reset_nodes();
+        if let Some(structure) = &mut self.structure {
+            for out in structure.comparator.values_mut() {
+                out.enc_if = false;
+                out.enc_only_if = false;
+            }
+        }
+        super::BoundBothIncremental::encode_both_change(self, range, collector, var_manager)
+    }
+}
 
-impl super::BoundBothIncremental for BinaryAdder {}
+impl super::BoundBothIncremental for BinaryAdder {
+    fn encode_both_change<Col, R>(
+        &mut self,
+        range: R,
+        collector: &mut Col,
+        var_manager: &mut dyn ManageVars,
+    ) -> Result<(), crate::OutOfMemory>
+    where
+        Col: CollectClauses,
+        R: std::ops::RangeBounds<usize> + Clone,
+    {
+        // NOTE: lower bounds first, as their comparators are skipped when encoded for upper bounds
+        self.encode_lb_change(range.clone(), collector, var_manager)?;
+        self.encode_ub_change(range, collector, var_manager)
+    }
+}
 
 impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
@@ -484,6 +561,15 @@ impl Node {
         }
     }
 
+    /// Iterates over the encoded or reserved outputs of the node
+    fn outputs_mut(&mut self) -> impl Iterator<Item = &mut Output> + '_ {
+        match self {
+            Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => {
+                sum.iter_mut().chain(carry)
+            }
+        }
+    }
+
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         match self {
             Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => {
@@ -803,9 +889,9 @@ where
                 bit
             };
 
-            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
-            let c = get_bit_only_if(*c, nodes, collector, var_manager)?;
+            let a = get_bit_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_if(*b, nodes, collector, var_manager)?;
+            let c = get_bit_if(*c, nodes, collector, var_manager)?;
 
             collector.add_clause(b | c | !carry)?;
             collector.add_clause(a | c | !carry)?;
@@ -818,20 +904,20 @@ where
                 if carry.enc_only_if {
                     return Ok(carry.bit);
                 }
-                carry.enc_only_if = true;
+                carry.enc_if = true;
                 carry.bit
             } else {
                 let bit = var_manager.new_lit();
                 *carry = Some(Output {
                     bit,
-                    enc_if: false,
-                    enc_only_if: true,
+                    enc_if: true,
+                    enc_only_if: false,
                 });
                 bit
             };
 
-            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
+            let a = get_bit_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
             collector.add_clause(a | !carry)?;
             collector.add_clause(b | !carry)?;
-- 
2.43.0


From 87fa8684d9bf5986b74cbf9faaaad0d5e6740aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 26/67] fix: limiting the range of the dynamic polynomial
 watchdog

The maximum output value was always excluded, and at a reduced precision the
precision was not considered, top buckets were hardened with lower bounds for
the entire sum and the tares included in top buckets were ignored.
---
 src/encodings/pb/dpw/mod.rs | 53 ++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 55969a6..7f99df2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -190,38 +190,43 @@ impl DynamicPolyWatchdog {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        let range = super::prepare_ub_range(self, range);
+        // NOTE: in contrast to upper bounds, the sum of all weights itself is a possible output value
+        let start = match range.start_bound() {
+            std::ops::Bound::Included(b) => *b,
+            std::ops::Bound::Excluded(b) => b.saturating_add(1),
+            std::ops::Bound::Unbounded => 0,
+        };
+        let max_end = self.weight_sum.saturating_add(1);
+        let end = match range.end_bound() {
+            std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), max_end),
+            std::ops::Bound::Excluded(b) => std::cmp::min(*b, max_end),
+            std::ops::Bound::Unbounded => max_end,
+        };
+        let range = start..end;
         if let Some(structure) = &self.structure {
-            if self.is_max_precision() {
-                let output_weight = 1 << (structure.output_power());
-                let range = range.start / output_weight..range.end.div_ceil(output_weight);
-                let root = &self.db[structure.root()];
-                // positively harden lower bound
-                collector.extend_clauses(
-                    root.vals(..=range.start)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
-                )?;
-                // negatively harden upper bound
-                collector.extend_clauses(
-                    root.vals(range.end..)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
-                )?;
-            } else {
+            let output_weight = std::cmp::max(structure.prec_div, 1) << structure.output_power();
+            let root = &self.db[structure.root()];
+            // positively harden lower bound
+            collector.extend_clauses(
+                root.vals(..=range.start / output_weight)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
+            )?;
+            // negatively harden upper bound
+            collector.extend_clauses(
+                root.vals(range.end.div_ceil(output_weight)..)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
+            )?;
+            if !self.is_max_precision() {
                 let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
                 for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
                     let div = 1usize << (idx + idx_offset);
-                    let range = range.start / div..range.end.div_ceil(div);
                     let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
                     debug_assert_eq!(top_con.divisor(), 1);
                     let top = &self.db[top_con.id];
-                    // positively harden lower bound
-                    collector.extend_clauses(
-                        top.vals(..=top_con.rev_map(range.start))
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![olit])),
-                    )?;
-                    // negatively harden upper bound
+                    // negatively harden upper bound. the top bucket might include a tare, and is
+                    // only a part of the sum, i.e., does not have a lower bound
                     collector.extend_clauses(
-                        top.vals(top_con.rev_map_round_up(range.end)..)
+                        top.vals(top_con.rev_map_round_up(range.end.div_ceil(div) + 1)..)
                             .filter_map(|val| top.lit(val).map(|&olit| crate::clause![!olit])),
                     )?;
                 }
-- 
2.43.0


From 4a300edb1d060be72966415ab9a5f4e37e1b1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 27/67] fix: bounds of the dynamic polynomial watchdog after
 increasing the precision

If no weights are left, the structure stays at the coarser precision, which
was considered when enforcing, but not when encoding bounds.
---
 src/encodings/pb/dpw/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 7f99df2..6450954 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -265,6 +265,10 @@ impl Structure {
     pub fn output_power(&self) -> usize {
         self.tares.len()
     }
+    /// Gets the factor between the precision of the structure and a (finer) precision
+    fn prec_ratio(&self, prec_div: usize) -> usize {
+        std::cmp::max(self.prec_div, 1) / std::cmp::max(prec_div, 1)
+    }
 }
 
 impl super::Encode for DynamicPolyWatchdog {
@@ -329,11 +333,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert!(structure.prec_div >= self.prec_div);
-            let ub = ub
-                / 2_usize.pow(
-                    crate::utils::digits(structure.prec_div, 2)
-                        - crate::utils::digits(self.prec_div, 2),
-                );
+            let ub = ub / structure.prec_ratio(self.prec_div);
             enforce_ub(structure, ub, &self.db)
         } else {
             if self.in_lits.len() > 1 {
@@ -413,7 +413,8 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 );
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
-            let output_weight = 1 << (structure.output_power());
+            // the structure might be at a coarser precision, if there are no lower weights
+            let output_weight = structure.prec_ratio(self.prec_div) << structure.output_power();
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
-- 
2.43.0


From d418506457cccb38744edcbb24252a5b242916ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 28/67] fix: re-indexing variable manager maps variables both
 ways consistently

---
 src/instances/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..d8c28bd 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,7 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    out_map: RsHashMap<Var, Var>,
 }
 
 impl ReindexingVarManager {
@@ -166,8 +166,12 @@ impl ReindexingVarManager {
     pub fn from_next_free(next_var: Var) -> Self {
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
+            out_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
         }
     }
 }
@@ -179,16 +183,13 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.out_map.insert(v, in_var);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(&out_var).copied()
     }
 }
 
@@ -197,7 +198,7 @@ impl Default for ReindexingVarManager {
         Self {
             next_var: Var::new(0),
             in_map: RsHashMap::default(),
-            out_map: Vec::default(),
+            out_map: RsHashMap::default(),
         }
     }
 }
@@ -230,6 +231,7 @@ impl ManageVars for ReindexingVarManager {
             self.next_var = other.next_var;
         }
         self.in_map.extend(other.in_map);
+        self.out_map.extend(other.out_map);
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +240,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.retain(|v, _| *v < min_var);
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
-- 
2.43.0


From 4a5ab1b93a649b22de76eb30067197ad9f9a8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 29/67] fix: extending an instance keeps the other instance's
 cardinality and PB constraints

---
 src/instances/sat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index e7f0234..afe46b6 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -710,6 +710,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
-- 
2.43.0


From dbb027286baae4b29ba6d564d5a20440dabd10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 30/67] fix: mark variables of collected clauses as used in
 instances

---
 src/instances/sat.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index afe46b6..61a5275 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -937,6 +937,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -944,7 +946,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
@@ -1167,7 +1169,12 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend(iter.into_iter().inspect(|cl| {
+            for l in cl {
+                var_manager.mark_used(l.var());
+            }
+        }));
     }
 }
 
@@ -1180,7 +1187,13 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        use super::ManageVars;
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend_clauses(cl_iter.into_iter().inspect(|cl| {
+            for l in cl {
+                var_manager.mark_used(l.var());
+            }
+        }))
     }
 }
 
-- 
2.43.0


From 72cfc1984ef80b16cc6c834d44f6787d12b4bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 31/67] fix: increasing the weight of an empty soft clause
 increases the offset

---
 src/instances/opt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..6c28d89 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -529,10 +529,17 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            return self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
-- 
2.43.0


From 4834b90e7780d19bc4695b6b560f5916398412bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 32/67] fix: normalizing objectives keeps their value

---
 src/instances/opt.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 6c28d89..b6ffc6f 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -950,7 +950,12 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    return Self(IntObj::Unweighted {
+                        offset: *offset,
+                        unit_weight: None,
+                        soft_lits: Vec::default(),
+                        soft_clauses: Vec::default(),
+                    });
                 }
                 let unit_weight = *soft_lits
                     .values()
@@ -1018,7 +1023,7 @@ impl Objective {
                 soft_lits.sort_unstable();
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
+                while next + 1 < soft_lits.len() {
                     if soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
@@ -1028,6 +1033,8 @@ impl Objective {
                     }
                     if soft_lits[next] == soft_lits[next + 1] {
                         // duplicate literal: objective is actually weighted
+                        // (the skipped literals are already part of the offset)
+                        soft_lits.drain(end..next);
                         self.unweighted_2_weighted();
                         return self.normalize();
                     }
@@ -1035,7 +1042,11 @@ impl Objective {
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                if next < soft_lits.len() {
+                    soft_lits.swap(end, next);
+                    end += 1;
+                }
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From 4ce68801f083938bb299bb6d34bff8e840d8f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 33/67] fix: auxiliary variables of constraints differ from the
 objectives' variables

---
 src/instances/multiopt.rs | 31 ++++++++-----------------------
 src/instances/opt.rs      | 26 +++++++++++++-------------
 2 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..58d3426 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -137,19 +137,10 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
-        let soft_cls = self
-            .objs
-            .into_iter()
-            .map(Objective::into_soft_cls)
-            .collect();
+        // (reserves the variables of the objectives before encoding the constraints)
+        let (constrs, objs) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let soft_cls = objs.into_iter().map(Objective::into_soft_cls).collect();
         (cnf, soft_cls, vm)
     }
 
@@ -159,16 +150,10 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv);
-        let soft_lits = self
-            .objs
+        // (reserves the variables of the objectives before encoding the constraints)
+        let (constrs, objs) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let soft_lits = objs
             .into_iter()
             .map(|o| {
                 let (hards, softs) = o.into_soft_lits(&mut vm);
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index b6ffc6f..3499a1c 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1307,11 +1307,10 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        (cnf, self.obj.into_soft_cls(), vm)
+        // (reserves the variables of the objective before encoding the constraints)
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        (cnf, obj.into_soft_cls(), vm)
     }
 
     /// Converts the instance to a set of hard clauses and soft literals, an
@@ -1321,11 +1320,10 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
+        // (reserves the variables of the objective before encoding the constraints)
+        let (constrs, obj) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let (hard_softs, softs) = obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
     }
@@ -1667,8 +1665,10 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
-        let (cnf, vm) = self.constrs.into_cnf();
-        let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
+        // (reserves the variables of the objective before encoding the constraints)
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let mut vm = if let Some(max_var) = vm.max_var() {
             super::BasicVarManager::from_next_free(max_var + 1)
         } else {
             super::BasicVarManager::default()
@@ -1687,7 +1687,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-        let (iter, offset) = self.obj.into_soft_cls();
+        let (iter, offset) = obj.into_soft_cls();
         let obj: Vec<_> = iter.into_iter().map(handle_soft_cls).collect();
         let (sol, cost) = Alg::solve(&mut solver, &obj)?;
         Some((
-- 
2.43.0


From d32281b2f6e405e86c3cebe01f9dd34533d67393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 34/67] fix: relaxed soft clauses incur cost in solve_maxsat

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 3499a1c..e326c91 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1683,7 +1683,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-- 
2.43.0


From d4b0a59b52ab7bd343bce5fa10f16820b06fe401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 35/67] fix: weights of softs added repeatedly to an unweighted
 objective

---
 src/instances/opt.rs | 110 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 28 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index e326c91..aa99f12 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -38,6 +38,15 @@ enum IntObj {
 )]
 pub struct Objective(IntObj);
 
+/// Counts how often each soft literal or clause appears in an unweighted objective
+fn multiplicities<T: Eq + std::hash::Hash>(softs: &[T]) -> RsHashMap<&T, usize> {
+    let mut mults = RsHashMap::default();
+    for soft in softs {
+        *mults.entry(soft).or_default() += 1;
+    }
+    mults
+}
+
 impl From<IntObj> for Objective {
     fn from(obj: IntObj) -> Self {
         Self(obj)
@@ -162,7 +171,14 @@ impl Objective {
                     .iter()
                     .fold(0, |s, (_, w)| if *w > s { *w } else { s })
             }
-            IntObj::Unweighted { unit_weight, .. } => unit_weight.unwrap_or(0),
+            IntObj::Unweighted {
+                unit_weight,
+                soft_lits,
+                ..
+            } => {
+                unit_weight.unwrap_or(0)
+                    * multiplicities(soft_lits).into_values().max().unwrap_or(0)
+            }
         }
     }
 
@@ -175,7 +191,17 @@ impl Objective {
                     .iter()
                     .fold(0, |s, (_, w)| if *w > s { *w } else { s })
             }
-            IntObj::Unweighted { unit_weight, .. } => unit_weight.unwrap_or(0),
+            IntObj::Unweighted {
+                unit_weight,
+                soft_clauses,
+                ..
+            } => {
+                unit_weight.unwrap_or(0)
+                    * multiplicities(soft_clauses)
+                        .into_values()
+                        .max()
+                        .unwrap_or(0)
+            }
         }
     }
 
@@ -194,7 +220,16 @@ impl Objective {
                     .iter()
                     .fold(usize::MAX, |s, (_, w)| if *w < s { *w } else { s })
             }
-            IntObj::Unweighted { unit_weight, .. } => unit_weight.unwrap_or(0),
+            IntObj::Unweighted {
+                unit_weight,
+                soft_lits,
+                ..
+            } => unit_weight.map_or(0, |unit_weight| {
+                multiplicities(soft_lits)
+                    .into_values()
+                    .min()
+                    .map_or(usize::MAX, |mult| mult * unit_weight)
+            }),
         }
     }
 
@@ -205,7 +240,16 @@ impl Objective {
             IntObj::Weighted { soft_clauses, .. } => soft_clauses
                 .iter()
                 .fold(usize::MAX, |s, (_, w)| if *w < s { *w } else { s }),
-            IntObj::Unweighted { unit_weight, .. } => unit_weight.unwrap_or(0),
+            IntObj::Unweighted {
+                unit_weight,
+                soft_clauses,
+                ..
+            } => unit_weight.map_or(0, |unit_weight| {
+                multiplicities(soft_clauses)
+                    .into_values()
+                    .min()
+                    .map_or(usize::MAX, |mult| mult * unit_weight)
+            }),
         }
     }
 
@@ -400,18 +444,23 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    let n_before = soft_lits.len();
+                    soft_lits.retain(|l2| l2 != &l);
+                    match n_before - soft_lits.len() {
+                        0 => None,
+                        mult => Some(mult * crate::utils::unreachable_none!(*unit_weight)),
                     }
-                    None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
-                        }
+                        // literals added repeatedly appear repeatedly
+                        let n_before = soft_lits.len();
+                        soft_lits.retain(|l2| l2 != &l);
+                        let mult = n_before - soft_lits.len();
                         soft_lits.push(l);
-                        None
+                        if mult == 0 {
+                            return None;
+                        }
+                        Some(mult * *unit_weight)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -500,18 +549,23 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    let n_before = soft_clauses.len();
+                    soft_clauses.retain(|cl2| cl2 != &cl);
+                    match n_before - soft_clauses.len() {
+                        0 => None,
+                        mult => Some(mult * crate::utils::unreachable_none!(*unit_weight)),
                     }
-                    None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
-                        }
+                        // clauses added repeatedly appear repeatedly
+                        let n_before = soft_clauses.len();
+                        soft_clauses.retain(|cl2| cl2 != &cl);
+                        let mult = n_before - soft_clauses.len();
                         soft_clauses.push(cl);
-                        None
+                        if mult == 0 {
+                            return None;
+                        }
+                        Some(mult * *unit_weight)
                     } else {
                         // Type changes from unweighted to weighted
                         self.unweighted_2_weighted();
@@ -577,10 +631,10 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
+                // soft literals added repeatedly appear repeatedly
+                match soft_lits.iter().filter(|l2| *l2 == &l).count() {
+                    0 => None,
+                    mult => Some(mult * crate::utils::unreachable_none!(*unit_weight)),
                 }
             }
         }
@@ -596,10 +650,10 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
-                } else {
-                    None
+                // soft clauses added repeatedly appear repeatedly
+                match soft_clauses.iter().filter(|cl2| *cl2 == cl).count() {
+                    0 => None,
+                    mult => Some(mult * crate::utils::unreachable_none!(*unit_weight)),
                 }
             }
         }
-- 
2.43.0


From bf60774c684ebb8ed0bad8abebb10566200be0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 36/67] fix: reject DIMACS headers and literals beyond the
 representable variables

Parsing a header with more than `Var::MAX_IDX` variables, or the literal
-2147483648, panicked instead of returning an error.
---
 src/instances/fio/dimacs.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..c6be596 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -31,6 +31,7 @@ use crate::instances::Cnf;
 use crate::types::Cl;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::Var;
 use crate::utils;
 
 use super::ParsingError;
@@ -719,15 +720,23 @@ where
     }
 }
 
+/// Parses the number of variables in a header, which must not exceed the number of variables that
+/// can be represented
+fn n_vars(input: &mut &str) -> ModalResult<u32> {
+    dec_uint
+        .verify(|n_vars| *n_vars <= Var::MAX_IDX)
+        .parse_next(input)
+}
+
 fn cnf_p_line(input: &mut &str) -> ModalResult<(u32, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, n_vars, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("cnf p-line"))
         .parse_next(input)
 }
 
 #[cfg(feature = "optimization")]
 fn wcnf_p_line(input: &mut &str) -> ModalResult<(u32, usize, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, dec_uint, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, n_vars, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("wcnf p-line"))
         .parse_next(input)
 }
@@ -793,6 +802,8 @@ fn obj_idx(input: &mut &str) -> ModalResult<usize> {
 
 fn lit(input: &mut &str) -> ModalResult<Lit> {
     dec_int::<&str, i32, _>
+        // there is no positive literal for this variable
+        .verify(|lit| *lit != i32::MIN)
         .try_map(Lit::from_ipasir)
         .context(StrContext::Label("IPASIR literal"))
         .parse_next(input)
-- 
2.43.0


From 8aa06886748e467cc67fbc852c95b8f16e907f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 37/67] fix: write complete header and comment lines in
 write_cnf and write_wcnf

The header lacked the `cnf` keyword and comments were not terminated by a
line break, so that the next line was swallowed.
---
 src/instances/fio/dimacs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index c6be596..2ba6707 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -887,8 +887,8 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
+        CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
 }
@@ -948,7 +948,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => writeln!(writer, "c {c}"),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
-- 
2.43.0


From f6ae2edd37f4f2f3b4941d780dbb6c92470583b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 38/67] fix: report an error for overflowing soft clause
 weights

Parsing WCNF or MCNF files with empty soft clauses heavier than `isize::MAX`
panicked, and the weights of repeated soft clauses silently overflowed.
---
 src/instances/fio/mod.rs  | 37 +++++++++++++++++++++++++++++++++++++
 src/instances/multiopt.rs |  3 +++
 src/instances/opt.rs      |  3 +++
 3 files changed, 43 insertions(+)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index da336f0..7a6d73a 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -40,6 +40,43 @@ pub enum Error {
     #[cfg(feature = "optimization")]
     #[error("overflow in converting maximization objective to minimization objective")]
     ObjectiveConversionOverflow,
+    /// The weights or coefficients of an objective are too large to be represented
+    #[cfg(feature = "optimization")]
+    #[error("the weights of an objective are too large")]
+    ObjectiveOverflow,
+}
+
+/// Keeps track of the weights in an objective to detect overflows while parsing
+#[cfg(feature = "optimization")]
+#[derive(Debug, Default, Clone)]
+pub(crate) struct WeightTracker {
+    /// The weight sum of the non-empty soft clauses
+    sum: usize,
+    /// The weight sum of the empty soft clauses
+    offset: isize,
+}
+
+#[cfg(feature = "optimization")]
+impl WeightTracker {
+    /// Accounts for a soft clause
+    ///
+    /// # Errors
+    ///
+    /// If an objective with this soft clause cannot be represented
+    pub(crate) fn add(&mut self, weight: usize, clause: &crate::types::Cl) -> Result<(), Error> {
+        if clause.is_empty() {
+            self.offset = self
+                .offset
+                .checked_add_unsigned(weight)
+                .ok_or(Error::ObjectiveOverflow)?;
+        } else {
+            self.sum = self
+                .sum
+                .checked_add(weight)
+                .ok_or(Error::ObjectiveOverflow)?;
+        }
+        Ok(())
+    }
 }
 
 /// An error occurring during parsing
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 58d3426..5b712c8 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -381,6 +381,7 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
     pub fn from_dimacs<R: std::io::BufRead>(reader: R) -> Result<Self, fio::Error> {
         let mut constrs = SatInstance::<VM>::default();
         let mut objs = vec![];
+        let mut weights = vec![];
         for data in fio::dimacs::Parser::<fio::dimacs::Mcnf, _>::new(reader) {
             match data? {
                 fio::dimacs::McnfData::HardClause(clause) => constrs.add_clause(clause),
@@ -391,7 +392,9 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
                 } => {
                     if obj_idx > objs.len() {
                         objs.resize(obj_idx, Objective::new());
+                        weights.resize(obj_idx, fio::WeightTracker::default());
                     }
+                    weights[obj_idx - 1].add(weight, &clause)?;
                     objs[obj_idx - 1].increase_soft_clause(weight, clause);
                 }
                 fio::dimacs::McnfData::Comment(_) => (),
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index aa99f12..6c7d1c1 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1576,6 +1576,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .forward_to_body()?;
         let mut constrs = super::SatInstance::<VM>::default();
         let mut obj = Objective::default();
+        let mut weights = super::fio::WeightTracker::default();
         match header_data {
             super::fio::dimacs::WcnfHeaderData::Pre22 {
                 n_vars,
@@ -1591,6 +1592,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            weights.add(weight, &clause)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
@@ -1604,6 +1606,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            weights.add(weight, &clause)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
-- 
2.43.0


From b3ad8ad517993951740d13adaa89e6c6efa4e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 39/67] fix: accumulate repeated soft clauses when collecting
 WCNF and MCNF lines

The weight of a soft clause was overwritten by a later line with the same
clause, whereas parsing the same lines from a file adds the weights up.
---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 5b712c8..3c03288 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -463,7 +463,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 6c7d1c1..b8f0f98 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1764,7 +1764,7 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 7f5db63121224272269cf9de724753b06c1a2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:18 +0000
Subject: [PATCH 40/67] fix: strict upper bounds in OPB files

`< b` was read as `<= b + 1` instead of `<= b - 1`.
---
 src/instances/fio/opb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..77b12bb 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -388,7 +388,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
+            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
             OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
             OpbOperator::EQ => PbConstraint::new_eq(sum, b),
         },
-- 
2.43.0


From a7c07d92f1c7c7005cdfb53b4e7cee9d8ccf695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:18 +0000
Subject: [PATCH 41/67] fix: offset of OPB maximization objectives

Negating the objective has to negate the offset that stems from negative
coefficients as well.
---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 3c03288..12e87ba 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -506,7 +506,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index b8f0f98..301222b 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1685,7 +1685,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                obj.increase_offset(-offset - coeff_sum);
                 obj
             }
         };
-- 
2.43.0


From 6e6975bcd9f99f9fcf4fafe618d4371d09da8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 42/67] fix: report errors for unrepresentable numbers in OPB
 files

Variables above the highest representable index and overflowing bounds,
coefficient sums and objective offsets panicked or silently wrapped around.
---
 src/instances/fio/opb.rs  | 53 +++++++++++++++++++++++++++++++--------
 src/instances/multiopt.rs | 15 ++++++++++-
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 77b12bb..57827b2 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -209,6 +209,10 @@ pub enum ObjectiveSense {
 struct ObjectiveSum {
     terms: Vec<(usize, Lit)>,
     offset: isize,
+    /// The sum of the coefficients in `terms`
+    coeff_sum: usize,
+    /// Whether `offset` or `coeff_sum` overflowed
+    overflow: bool,
 }
 
 #[cfg(feature = "optimization")]
@@ -218,20 +222,29 @@ impl winnow::stream::Accumulate<(Lit, isize)> for ObjectiveSum {
             Self {
                 terms: Vec::with_capacity(capacity),
                 offset: 0,
+                coeff_sum: 0,
+                overflow: false,
             }
         } else {
             Self {
                 terms: Vec::new(),
                 offset: 0,
+                coeff_sum: 0,
+                overflow: false,
             }
         }
     }
 
     fn accumulate(&mut self, (lit, coeff): (Lit, isize)) {
+        let (coeff_sum, overflow) = self.coeff_sum.overflowing_add(coeff.unsigned_abs());
+        self.coeff_sum = coeff_sum;
+        self.overflow |= overflow;
         if coeff > 0 {
             self.terms.push((coeff.unsigned_abs(), lit));
         } else {
-            self.offset += coeff;
+            let (offset, overflow) = self.offset.overflowing_add(coeff);
+            self.offset = offset;
+            self.overflow |= overflow;
             self.terms.push((coeff.unsigned_abs(), !lit));
         }
     }
@@ -301,6 +314,8 @@ where
         )
         .take()
         .try_map(|var: &str| var[1..].parse())
+        // the variable following the last one in the file needs to be representable, too
+        .verify(|idx: &u32| idx.saturating_sub(self.0) < Var::MAX_IDX)
         .context(StrContext::Label("variable index"))
         .try_map(|idx| {
             if idx < self.0 {
@@ -382,23 +397,41 @@ fn ending<'i>(input: &mut &'i str) -> ModalResult<&'i str> {
         .parse_next(input)
 }
 
+/// Builds a constraint from its parsed parts, or returns [`None`] if the numbers in the (normalized)
+/// constraint are too large to be represented
+fn build_constraint(sum: Vec<(Lit, isize)>, opt: OpbOperator, b: isize) -> Option<PbConstraint> {
+    let b = match opt {
+        OpbOperator::LT => b.checked_sub(1)?,
+        OpbOperator::GT => b.checked_add(1)?,
+        OpbOperator::LE | OpbOperator::GE | OpbOperator::EQ => b,
+    };
+    let mut weight_sum: usize = 0;
+    let mut b_add: isize = 0;
+    for (_, coeff) in &sum {
+        weight_sum = weight_sum.checked_add(coeff.unsigned_abs())?;
+        if *coeff < 0 {
+            b_add = b_add.checked_sub(*coeff)?;
+        }
+    }
+    b.checked_add(b_add)?;
+    Some(match opt {
+        OpbOperator::LE | OpbOperator::LT => PbConstraint::new_ub(sum, b),
+        OpbOperator::GE | OpbOperator::GT => PbConstraint::new_lb(sum, b),
+        OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+    })
+}
+
 /// Parses an OPB constraint
 fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
-    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.map(
-        |(sum, opt, b)| match opt {
-            OpbOperator::LE => PbConstraint::new_ub(sum, b),
-            OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
-            OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
-            OpbOperator::EQ => PbConstraint::new_eq(sum, b),
-        },
+    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.verify_map(
+        |(sum, opt, b)| build_constraint(sum, opt, b),
     ).context(StrContext::Label("constraint"))
 }
 
 #[cfg(feature = "optimization")]
 /// Parses an OPB objective
 fn objective<'i>(opts: Options) -> impl OpbParser<'i, Objective> {
-    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts)), _: cut_err(ending) }
+    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts).verify(|sum: &ObjectiveSum| !sum.overflow)), _: cut_err(ending) }
         .map(|(sense,sum )| Objective::new(sense, sum))
         .context(StrContext::Label("objective"))
 }
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 12e87ba..b7f4881 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -430,7 +430,20 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
         reader: R,
         opts: fio::opb::Options,
     ) -> Result<Self, fio::Error> {
-        fio::opb::Parser::new(reader, opts).collect()
+        fio::opb::Parser::new(reader, opts)
+            .map(|data| match data {
+                Ok(fio::opb::Data::Obj(obj))
+                    if obj.sense == fio::opb::ObjectiveSense::Maximize
+                        && isize::try_from(
+                            obj.terms.iter().map(|(coeff, _)| *coeff).sum::<usize>(),
+                        )
+                        .is_err() =>
+                {
+                    Err(fio::Error::ObjectiveConversionOverflow)
+                }
+                data => data,
+            })
+            .collect()
     }
 
     /// Parses an OPB instance from a file path. For more details see
-- 
2.43.0


From 6f8702a5e0920f9bb062b5e64c71909a3181cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 43/67] fix: solution-improving search with objective variables
 unknown to the solver

Objective variables above the variables in the solver collided with the
variables of the encoding, and without any variables in the solver the
search returned cost 0 without solving, e.g., with an empty hard clause.
---
 src/algs/maxsat.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..62268af 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -9,6 +9,7 @@ use crate::solvers::SolveStats;
 use crate::solvers::SolverResult;
 use crate::types::Assignment;
 use crate::types::Lit;
+use crate::types::TernaryVal;
 
 /// Trait for SAT-based MaxSAT solving algorithms
 pub trait Solve {
@@ -23,7 +24,7 @@ pub trait Solve {
 
 fn objective_value(obj: &[(Lit, usize)], sol: &Assignment) -> usize {
     obj.iter().fold(0, |sum, (l, w)| {
-        if sol.lit_value(*l) == crate::types::TernaryVal::True {
+        if sol.lit_value(*l) == TernaryVal::True {
             sum + w
         } else {
             sum
@@ -61,10 +62,15 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
-        };
-        let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
+        // the objective might contain variables that are not in the solver
+        let max_var = objective
+            .iter()
+            .map(|(l, _)| l.var())
+            .chain(solver.max_var())
+            .max();
+        let mut vm = max_var.map_or_else(crate::instances::BasicVarManager::default, |max_var| {
+            crate::instances::BasicVarManager::from_next_free(max_var + 1)
+        });
         let mut enc: PbEnc = objective.iter().copied().collect();
 
         let mut sol = None;
@@ -72,7 +78,14 @@ where
         loop {
             match solver.solve().expect("solver error while solving") {
                 SolverResult::Sat => {
-                    let assign = solver.solution(max_var).expect("failed getting solution");
+                    let mut assign = max_var.map_or_else(Assignment::default, |max_var| {
+                        solver.solution(max_var).expect("failed getting solution")
+                    });
+                    for (l, _) in objective {
+                        if assign.lit_value(*l) == TernaryVal::DontCare {
+                            assign.assign_lit(!*l);
+                        }
+                    }
                     let val = objective_value(objective, &assign);
                     sol = Some((assign, val));
                     if val == 0 {
-- 
2.43.0


From 1db9e3e66e8cdb270381526f4222c9a625f80b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 44/67] fix: simulated incremental solver after failing solver
 calls

Assumptions of failed calls were kept in later calls, and the reported
highest variable was wrong after adding an empty clause.
---
 src/solvers/simulators.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 83d63b1..0b06bb4 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -73,12 +73,8 @@ impl<S, Init> Incremental<S, Init> {
 
     #[inline]
     fn update_max_var(&mut self, clause: &Cl) {
-        if self.stats.max_var.is_none() {
-            self.stats.max_var = Some(crate::types::Var::new(0));
-        }
-        let max_var = self.stats.max_var.as_mut().unwrap();
         for lit in clause {
-            *max_var = std::cmp::max(*max_var, lit.var());
+            self.stats.max_var = std::cmp::max(self.stats.max_var, Some(lit.var()));
         }
     }
 }
@@ -104,6 +100,8 @@ where
             }
             InternalSolverState::Init => (),
         }
+        // if solving fails, the solver needs to be re-initialized
+        self.state = InternalSolverState::Unknown;
         let start = crate::utils::Timer::now();
         let res = self.solver.solve()?;
         self.stats.cpu_solve_time += start.elapsed();
@@ -190,6 +188,8 @@ where
             self.solver = Init::init();
             self.solver.add_cnf_ref(&self.clauses)?;
         }
+        // if solving fails, the solver needs to be re-initialized in order to drop the assumptions
+        self.state = InternalSolverState::Unknown;
         for lit in assumps {
             self.solver.add_unit(*lit)?;
         }
-- 
2.43.0


From 4a5662413d9ac8b73e4692dcbd29ca879d8c60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 45/67] fix: keep the watchdog precision divisor at least one

---
 src/encodings/pb/dpw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 6450954..cd4ee54 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -135,7 +135,7 @@ impl DynamicPolyWatchdog {
         if self.structure.is_some() && divisor > self.prec_div {
             return Err(PrecisionError::PrecisionDecreased);
         }
-        self.prec_div = divisor;
+        self.prec_div = std::cmp::max(divisor, 1);
         Ok(())
     }
 
-- 
2.43.0


From 436dd0e6e022b7c0851d71d2c6346b5beb6c2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 46/67] fix: C totalizer enforce functions must not abort when
 no assumption is needed

---
 capi/rustsat.h                    |  4 ++++
 capi/src/encodings/card.rs        | 12 ++++++++----
 codegen/templates/capi-card.rs.j2 | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/capi/rustsat.h b/capi/rustsat.h
index 1b3abcc..81f3c9d 100644
--- a/capi/rustsat.h
+++ b/capi/rustsat.h
@@ -539,6 +539,8 @@ void tot_encode_ub(struct Totalizer *tot,
  * [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound holds without assuming anything, `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -579,6 +581,8 @@ void tot_encode_lb(struct Totalizer *tot,
  * [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound holds without assuming anything, `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
diff --git a/capi/src/encodings/card.rs b/capi/src/encodings/card.rs
index 571c63f..e0bf9a4 100644
--- a/capi/src/encodings/card.rs
+++ b/capi/src/encodings/card.rs
@@ -100,6 +100,8 @@ pub unsafe extern "C" fn tot_encode_ub(
 /// [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound holds without assuming anything, `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -111,8 +113,8 @@ pub unsafe extern "C" fn tot_enforce_ub(
 ) -> super::MaybeError {
     match (*tot).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -159,6 +161,8 @@ pub unsafe extern "C" fn tot_encode_lb(
 /// [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound holds without assuming anything, `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -170,8 +174,8 @@ pub unsafe extern "C" fn tot_enforce_lb(
 ) -> super::MaybeError {
     match (*tot).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
diff --git a/codegen/templates/capi-card.rs.j2 b/codegen/templates/capi-card.rs.j2
index 1355838..b862b18 100644
--- a/codegen/templates/capi-card.rs.j2
+++ b/codegen/templates/capi-card.rs.j2
@@ -79,6 +79,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_ub(
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`{{ enc.id }}_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound holds without assuming anything, `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
@@ -88,8 +90,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -130,6 +132,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_lb(
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`{{ enc.id }}_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound holds without assuming anything, `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
@@ -139,8 +143,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
-- 
2.43.0


From 36583d59316c2b2807980138eae4d2ccaa565703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 47/67] fix: certified totalizer encoding of trivial bounds and
 single literals

---
 src/encodings/card/totalizer/mod.rs | 45 +++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 904cd74..d455be1 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -437,11 +437,16 @@ impl super::cert::BoundUpper for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, ub) = constr.decompose();
-        if ub > lits.len() {
+        if ub >= lits.len() {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built
+            let unit_cl = crate::clause![!lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
@@ -542,13 +547,21 @@ impl super::cert::BoundLower for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, lb) = constr.decompose();
         if lb > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if lb == 0 {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built
+            let unit_cl = crate::clause![lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -650,13 +663,27 @@ impl super::cert::BoundBoth for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
-        let (lits, b) = constr.decompose();
-        if b > lits.len() {
+        if constr.is_unsat() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if constr.is_positive_assignment() || constr.is_negative_assignment() {
+            // only one of the two bounds is not trivial
+            let (lb_c, ub_c) = constr.split();
+            <Self as super::cert::BoundUpper>::encode_ub_constr_cert(
+                (ub_c, id + 1),
+                collector,
+                var_manager,
+                proof,
+            )?;
+            return <Self as super::cert::BoundLower>::encode_lb_constr_cert(
+                (lb_c, id),
+                collector,
+                var_manager,
+                proof,
+            );
+        }
+        let (lits, b) = constr.decompose();
         let mut enc = Self::from_iter(lits);
         enc.encode_both_cert(b..=b, collector, var_manager, proof)?;
         // UB
-- 
2.43.0


From 37b21f35a3049a5a3777bfa6699ae2b91394069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 48/67] fix: certified generalized totalizer encoding of
 trivial bounds and leaf roots

---
 src/encodings/pb/gte/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 0d1cc9f..54cef5e 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -446,15 +446,13 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         use crate::encodings::pb::BoundUpper;
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, mut id) = constr;
         let (lits, ub) = constr.decompose();
         if ub < 0 {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
         let ub = ub.unsigned_abs();
-        if ub > lits.iter().fold(0, |sum, (_, w)| sum + *w) {
+        if ub >= lits.iter().fold(0, |sum, (_, w)| sum + *w) {
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
@@ -464,13 +462,9 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             .enforce_ub(ub)
             .expect("should have caught special case before here")
         {
-            let (olit, sem_defs) = enc
-                .output_proof_details(val)
-                .expect("encoded just before, so should be fine");
             let unit_cl = crate::clause![unit];
-            let unit_id = if unit.var() < olit.var() {
+            let unit_id = if let Some(&weight) = enc.lit_buffer.get(&!unit) {
                 // input literal with weight larger than bound
-                let weight = *enc.lit_buffer.get(&!unit).unwrap();
                 let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
                 // simplify main constraint
                 #[cfg(feature = "verbose-proofs")]
@@ -481,13 +475,22 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                         + id),
                 )?;
                 unit_id
+            } else if enc.root.is_some_and(|con| enc.db[con.id].is_leaf()) {
+                // the tree is a single input literal with weight larger than bound
+                proof.reverse_unit_prop(&unit_cl, [id.into()])?
             } else {
                 // output literal
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
+                let (olit, sem_defs) = enc
+                    .output_proof_details(val)
+                    .expect("encoded just before, so should be fine");
                 debug_assert_eq!(!unit, olit);
+                let multiplier = enc.root.map_or(1, |con| con.multiplier());
                 let unit_id = proof.operations(
                     &((pigeons::OperationSequence::<Var>::from(id)
-                        + sem_defs.only_if_def.unwrap())
+                        + pigeons::OperationSequence::<Var>::from(
+                            sem_defs.only_if_def.unwrap(),
+                        ) * multiplier)
                         / val),
                 )?;
                 #[cfg(feature = "verbose-proofs")]
-- 
2.43.0


From 22877f0016dc5bd0d0ca2b9cc1e77d3cf173e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 49/67] fix: do not log an empty deletion when deleting
 semantics

---
 src/encodings/totdb/cert.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 748b526..9d17faf 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -395,6 +395,9 @@ impl super::Db {
     where
         W: std::io::Write,
     {
+        if self.semantic_defs.is_empty() {
+            return Ok(());
+        }
         let iter = self
             .semantic_defs
             .values()
-- 
2.43.0


From 1c6d7c9600737a0bc2b0a4aaeec0dbd4a535b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 50/67] fix: certified encoding of unsatisfiable equalities and
 weighted cardinality constraints

---
 src/encodings/pb/cert.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index bc79839..7b8bff4 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -5,6 +5,7 @@ use crate::encodings::cert::CollectClauses;
 use crate::encodings::cert::ConstraintEncodingError;
 use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
+use crate::types::constraints::CardConstraint;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbToCardError;
 use crate::types::Lit;
@@ -355,7 +356,12 @@ pub fn encode_pb_constraint<
     }
     if constr.is_unsat() {
         let empty = crate::clause![];
-        let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
+        let unsat_id = if matches!(constr, PbConstraint::Eq(_)) {
+            // either of the two bounds can be the contradicting one
+            proof.reverse_unit_prop(&empty, [id.into(), (id + 1).into()])?
+        } else {
+            proof.reverse_unit_prop(&empty, [id.into()])?
+        };
         collector.add_cert_clause(empty, unsat_id)?;
         return Ok(());
     }
@@ -400,6 +406,18 @@ pub fn encode_pb_constraint<
             }
             Err(PbToCardError::NotACard) => unreachable!(),
         };
+        if unit_weight > 1 {
+            // get the cardinality constraint from the weighted constraint
+            let weighted_id = id;
+            id = proof.operations::<Var>(
+                &(pigeons::OperationSequence::from(weighted_id) / unit_weight),
+            )?;
+            if matches!(card, CardConstraint::Eq(_)) {
+                proof.operations::<Var>(
+                    &(pigeons::OperationSequence::from(weighted_id + 1) / unit_weight),
+                )?;
+            }
+        }
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
             collector,
-- 
2.43.0


From e2558e77199ec7e176701f2a35e4b2ebea403a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 51/67] fix: certified pseudo-Boolean simulators with trivial
 bounds and lower-bound ranges

---
 src/encodings/pb/simulators.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 1068170..256519a 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -271,7 +271,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -442,7 +442,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -1030,6 +1030,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_ub_constr_cert((constr, id), collector, var_manager, proof)?;
         Ok(())
@@ -1094,6 +1097,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_tautology() {
+            return Ok(());
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_lb_constr_cert((constr, id), collector, var_manager, proof)
     }
-- 
2.43.0


From a3895930f0471042d257b80108cbdda7830784da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 52/67] fix: certified inverted cardinality encoding of trivial
 bounds

---
 src/encodings/card/simulators.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index 3a06363..a044b0b 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -204,6 +204,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_tautology() {
+            return Ok(());
+        }
         let constr = (constr.0.invert(), constr.1);
         match CE::encode_lb_constr_cert(constr, collector, var_manager, proof) {
             Ok(()) => Ok(()),
@@ -286,6 +289,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = (constr.0.invert(), constr.1);
         CE::encode_ub_constr_cert(constr, collector, var_manager, proof)?;
         Ok(())
-- 
2.43.0


From 197b22249392854baf7cbf3b6a04675d6f677eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 53/67] fix: write the constant offset of an objective

---
 pigeons/src/types.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..4abded2 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -902,7 +902,12 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        let offset = self.obj.offset();
+        if offset != 0 {
+            write!(f, " {offset}")?;
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From ef58ad3bf64de10c1874bbc0e0dfa89d445d0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 54/67] fix: count the identifiers of a subproof in an
 objective update

---
 pigeons/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..d3f2b84 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -508,7 +508,15 @@ where
         C: ConstraintLike<V>,
     {
         assert!(matches!(self.problem_type, ProblemType::Optimization));
-        writeln!(self.writer, "obju {update}")
+        writeln!(self.writer, "obju {update}")?;
+        if let ObjectiveUpdate::New(_, subproof, _) = update {
+            // negated proof goal + 1 for each derivation
+            self.next_id += subproof
+                .iter()
+                .map(|goal| 1 + goal.n_derivations())
+                .sum::<usize>();
+        }
+        Ok(())
     }
 
     /// Adds a set of substitutions
-- 
2.43.0


From 6436a80ede5af0ca228900242f0ee8f06c8f7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 55/67] fix: keep the terminate callback when detaching a
 learner (IPASIR, CaDiCaL)

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..dbee2ad 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -936,7 +936,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
     }
 }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..c048f83 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -398,7 +398,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
     }
 }
-- 
2.43.0


From efc435c18d7a19f2757ac0dd85d6ba717d43bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 56/67] fix: respect the sign and the model size in
 Minisat/Glucose lit_val

---
 glucose/src/core.rs | 16 +++++++++++++---
 glucose/src/simp.rs | 16 +++++++++++++---
 minisat/src/core.rs | 16 +++++++++++++---
 minisat/src/simp.rs | 16 +++++++++++++---
 4 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/glucose/src/core.rs b/glucose/src/core.rs
index ce0318c..2832db4 100644
--- a/glucose/src/core.rs
+++ b/glucose/src/core.rs
@@ -17,6 +17,8 @@ use rustsat::types::Var;
 pub struct Glucose {
     handle: *mut crate::ffi::CGlucose4,
     state: crate::InternalSolverState,
+    /// The number of variables that the last model assigns
+    model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
 }
 
@@ -32,6 +34,7 @@ impl Default for Glucose {
         Self {
             handle,
             state: crate::InternalSolverState::default(),
+            model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
         }
     }
@@ -129,6 +132,7 @@ impl rustsat::solvers::Solve for Glucose {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cglucose4_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
@@ -152,10 +156,15 @@ impl rustsat::solvers::Solve for Glucose {
             }
             .into());
         }
-        match unsafe { crate::ffi::cglucose4_val(self.handle, lit.into()) } {
+        // The model does not contain variables that were introduced after it was found
+        if i64::from(lit.vidx32()) >= i64::from(self.model_vars) {
+            return Ok(rustsat::types::TernaryVal::DontCare);
+        }
+        // The C-API returns the value of the _variable_ of the literal
+        match unsafe { crate::ffi::cglucose4_val(self.handle, lit.var().pos_lit().into()) } {
             crate::ffi::T_UNASSIGNED => Ok(rustsat::types::TernaryVal::DontCare),
-            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::True),
-            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::False),
+            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::from(lit.is_pos())),
+            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::from(lit.is_neg())),
             value => Err(crate::InvalidApiReturn {
                 api_call: "cglucose4_val",
                 value,
@@ -209,6 +218,7 @@ impl rustsat::solvers::SolveIncremental for Glucose {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cglucose4_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..1503d2a 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -17,6 +17,8 @@ use rustsat::types::Var;
 pub struct Glucose {
     handle: *mut crate::ffi::CGlucoseSimp4,
     state: crate::InternalSolverState,
+    /// The number of variables that the last model assigns
+    model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
 }
 
@@ -32,6 +34,7 @@ impl Default for Glucose {
         Self {
             handle,
             state: crate::InternalSolverState::default(),
+            model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
         }
     }
@@ -136,6 +139,7 @@ impl rustsat::solvers::Solve for Glucose {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cglucosesimp4_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
@@ -159,10 +163,15 @@ impl rustsat::solvers::Solve for Glucose {
             }
             .into());
         }
-        match unsafe { crate::ffi::cglucosesimp4_val(self.handle, lit.into()) } {
+        // The model does not contain variables that were introduced after it was found
+        if i64::from(lit.vidx32()) >= i64::from(self.model_vars) {
+            return Ok(rustsat::types::TernaryVal::DontCare);
+        }
+        // The C-API returns the value of the _variable_ of the literal
+        match unsafe { crate::ffi::cglucosesimp4_val(self.handle, lit.var().pos_lit().into()) } {
             crate::ffi::T_UNASSIGNED => Ok(rustsat::types::TernaryVal::DontCare),
-            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::True),
-            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::False),
+            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::from(lit.is_pos())),
+            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::from(lit.is_neg())),
             value => Err(crate::InvalidApiReturn {
                 api_call: "cglucosesimp4_val",
                 value,
@@ -221,6 +230,7 @@ impl rustsat::solvers::SolveIncremental for Glucose {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cglucosesimp4_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
diff --git a/minisat/src/core.rs b/minisat/src/core.rs
index fe55ce6..30cb28d 100644
--- a/minisat/src/core.rs
+++ b/minisat/src/core.rs
@@ -17,6 +17,8 @@ use rustsat::types::Var;
 pub struct Minisat {
     handle: *mut crate::ffi::CMinisat,
     state: crate::InternalSolverState,
+    /// The number of variables that the last model assigns
+    model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
 }
 
@@ -32,6 +34,7 @@ impl Default for Minisat {
         Self {
             handle,
             state: crate::InternalSolverState::default(),
+            model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
         }
     }
@@ -129,6 +132,7 @@ impl rustsat::solvers::Solve for Minisat {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cminisat_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
@@ -152,10 +156,15 @@ impl rustsat::solvers::Solve for Minisat {
             }
             .into());
         }
-        match unsafe { crate::ffi::cminisat_val(self.handle, lit.into()) } {
+        // The model does not contain variables that were introduced after it was found
+        if i64::from(lit.vidx32()) >= i64::from(self.model_vars) {
+            return Ok(rustsat::types::TernaryVal::DontCare);
+        }
+        // The C-API returns the value of the _variable_ of the literal
+        match unsafe { crate::ffi::cminisat_val(self.handle, lit.var().pos_lit().into()) } {
             crate::ffi::T_UNASSIGNED => Ok(rustsat::types::TernaryVal::DontCare),
-            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::True),
-            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::False),
+            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::from(lit.is_pos())),
+            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::from(lit.is_neg())),
             value => Err(crate::InvalidApiReturn {
                 api_call: "cminisat_val",
                 value,
@@ -209,6 +218,7 @@ impl rustsat::solvers::SolveIncremental for Minisat {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cminisat_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index fb0b90e..8ebd848 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -17,6 +17,8 @@ use rustsat::types::Var;
 pub struct Minisat {
     handle: *mut crate::ffi::CMinisatSimp,
     state: crate::InternalSolverState,
+    /// The number of variables that the last model assigns
+    model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
 }
 
@@ -32,6 +34,7 @@ impl Default for Minisat {
         Self {
             handle,
             state: crate::InternalSolverState::default(),
+            model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
         }
     }
@@ -137,6 +140,7 @@ impl rustsat::solvers::Solve for Minisat {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cminisatsimp_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
@@ -160,10 +164,15 @@ impl rustsat::solvers::Solve for Minisat {
             }
             .into());
         }
-        match unsafe { crate::ffi::cminisatsimp_val(self.handle, lit.into()) } {
+        // The model does not contain variables that were introduced after it was found
+        if i64::from(lit.vidx32()) >= i64::from(self.model_vars) {
+            return Ok(rustsat::types::TernaryVal::DontCare);
+        }
+        // The C-API returns the value of the _variable_ of the literal
+        match unsafe { crate::ffi::cminisatsimp_val(self.handle, lit.var().pos_lit().into()) } {
             crate::ffi::T_UNASSIGNED => Ok(rustsat::types::TernaryVal::DontCare),
-            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::True),
-            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::False),
+            crate::ffi::T_TRUE => Ok(rustsat::types::TernaryVal::from(lit.is_pos())),
+            crate::ffi::T_FALSE => Ok(rustsat::types::TernaryVal::from(lit.is_neg())),
             value => Err(crate::InvalidApiReturn {
                 api_call: "cminisatsimp_val",
                 value,
@@ -222,6 +231,7 @@ impl rustsat::solvers::SolveIncremental for Minisat {
             10 => {
                 self.stats.n_sat += 1;
                 self.state = crate::InternalSolverState::Sat;
+                self.model_vars = unsafe { crate::ffi::cminisatsimp_n_vars(self.handle) };
                 Ok(SolverResult::Sat)
             }
             20 => {
-- 
2.43.0


From ebd06a3e8cfca4886fa6eff3974c979004df78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 57/67] fix: declare unknown variables before handing literals
 to Minisat/Glucose

---
 glucose/src/core.rs |  6 ++++++
 glucose/src/simp.rs | 14 ++++++++++++++
 minisat/src/core.rs |  6 ++++++
 minisat/src/simp.rs | 14 ++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/glucose/src/core.rs b/glucose/src/core.rs
index 2832db4..0dfe71b 100644
--- a/glucose/src/core.rs
+++ b/glucose/src/core.rs
@@ -360,6 +360,12 @@ impl rustsat::solvers::Propagate for Glucose {
         assumps: &[Lit],
         phase_saving: bool,
     ) -> anyhow::Result<rustsat::solvers::PropagateResult> {
+        use rustsat::solvers::Solve;
+
+        // All assumptions need to be known to the backend
+        if let Some(max_var) = assumps.iter().map(|a| a.var()).max() {
+            self.reserve(max_var)?;
+        }
         let start = rustsat::utils::Timer::now();
         self.state = crate::InternalSolverState::Input;
         // Propagate with glucose backend
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index 1503d2a..542a33f 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -75,6 +75,14 @@ impl Glucose {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: rustsat::types::Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        // Variables that are not known to the backend cannot have been eliminated
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cglucosesimp4_is_eliminated(self.handle, var.idx32() as c_int)
@@ -414,6 +422,12 @@ impl rustsat::solvers::Propagate for Glucose {
         assumps: &[Lit],
         phase_saving: bool,
     ) -> anyhow::Result<rustsat::solvers::PropagateResult> {
+        use rustsat::solvers::Solve;
+
+        // All assumptions need to be known to the backend
+        if let Some(max_var) = assumps.iter().map(|a| a.var()).max() {
+            self.reserve(max_var)?;
+        }
         let start = rustsat::utils::Timer::now();
         self.state = crate::InternalSolverState::Input;
         // Propagate with glucose backend
diff --git a/minisat/src/core.rs b/minisat/src/core.rs
index 30cb28d..8b035ba 100644
--- a/minisat/src/core.rs
+++ b/minisat/src/core.rs
@@ -360,6 +360,12 @@ impl rustsat::solvers::Propagate for Minisat {
         assumps: &[Lit],
         phase_saving: bool,
     ) -> anyhow::Result<rustsat::solvers::PropagateResult> {
+        use rustsat::solvers::Solve;
+
+        // All assumptions need to be known to the backend
+        if let Some(max_var) = assumps.iter().map(|a| a.var()).max() {
+            self.reserve(max_var)?;
+        }
         let start = rustsat::utils::Timer::now();
         self.state = crate::InternalSolverState::Input;
         // Propagate with minisat backend
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index 8ebd848..ed84009 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -76,6 +76,14 @@ impl Minisat {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        // Variables that are not known to the backend cannot have been eliminated
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cminisatsimp_is_eliminated(self.handle, var.idx32() as c_int)
@@ -415,6 +423,12 @@ impl rustsat::solvers::Propagate for Minisat {
         assumps: &[Lit],
         phase_saving: bool,
     ) -> anyhow::Result<rustsat::solvers::PropagateResult> {
+        use rustsat::solvers::Solve;
+
+        // All assumptions need to be known to the backend
+        if let Some(max_var) = assumps.iter().map(|a| a.var()).max() {
+            self.reserve(max_var)?;
+        }
         let start = rustsat::utils::Timer::now();
         self.state = crate::InternalSolverState::Input;
         // Propagate with minisat backend
-- 
2.43.0


From 0e46248659baa736467905f5c39e9fd2c2adf9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 58/67] fix: do not answer CaDiCaL simplify from the state of
 another query

---
 cadical/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index dbee2ad..1a52791 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -475,8 +475,10 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
+        if let InternalSolverState::Unsat(core) = &self.state {
+            if core.is_empty() {
+                return Ok(SolverResult::Unsat);
+            }
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
@@ -523,12 +525,11 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
+        // If already unsatisfiable without assumptions, return state
+        if let InternalSolverState::Unsat(core) = &self.state {
+            if core.is_empty() {
+                return Ok(SolverResult::Unsat);
+            }
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend under assumptions
@@ -545,7 +546,7 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
-- 
2.43.0


From d838470f40b8d3d76aa55b350c351eb9e1dcc261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 59/67] fix: do not cache an Unsat answer caused by a temporary
 CaDiCaL clause

---
 cadical/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 1a52791..82041cc 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -476,7 +476,8 @@ impl CaDiCaL<'_, '_> {
             return Ok(SolverResult::Sat);
         }
         if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
+            // (temporary clauses only exist for a single call)
+            if core.is_empty() && !self.tmp_clause_in_core()? {
                 return Ok(SolverResult::Unsat);
             }
         }
@@ -527,7 +528,8 @@ impl CaDiCaL<'_, '_> {
     ) -> anyhow::Result<SolverResult> {
         // If already unsatisfiable without assumptions, return state
         if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
+            // (temporary clauses only exist for a single call)
+            if core.is_empty() && !self.tmp_clause_in_core()? {
                 return Ok(SolverResult::Unsat);
             }
         }
@@ -718,7 +720,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
             return Ok(SolverResult::Sat);
         }
         if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
+            // (temporary clauses only exist for a single call)
+            if core.is_empty() && !self.tmp_clause_in_core()? {
                 return Ok(SolverResult::Unsat);
             }
         }
-- 
2.43.0


From 93335ead81989b5939aec53f5a5e8bc031636db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 60/67] fix: reset the CaDiCaL wrapper state when declaring
 variables

---
 cadical/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 82041cc..2e298a1 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -646,6 +646,8 @@ impl CaDiCaL<'_, '_> {
     /// If `num_additional > i32::MAX`
     #[cfg(cadical_version = "v2.2")]
     pub fn declare_more_variables(&mut self, num_additional: u32) -> Var {
+        // This leaves the solved state of the backend
+        self.state = InternalSolverState::Input;
         Lit::from_ipasir(unsafe {
             ffi::ccadical_declare_more_variables(
                 self.handle,
-- 
2.43.0


From 544f0ca11d0546d4e10364b6f498bf35fb61d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 61/67] fix: report an error for a second Kissat query instead
 of aborting

---
 kissat/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..62a6956 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -83,6 +83,8 @@ enum InternalSolverState {
     Input,
     Sat,
     Unsat(Vec<Lit>),
+    /// Solving was interrupted, as Kissat is non-incremental, it cannot be continued
+    Interrupted,
 }
 
 impl InternalSolverState {
@@ -92,6 +94,7 @@ impl InternalSolverState {
             InternalSolverState::Input => rustsat::solvers::SolverState::Input,
             InternalSolverState::Sat => rustsat::solvers::SolverState::Sat,
             InternalSolverState::Unsat(_) => rustsat::solvers::SolverState::Unsat,
+            InternalSolverState::Interrupted => rustsat::solvers::SolverState::Unknown,
         }
     }
 }
@@ -297,7 +300,10 @@ impl rustsat::solvers::Solve for Kissat<'_> {
     }
 
     fn reserve(&mut self, max_var: Var) -> anyhow::Result<()> {
-        self.state = InternalSolverState::Input;
+        // Do not forget about the result of a query, since there can only be one
+        if self.state == InternalSolverState::Configuring {
+            self.state = InternalSolverState::Input;
+        }
         unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
         Ok(())
     }
@@ -310,6 +316,14 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         if let InternalSolverState::Unsat(_) = self.state {
             return Ok(SolverResult::Unsat);
         }
+        // Kissat is non-incremental, so an interrupted solver cannot be called again
+        if let InternalSolverState::Interrupted = self.state {
+            return Err(rustsat::solvers::StateError {
+                required_state: rustsat::solvers::SolverState::Input,
+                actual_state: self.state.to_external(),
+            }
+            .into());
+        }
         let start = rustsat::utils::Timer::now();
         // Solve with Kissat backend
         let res = unsafe { ffi::kissat_solve(self.handle) };
@@ -317,7 +331,7 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         match res {
             0 => {
                 self.stats.n_terminated += 1;
-                self.state = InternalSolverState::Input;
+                self.state = InternalSolverState::Interrupted;
                 Ok(SolverResult::Interrupted)
             }
             10 => {
-- 
2.43.0


From 069615d3e783ce7939977a4e75d648238b8e3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 62/67] fix: remove a leftover dbg! in CaDiCaL propagate

---
 cadical/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 2e298a1..b503b15 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -1095,7 +1095,6 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         }
         let res = handle_oom!(unsafe { ffi::ccadical_propagate(self.handle) });
         let mut props = Vec::new();
-        dbg!(res);
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-- 
2.43.0


From be982c4cf94228243cea27eff6f64a0c608903a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:06 +0000
Subject: [PATCH 63/67] fix: read the number of constraints and the capacity of
 vOptLib knapsack files

---
 tools/src/encodings/knapsack.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 62bfc4f..2714065 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -268,12 +268,18 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        single_value(dec_uint::<_, u32, ContextError>, "#")
+        let line = next_non_comment_line!(reader, line_num)
+            .context("file ended before number of constraints line")?;
+        let n_constraints = single_value(dec_uint::<_, u32, ContextError>, "#")
             .context(StrContext::Expected(StrContextValue::Description(
                 "number of constraints",
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_constraints == 1,
+            "only instances with a single constraint are supported"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
@@ -307,6 +313,14 @@ mod parsing {
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
             inst.items[item_idx].weight = weight;
         }
+        let line =
+            next_non_comment_line!(reader, line_num).context("file ended before capacity line")?;
+        inst.capacity = single_value(dec_uint::<_, usize, ContextError>, "#")
+            .context(StrContext::Expected(StrContextValue::Description(
+                "capacity",
+            )))
+            .parse(&line)
+            .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         Ok(inst)
     }
 
-- 
2.43.0


From eadba1349263b7b7330cb958f7686b5d734ed428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:06 +0000
Subject: [PATCH 64/67] fix: check the number of tasks when parsing assignment
 files

---
 tools/src/encodings/assignment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 79aad3a..2b2caf2 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -116,7 +116,7 @@ mod parsing {
                         }
                         2 => {
                             task_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many tasks");
+                            anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                         }
                         _ => unreachable!(),
                     };
-- 
2.43.0


From a6ec02a2ddd0fc80ec1f62161dca326a294b4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:49 +0000
Subject: [PATCH 65/67] fix: accept white space after a list in assignment
 files instead of looping

---
 tools/src/encodings/assignment.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 2b2caf2..ac10f2a 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -95,8 +95,9 @@ mod parsing {
         let mut task_idx = 0;
         while reader.read_line(&mut buf)? > 0 {
             line_num += 1;
-            let mut remain = buf.trim_start();
+            let mut remain = buf.as_str();
             loop {
+                remain = remain.trim_start();
                 if remain.starts_with('[') && depth < 2 {
                     depth += 1;
                     remain = &remain[1..];
@@ -122,7 +123,8 @@ mod parsing {
                     };
                     remain = &remain[1..];
                 }
-                if remain.starts_with('#') || remain.trim().is_empty() {
+                remain = remain.trim_start();
+                if remain.starts_with('#') || remain.is_empty() {
                     break;
                 }
                 if depth == 2 {
-- 
2.43.0


From ba8fa6a9316aaad8d307cd6d4d1a8582f2a65617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:26 +0000
Subject: [PATCH 66/67] fix: refuse malformed assignment files instead of
 looping or panicking

---
 tools/src/encodings/assignment.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index ac10f2a..413393a 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -119,7 +119,7 @@ mod parsing {
                             task_idx += 1;
                             anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                         }
-                        _ => unreachable!(),
+                        _ => anyhow::bail!("unexpected list separator in line {line_num}"),
                     };
                     remain = &remain[1..];
                 }
@@ -160,6 +160,11 @@ mod parsing {
                             )
                         })?
                         .1;
+                } else {
+                    anyhow::ensure!(
+                        remain.starts_with(['[', ']', ',']),
+                        "unexpected token in line {line_num}"
+                    );
                 }
             }
             buf.clear();
-- 
2.43.0


From f3db7a0c1672c4412494098da964577e3b381f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:26 +0000
Subject: [PATCH 67/67] fix: refuse similarity files without two data points
 instead of panicking

---
 tools/src/encodings/cnf/clustering.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..279771b 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -172,6 +172,7 @@ impl Encoding {
             .filter_map(process_line)
             .collect::<Result<Vec<_>, _>>()?;
         let n = ident_map.len() as u32;
+        anyhow::ensure!(n >= 2, "expected similarities for at least two data points");
 
         let mut similarities = Vec::new();
         similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
-- 
2.43.0

