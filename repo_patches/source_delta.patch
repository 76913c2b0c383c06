From e45eb89f9ce6e7715480d7ee74979bbea963a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 01/25] fix: advance the pivot row in modular echelon form only
 after a pivot

A column without a pivot skipped a row, so rank-deficient input was not brought
to echelon form.
---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..176d610 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From 0453585d4af8245c1b2e8080a6c38ef07e969744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 02/25] fix: reduce negative multiples of the prime to zero in
 modular echelon form

They were reduced to the prime itself, which then failed to invert.
---
 src/arithmetic/modular_solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 176d610..9d5166d 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
-- 
2.43.0


From 2d077cf2c282440beea7974916494d91995aea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 03/25] fix: reduce negative multiples of the pivot to zero in
 integer reduced bases

---
 src/arithmetic/linear_algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..58a9c22 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,7 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From ebfd9f637e40df9088cd1334bedf80a5bfa137f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 04/25] fix: the null space of a matrix without rows is the
 full space

---
 src/arithmetic/linear_algebra.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 58a9c22..16fdc68 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -362,6 +362,10 @@ impl<T> LinearAlgebra<T> for Matrix<T>
     }
 
     fn null_space(&self) -> Option<Matrix<T>> {
+        if self.nrows == 0 && self.ncols > 0 {
+            return Some(Matrix::identity(self.ncols));
+        }
+
         let m = self.transpose();
         let t = Matrix::hstack(&[m.clone(), Matrix::identity(m.nrows)])
             .reduced_basis();
-- 
2.43.0


From 16ff0b0a8f44595bf5e49e3b6e34396435b97ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 05/25] fix: allow all origin shifts when every operator is a
 translation

---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..cc926c0 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -152,8 +152,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(Matrix::identity(dim))
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From a7e288f299dd113c7ebd43aa8e0f3e5a0db3931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/25] fix: reduce negative coordinates modulo Z to [0, 1)

Truncating left equivalent translations distinct, so generated groups
contained duplicates. The orientation of a primitive cell, which depended on
such duplicates, is now fixed explicitly.
---
 src/arithmetic/geometry.rs |  8 +++++---
 src/spacegroups/basics.rs  | 11 ++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..1e7a6e9 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,12 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + Zero + One + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +639,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + Zero + One + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index cc926c0..d71b628 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -3,7 +3,7 @@ use std::ops::{Rem, Mul};
 use std::collections::HashSet;
 
 use num_rational::BigRational;
-use num_traits::{One, Zero};
+use num_traits::{One, Signed, Zero};
 
 use crate::arithmetic::geometry::{AffineMap, Vector, CoordinateMap, ModZ};
 use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
@@ -69,9 +69,14 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
                 translations.push(op.shift().into_iter().collect());
             }
         }
-        let cell: Vec<_> = rational_lattice_basis(&translations)
+        let mut cell: Vec<_> = rational_lattice_basis(&translations)
             .into_iter().map(|v| Vector::new(&v)).collect();
-        let to_primitive = CoordinateMap::to_basis(&cell);
+        let mut to_primitive = CoordinateMap::to_basis(&cell);
+
+        if to_primitive.determinant().is_negative() {
+            cell[0] = -&cell[0];
+            to_primitive = CoordinateMap::to_basis(&cell);
+        }
 
         let mut seen = HashSet::new();
         let mut ops = vec![];
-- 
2.43.0


From e1dbf5b18c313758022deb60592c95efaa01e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 07/25] fix: map edge basis vectors, not matrix columns, when
 finding symmetries

The candidate transform was computed with the edge vectors as columns although
they are the rows of the basis matrices; symmetries were missed in sheared cells.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..0491feb 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,7 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 84f95b9ed1fea5b69fa1e6c80551f9fe57734e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 08/25] fix: express shifts in the extended translation basis
 in minimal_image

---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 0491feb..7371bb8 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).transpose().inverse().unwrap();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From afed8181e99a9a92aa2ce2b351586f61b41b639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 09/25] fix: do not panic on a zero denominator in an operator
 string

---
 src/spacegroups/parse_operator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..fad01f1 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,7 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d == 0 { None } else { Some(Ratio::new(n as i32, d as i32)) }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From 77bd511c1d2d0b6113c29dddfa201a44bbc11de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 10/25] fix: do not panic on a zero denominator in a CGD line

---
 src/io/parse_cgd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..c9491b9 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,7 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }
     )(input)
 }
 
-- 
2.43.0


From 346223207c268537032774fa72007e40f6c3b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 11/25] fix: do not treat arbitrary Unicode characters as
 spaces in CGD names

---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index c9491b9..ca0c35d 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -97,7 +97,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From d16b91be3812c67acc0789d096d0384edbf80287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 12/25] fix: read names starting with 'inf' or 'nan' as names,
 not as numbers

---
 src/io/parse_cgd_line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index ca0c35d..adc0fa0 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -107,7 +107,9 @@ fn unsigned_integer(input: &str) -> IResult<&str, u32> {
 
 
 fn double_to_field() -> impl Fn(f64) -> Option<Field> {
-    |f| if f == (f as i32) as f64 {
+    |f| if !f.is_finite() {
+        None
+    } else if f == (f as i32) as f64 {
         Some(Field::Int(f as i32))
     } else {
         Some(Field::Double(f))
-- 
2.43.0


From 535cfe7bdc150204afb28dc2d7ecf6791295e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 13/25] fix: warn about a single ignored field after 'end' or a
 block type

The key is not part of the field list.
---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..f8d2a98 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -103,7 +103,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -116,7 +116,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From 1834b4050b4c90f584d4686a0461c36b93d1c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/25] fix: do not carry the current key over the end of a
 block

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index f8d2a98..bbae8f7 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -109,6 +109,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.entries.push(entry);
                         blocks.push(current_block);
                         current_block = Block::new();
+                        current_key = None;
                         in_block = false;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
-- 
2.43.0


From 77976631efadb52e4ea31dcb8b3ea98e04c9dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 15/25] fix: stop reading lines after a persistent input error

---
 src/io/parse_cgd_blocks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index bbae8f7..fc67c8c 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, Read, BufReader};
+use std::io::{BufRead, ErrorKind, Read, BufReader};
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -161,6 +161,10 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
             Err(e) => {
                 current_entry.entry_type = EntryType::Error;
                 current_entry.add_error(&format!("{:?}", e));
+                if e.kind() != ErrorKind::InvalidData {
+                    all_entries.push(current_entry);
+                    break;
+                }
             },
             Ok(s) => match parse_cgd_line(&s) {
                 Err(e) => {
-- 
2.43.0


From fd8c56896e4eb904ebe3f666a1efa80a201746e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/25] fix: print the number in operators that shift by
 exactly one

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..ff12af8 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if !val.abs().is_one() || axis.is_empty() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From 72dabdf09390b853cf7eae3319bdf4fdbdfbb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 17/25] fix: reject singular coordinate maps instead of
 panicking

---
 src/spacegroups/parse_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index ff12af8..1850cce 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,9 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+        forward.inverse()?;
+        Some(CoordinateMap::new(&forward))
     }
 }
 
-- 
2.43.0


From d673b1d725086b4b7862adddc6cc5d9333afb95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 18/25] fix: reject incomplete alias and lookup lines instead
 of panicking

---
 src/spacegroups/parse_table.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 1850cce..0e9ae7c 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -234,7 +234,9 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert(
+                    (*fields.get(1)?).into(), (*fields.get(2)?).into()
+                );
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -262,8 +264,8 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
-    let name = fields[1].to_string();
-    let spec = fields[4..].join(" ");
+    let name = fields.get(1)?.to_string();
+    let spec = fields.get(4..)?.join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
 
     let system = CrystalSystem::from_string(fields[2])?;
-- 
2.43.0


From a667174cc8ac76b65e1c4e92d8257c714165a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 19/25] fix: reject operator strings with trailing text

---
 src/spacegroups/parse_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 0e9ae7c..92b3564 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.len() != shift.len() {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From bf4d705bb8aafe05e0697709bfbd13a903fe54ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 20/25] fix: reject operator strings whose dimension does not
 match their axes

Coefficients of unused axes were dropped silently, and more than three
coordinates produced a non-square matrix.
---
 src/spacegroups/parse_operator.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index fad01f1..b074326 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -7,7 +7,7 @@ use nom::combinator::map_opt;
 use nom::multi::{many0, separated_list1};
 use nom::sequence::{separated_pair, tuple, pair, preceded, delimited};
 use num_rational::Ratio;
-use num_traits::CheckedAdd;
+use num_traits::{CheckedAdd, Zero};
 
 
 #[derive(Debug, Eq, Hash, PartialEq)]
@@ -27,7 +27,10 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
     match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+        Ok((rest, op)) => match convert_operator(&op) {
+            Some(op) => Ok((rest, op)),
+            None => Err(format!("inconsistent dimensions in '{}'", input)),
+        },
         Err(err) => Err(err.to_string()),
     }
 }
@@ -103,7 +106,7 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
     let mut rows = vec![];
     let mut shift = vec![];
 
@@ -113,11 +116,14 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
     }
 
     let n = shift.len();
+    if rows.iter().any(|v| v.len() < n || v[n..].iter().any(|x| !x.is_zero())) {
+        return None;
+    }
     let rows = rows.iter()
         .map(|v| v.iter().take(n).copied().collect())
         .collect();
 
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
-- 
2.43.0


From c8f6e65c00e7ea98552f535a3baa015c9ad95e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 21/25] fix: solve integer systems whose determinant is a
 multiple of the prime used

They were reported as having no solution.
---
 src/arithmetic/modular_solver.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 9d5166d..4db8e97 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -197,10 +197,29 @@ fn rational_reconstruction(s: &BigInt, h: &BigInt) -> BigRational {
 }
 
 
-pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
-    let prime = 9999991;
+fn inverse_for_some_prime(a: &Matrix, b: &Matrix) -> Option<(i64, Matrix)> {
+    if a.len() == 0 {
+        return None;
+    }
+
+    // A non-zero determinant can not be divisible by all the primes tried.
+    let max_prime = 9999991;
+    let max_tries = number_of_p_adic_steps_needed(a, b, max_prime) as usize;
+
+    (2..=max_prime).rev()
+        .filter(|&p| is_prime(p))
+        .take(max_tries)
+        .find_map(|p| modular_matrix_inverse(a, p).map(|c| (p, c)))
+}
 
-    if let Some(c) = modular_matrix_inverse(a, prime) {
+
+fn is_prime(n: i64) -> bool {
+    n > 1 && (2..).take_while(|k| k * k <= n).all(|k| n % k != 0)
+}
+
+
+pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
+    if let Some((prime, c)) = inverse_for_some_prime(a, b) {
         let nr_steps = number_of_p_adic_steps_needed(a, b, prime);
         let nrows = b.len();
         let ncols = b[0].len();
-- 
2.43.0


From 68ffe9457f2097ff547e0cce8d81f940dce9f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 22/25] hooks: read-only accessors for verification, guarded by
 cfg(verif_hooks)

---
 src/io/parse_cgd_blocks.rs     | 20 ++++++++++++++++++++
 src/lib.rs                     |  2 ++
 src/pgraphs.rs                 | 20 ++++++++++++++++++++
 src/spacegroups/basics.rs      | 20 ++++++++++++++++++++
 src/spacegroups/parse_table.rs | 20 ++++++++++++++++++++
 5 files changed, 82 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index fc67c8c..911217a 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,6 +71,26 @@ impl Block {
 }
 
 
+#[cfg(verif_hooks)]
+impl Entry {
+    pub fn verif_entry_type(&self) -> &EntryType { &self.entry_type }
+    pub fn verif_key(&self) -> &Option<String> { &self.key }
+    pub fn verif_fields(&self) -> &Vec<Field> { &self.fields }
+    pub fn verif_notes(&self) -> &Vec<Note> { &self.notes }
+    pub fn verif_line_number(&self) -> usize { self.line_number }
+    pub fn verif_content(&self) -> &Option<String> { &self.content }
+}
+
+
+#[cfg(verif_hooks)]
+impl Block {
+    pub fn verif_block_type(&self) -> &String { &self.block_type }
+    pub fn verif_lineno_start(&self) -> usize { self.lineno_start }
+    pub fn verif_lineno_end(&self) -> usize { self.lineno_end }
+    pub fn verif_entries(&self) -> &Vec<Entry> { &self.entries }
+}
+
+
 pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
     let mut blocks = vec![];
     let mut current_block = Block::new();
diff --git a/src/lib.rs b/src/lib.rs
index 76c5828..92f56ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(verif_hooks) guards read-only accessors
+
 pub mod arithmetic;
 pub mod io;
 pub mod partitions;
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..0a57931 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -631,6 +631,26 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
+#[cfg(verif_hooks)]
+impl<T, CS> Automorphism<T, CS>
+    where
+        T: Eq + Hash,
+        CS: Eq + Hash
+{
+    pub fn verif_vertex_map(&self) -> &HashMap<Vertex, Vertex> {
+        &self.vertex_map
+    }
+
+    pub fn verif_edge_map(&self) -> &HashMap<Edge<T, CS>, Edge<T, CS>> {
+        &self.edge_map
+    }
+
+    pub fn verif_transform(&self) -> &AffineMap {
+        &self.transform
+    }
+}
+
+
 impl<T, CS> Mul<&Automorphism<T, CS>> for &Automorphism<T, CS>
     where
         T: Clone + Eq + Hash,
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index d71b628..d2159fd 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -94,6 +94,26 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
+#[cfg(verif_hooks)]
+impl<CS, CSP> PrimitiveSetting<CS, CSP>
+    where
+        CS: Clone + Eq,
+        CSP: Clone + Eq + Hash
+{
+    pub fn verif_new(ops_all: &Vec<AffineMap<BigRational, CS>>) -> Self {
+        Self::new(ops_all)
+    }
+
+    pub fn verif_parts(&self) -> (
+        &Vec<Vector<BigRational, CS>>,
+        &CoordinateMap<BigRational, CS, CSP>,
+        &Vec<AffineMap<BigRational, CSP>>
+    ) {
+        (&self.cell, &self.to_primitive, &self.ops)
+    }
+}
+
+
 pub fn gram_matrix_configuration_space<CS: Clone>(
     ops: &Vec<AffineMap<BigRational, CS>>
 )
diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 92b3564..eaa8396 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -123,6 +123,26 @@ impl Display for Lookup {
 }
 
 
+#[cfg(verif_hooks)]
+impl TableEntry {
+    pub fn verif_name(&self) -> &String { &self.name }
+    pub fn verif_canonical_name(&self) -> &String { &self.canonical_name }
+    pub fn verif_transform(&self) -> &SettingCoordinateMap { &self.transform }
+    pub fn verif_operators(&self) -> &Vec<AffineMap<BigRational, Setting>> {
+        &self.operators
+    }
+}
+
+
+#[cfg(verif_hooks)]
+impl Lookup {
+    pub fn verif_name(&self) -> &String { &self.name }
+    pub fn verif_system(&self) -> &CrystalSystem { &self.system }
+    pub fn verif_centering(&self) -> &Centering { &self.centering }
+    pub fn verif_from_std(&self) -> &SettingCoordinateMap { &self.from_std }
+}
+
+
 pub struct Tables {
     pub settings: HashMap<String, TableEntry>,
     pub alias: HashMap<String, String>,
-- 
2.43.0


From 5d750ed4cdbd0f3f795971fe8e0703bb5c0242d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 23/25] fix: require S^T G S = G for Gram matrices of operators
 S on column vectors

The transposed equation describes the inverse Gram matrices, which differ for
non-orthogonal operators such as hexagonal ones.
---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index d2159fd..23045ff 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -145,7 +145,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From 2b6cba3e41fbde0fab61d767b4495578eb5070f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 24/25] fix: do not panic on groups without non-integer
 translations in PrimitiveSetting

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 23045ff..e9d3dc4 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        let mut translations = id.get_rows();
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From bba1478c4aba035e08100e4593a9f135819b33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 25/25] fix: find modular inverses of negative numbers

---
 src/arithmetic/modular_solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 4db8e97..c93561e 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -4,7 +4,7 @@ use num_rational::BigRational;
 
 pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
     let (mut t, mut t1) = (0, 1);
-    let (mut r, mut r1) = (modulus, argument);
+    let (mut r, mut r1) = (modulus, argument.rem_euclid(modulus));
 
     while r1 != 0 {
         let q = r / r1;
-- 
2.43.0

