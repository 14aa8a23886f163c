From 60e6ba6cf413f7378fd36955ecad3b94da4c1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:43 +0000
Subject: [PATCH 01/56] fix: Expression -, * and / keep their own operator on
 non-numeric operands

---
 doctor-syn/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index 32a8bc8..bfd70d6 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -206,7 +206,7 @@ macro_rules! make_op {
             } else {
                 let lhs = lhs.as_ref();
                 let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) + (#rhs));
+                let res : Expr = parse_quote!((#lhs) $op (#rhs));
                 res.into()
             }
         }
-- 
2.43.0


From 4e7dcc9766261aff2b537f09bdda39e40f6bf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:43 +0000
Subject: [PATCH 02/56] fix: use_number_type(hex, 64) emits f64::from_bits

---
 doctor-syn/src/transformation/use_number_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..31ea71f 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -23,7 +23,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
@@ -38,7 +38,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0


From 451cacf7a2e2857dcd59393918713e1b276b5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:43 +0000
Subject: [PATCH 03/56] fix: paren no longer prints a debug line to stdout

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From fd4ad4d75764add23e40ea663157bde90de65ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:43 +0000
Subject: [PATCH 04/56] fix: qnorm starts its Newton iteration at the mean, so
 that it converges for every mean

---
 doctor-syn/src/bdmath.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 05924e9..2e55a42 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -377,7 +377,7 @@ pub fn qnorm(
         // if x.abs() < bigdf(0.01) {
         //     guess = bigdf(0.0);
         // }
-        let mut guess = bigdf(0.0);
+        let mut guess = mean.clone();
         loop {
             // println!("guess={}", guess);
             let pnorm = pnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
-- 
2.43.0


From c6deab5a1a5baf388dd16d6d78f6f0d01c09f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:54 +0000
Subject: [PATCH 05/56] fix: eval returns an error instead of panicking on
 undefined operations

---
 doctor-syn/src/bdmath.rs              |  6 ++++++
 doctor-syn/src/transformation/eval.rs | 24 ++++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 2e55a42..9155882 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -285,6 +285,9 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
 
 pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
     if let (Some(lnx), Some(lnbase)) = (ln(x, num_digits), ln(base, num_digits)) {
+        if lnbase.is_zero() {
+            return None;
+        }
         Some(lnx / lnbase)
     } else {
         None
@@ -371,6 +374,9 @@ pub fn qnorm(
     num_digits: i64,
 ) -> Option<BigDecimal> {
     // println!("x={}", x);
+    if x == one() {
+        return None;
+    }
     if let Some(_logit) = ln(&x / (one() - &x), num_digits) {
         // let mut guess = logit * bigdf(0.6);
         // let mut guess = logit * bigdf(0.1);
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index dd98933..85c6938 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,6 +70,8 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
+            ("recip", x, 0) if x.is_zero() => Err(errfn()),
+
             ("recip", x, 0) => Ok(Expression::from(x.inverse()).into()),
 
             ("powi", x, 1) => {
@@ -123,7 +125,15 @@ impl Visitor for Eval {
 
             ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
-            ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
+            ("tan", x, 0) => {
+                let c = cos(x.clone(), self.num_digits);
+                if c.is_zero() {
+                    return Err(errfn());
+                }
+                Ok(Expression::from(sin(x, self.num_digits) / c).into())
+            }
+
+            ("asin", x, 0) | ("acos", x, 0) if x.abs() > one() => Err(errfn()),
 
             ("asin", x, 0) => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
@@ -135,6 +145,11 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
+            // The standard deviation must be positive.
+            ("dnorm", _, 2) | ("pnorm", _, 2) | ("qnorm", _, 2) if !arg1().is_positive() => {
+                Err(errfn())
+            }
+
             ("dnorm", x, 2) => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
@@ -174,14 +189,15 @@ impl Visitor for Eval {
         let right: Expression = self.visit_expr(&exprbinary.right)?.into();
 
         if left.is_numeric() && right.is_numeric() {
-            let left: BigDecimal = left.try_into().unwrap();
-            let right: BigDecimal = right.try_into().unwrap();
+            let left: BigDecimal = left.try_into()?;
+            let right: BigDecimal = right.try_into()?;
             match exprbinary.op {
                 BinOp::Add(_) => Ok(Expression::from(left + right).into()),
                 BinOp::Sub(_) => Ok(Expression::from(left - right).into()),
                 BinOp::Mul(_) => {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
+                BinOp::Div(_) if right.is_zero() => Err(eval_err(exprbinary.clone().into())),
                 BinOp::Div(_) => {
                     Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
                 }
@@ -201,7 +217,7 @@ impl Visitor for Eval {
     fn visit_unary(&self, exprunary: &ExprUnary) -> Result<Expr> {
         let expr: Expression = self.visit_expr(&exprunary.expr)?.into();
         if expr.is_numeric() {
-            let expr: BigDecimal = expr.try_into().unwrap();
+            let expr: BigDecimal = expr.try_into()?;
             match exprunary.op {
                 // UnOp::Deref(_) => (),
                 // UnOp::Not(_) => (),
-- 
2.43.0


From 1491b078adb5bb1e788868f5184f4a61a9b6aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 06/56] fix: bigdf, bigdf32 and round_ieee give the exact IEEE
 value, correctly rounded

---
 doctor-syn/src/bdmath.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 9155882..afc3c5a 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -86,12 +86,16 @@ pub fn bigd(i: i32) -> BigDecimal {
     BigDecimal::from_i32(i).unwrap()
 }
 
+// BigDecimal::from_f64 keeps only 16 digits. Every finite f64 has at most
+// 1074 decimal places, so this is its exact value, with a decimal point.
 pub fn bigdf(i: f64) -> BigDecimal {
-    BigDecimal::from_f64(i).unwrap()
+    let text = format!("{:.1074}", i);
+    let (int, frac) = text.split_at(text.find('.').unwrap() + 2);
+    format!("{}{}", int, frac.trim_end_matches('0')).parse().unwrap()
 }
 
 pub fn bigdf32(i: f32) -> BigDecimal {
-    BigDecimal::from_f32(i).unwrap()
+    bigdf(i as f64)
 }
 
 pub fn zero() -> BigDecimal {
@@ -335,15 +339,23 @@ pub fn dnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -
     k1 * exp(-&x * &x * half(), num_digits) / sd
 }
 
+// BigDecimal::to_f64 does not round correctly, but parsing a float does.
+fn ieee_repr(x: BigDecimal) -> String {
+    let (bigint, decimal_part_digits) = x.into_bigint_and_exponent();
+    format!("{}e{}", bigint, -decimal_part_digits)
+}
+
 /// Round to f32 or f64.
 pub fn round_ieee(x: BigDecimal, bits: BigDecimal, _num_digits: i64) -> Result<BigDecimal> {
     match bits.to_i32() {
-        Some(32) => {
-            Ok(BigDecimal::from_f32(x.to_f32().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
-        }
-        Some(64) => {
-            Ok(BigDecimal::from_f64(x.to_f64().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
-        }
+        Some(32) => match ieee_repr(x).parse::<f32>() {
+            Ok(f) if f.is_finite() => Ok(bigdf32(f)),
+            _ => Err(Error::Overflow),
+        },
+        Some(64) => match ieee_repr(x).parse::<f64>() {
+            Ok(f) if f.is_finite() => Ok(bigdf(f)),
+            _ => Err(Error::Overflow),
+        },
         _ => Err(Error::Expected32or64bits),
     }
 }
-- 
2.43.0


From 6de1d1975c0d79fdadaaaba46196ff5a29dd09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 07/56] fix: Expression::from(f64) and from(f32) read back as
 the same float

---
 doctor-syn/src/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index bfd70d6..7af0f4a 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -66,14 +66,16 @@ impl From<bool> for Expression {
 
 impl From<f64> for Expression {
     fn from(val: f64) -> Self {
-        let bd = BigDecimal::from_f64(val).unwrap();
+        // The shortest decimal that reads back as val.
+        let bd: BigDecimal = format!("{:?}", val).parse().unwrap();
         Expression::from(bd)
     }
 }
 
 impl From<f32> for Expression {
     fn from(val: f32) -> Self {
-        let bd = BigDecimal::from_f32(val).unwrap();
+        // The shortest decimal that reads back as val.
+        let bd: BigDecimal = format!("{:?}", val).parse().unwrap();
         Expression::from(bd)
     }
 }
-- 
2.43.0


From ff1529bb096f527f5be68f49d409b0abe492b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 08/56] fix: use_number_type rounds literals correctly to f32
 and f64

---
 .../src/transformation/use_number_type.rs     | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index 31ea71f..97194a6 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -1,6 +1,5 @@
 use crate::error::Result;
 use crate::visitor::Visitor;
-use bigdecimal::*;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
 #[derive(Debug)]
@@ -14,11 +13,10 @@ impl<'a> Visitor for UseNumberType<'a> {
     fn visit_lit(&self, expr: &ExprLit) -> Result<Expr> {
         match &expr.lit {
             Lit::Float(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                let float32: f32 = lit.base10_digits().parse().unwrap();
+                let float64: f64 = lit.base10_digits().parse().unwrap();
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
@@ -29,11 +27,10 @@ impl<'a> Visitor for UseNumberType<'a> {
                 Ok(e)
             }
             Lit::Int(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                let float32: f32 = lit.base10_digits().parse().unwrap();
+                let float64: f64 = lit.base10_digits().parse().unwrap();
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
-- 
2.43.0


From 831eae851fcff9dd9ff21391aa345452c22a1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 09/56] fix: subst parenthesises a compound or negative value
 where it replaces a name

---
 doctor-syn/src/transformation/subst.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/transformation/subst.rs b/doctor-syn/src/transformation/subst.rs
index 65178e9..f8c6290 100644
--- a/doctor-syn/src/transformation/subst.rs
+++ b/doctor-syn/src/transformation/subst.rs
@@ -1,7 +1,25 @@
+use super::paren::parenthesise_op;
+use super::tools::make_paren;
 use crate::error::Result;
 use crate::visitor::Visitor;
 use crate::{Name, VariableList};
-use syn::{Expr, ExprPath};
+use syn::{Expr, ExprLit, ExprPath, Lit};
+
+// The value takes the place of a name, so an operator needs parentheses.
+// Expression::from(BigDecimal) makes literals with a minus sign.
+fn parenthesise_value(expr: Expr) -> Expr {
+    let is_negative = match &expr {
+        Expr::Lit(ExprLit {
+            lit: Lit::Float(f), ..
+        }) => f.base10_digits().starts_with('-'),
+        _ => false,
+    };
+    match expr {
+        Expr::Cast(_) => make_paren(expr),
+        _ if is_negative => make_paren(expr),
+        _ => parenthesise_op(expr),
+    }
+}
 
 #[derive(Debug)]
 pub struct Subst {
@@ -14,8 +32,8 @@ impl Visitor for Subst {
         //println!("visit_path {:?}", self);
         let name: Name = exprpath.path.clone().into();
         if let Some(res) = self.variables.find(&name) {
-            // Substitute.
-            Ok(res.into())
+            // Substitute, keeping the value a single operand.
+            Ok(parenthesise_value(res.into()))
         } else {
             // Clone.
             Ok(exprpath.clone().into())
-- 
2.43.0


From da3a5f9e4c58fbe844481e18d24200e2bef85e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 10/56] fix: expand keeps the parentheses of operators it does
 not expand

---
 doctor-syn/src/transformation/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index ca441e5..cc42b8a 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -9,6 +9,7 @@ pub struct Expand {}
 
 // Get a series of additions/subtractions.
 fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
+    let original = expr;
     let expr = deparen(expr);
     match expr {
         Expr::Binary(ExprBinary {
@@ -40,6 +41,12 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
         },
         _ => {}
     }
+    // Operators that are not part of the sum keep their parentheses.
+    let expr = match expr {
+        Expr::Binary(ExprBinary { op, .. }) if !matches!(op, BinOp::Div(_)) => original,
+        Expr::Cast(_) => original,
+        _ => expr,
+    };
     if is_negated {
         sum.push(negate(&expr));
     } else {
-- 
2.43.0


From 5f42a25a03fdaf85c0d50a10642acf4fad06ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 11/56] fix: format_token_stream keeps tokens apart and indents
 to any depth

---
 doctor-syn/src/codegen/rust.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 261d6e6..209f801 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,8 +1,7 @@
-use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
 
-fn indent(depth: usize) -> &'static str {
-    let i = "                                                            ";
-    &i[0..depth * 2]
+fn indent(depth: usize) -> String {
+    "  ".repeat(depth)
 }
 
 fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
@@ -56,7 +55,11 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             // }
             _ => {
                 text.extend(tok.chars());
-                // text.extend(" ".chars());
+                // Do not join a literal or a lone operator to the next token.
+                match tt {
+                    TokenTree::Punct(p) if p.spacing() == Spacing::Joint => (),
+                    _ => text.extend(" ".chars()),
+                }
             }
         }
     }
-- 
2.43.0


From 4b562664b2e0cf858e80df31ca8f78a1ed92c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 12/56] fix: ONE_BITS and ONE_MASK are of the unsigned integer
 type

---
 libmgen/src/auxfuncs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
-- 
2.43.0


From 46ee5fad5bf1263e6c9a875b8423e0d3e8c21087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 13/56] fix: libmgen reports excluded functions on stderr, not
 in the generated code

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..7d8bb48 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
-- 
2.43.0


From 3e267d98f084f3ea626876320682a17b33f560f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:31 +0000
Subject: [PATCH 14/56] fix: function dependencies list everything that the
 generated code names

---
 libmgen/src/functions.rs | 80 ++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 7d8bb48..a01cf5d 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -94,189 +94,189 @@ pub static FUNCTIONS: &[Function] = &[
     // },
     Function {
         name: "LOG2_SHIFT",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_SHIFT),
         test_specs: &[],
     },
     Function {
         name: "LOG2_OFFSET",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_OFFSET),
         test_specs: &[],
     },
     Function {
         name: "NAN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_NAN),
         test_specs: &[],
     },
     Function {
         name: "INFINITY",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_INF),
         test_specs: &[],
     },
     Function {
         name: "MIN_POSITIVE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_MIN_POSITIVE),
         test_specs: &[],
     },
     Function {
         name: "ONE_MASK",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_MASK),
         test_specs: &[],
     },
     Function {
         name: "ONE_BITS",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_BITS),
         test_specs: &[],
     },
     Function {
         name: "EXP2_ONE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_ONE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_SCALE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_SCALE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MIN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MIN),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MAX",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MAX),
         test_specs: &[],
     },
     Function {
         name: "ONE_THIRD",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_THIRD),
         test_specs: &[],
     },
     Function {
         name: "TWO_THIRDS",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TWO_THIRDS),
         test_specs: &[],
     },
     Function {
         name: "PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_2",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_2),
         test_specs: &[],
     },
     Function {
         name: "TAN_PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TAN_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_10",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_10),
         test_specs: &[],
     },
     Function {
         name: "RECIP_PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_PI),
         test_specs: &[],
     },
     Function {
         name: "RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "SQRT_RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_SQRT_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "negate_on_odd",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_negate_on_odd),
         test_specs: &[],
     },
     Function {
         name: "recip_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_recip_approx),
         test_specs: &[],
     },
     Function {
         name: "sqrt_approx",
-        deps: &["fty", "uty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_sqrt_approx),
         test_specs: &[],
     },
     Function {
         name: "cbrt_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_cbrt_approx),
         test_specs: &[],
@@ -295,21 +295,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sinh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_sinh),
         test_specs: &[],
     },
     Function {
         name: "cosh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_cosh),
         test_specs: &[],
     },
     Function {
         name: "tanh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_tanh),
         test_specs: &[],
@@ -377,21 +377,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan",
-        deps: &["fty"],
+        deps: &["fty", "PI_BY_2"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan),
         test_specs: &[],
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
+        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8", "PI"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
     },
     Function {
         name: "exp2",
-        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
+        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "round", "INFINITY"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp2),
         test_specs: &[
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "exp2"],
+        deps: &["fty", "exp2", "uty", "round", "LOG2_E", "EXP2_SCALE", "EXP2_ONE"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
@@ -457,7 +457,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log2",
-        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
+        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY", "uty", "ity"],
         num_terms: [10, 20],
         gen: Some(crate::log_exp::gen_log2),
         test_specs: &[
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2"],
+        deps: &["fty", "log2", "exp2", "ity", "powf"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
@@ -572,7 +572,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "ONE_THIRD", "TWO_THIRDS", "uty", "EXP2_ONE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
@@ -586,14 +586,14 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "hypot",
-        deps: &["fty"],
+        deps: &["fty", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_hypot),
         test_specs: &[],
     },
     Function {
         name: "runif",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ONE_BITS"],
         num_terms: [0, 0],
         gen: Some(crate::stats_random::gen_runif),
         test_specs: &[
@@ -726,7 +726,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "tan",
-        deps: &["fty", "RECIP_PI"],
+        deps: &["fty", "RECIP_PI", "round"],
         num_terms: [12, 24],
         gen: Some(crate::trig::gen_tan),
         test_specs: &[
-- 
2.43.0


From e9c1ea4fdb721234ad13eef0c07661c95a1deb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:31 +0000
Subject: [PATCH 15/56] fix: runif hashes in 64 bits, so that it compiles for
 f32

---
 libmgen/src/stats_random.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..9b271aa 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,10 +7,10 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
-- 
2.43.0


From aa8892e51bfbe3f768dd22508b8d762890e7ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:06 +0000
Subject: [PATCH 16/56] fix: the generated rnorm test compiles for f32 and when
 rnorm is requested alone

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/test.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index a01cf5d..8f08dac 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -654,7 +654,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "rnorm",
-        deps: &["fty", "runif", "qnorm"],
+        deps: &["fty", "runif", "qnorm", "dnorm"],
         num_terms: [16, 24],
         gen: Some(crate::stats_norm::gen_rnorm),
         test_specs: &[
diff --git a/libmgen/src/test.rs b/libmgen/src/test.rs
index b02762c..45f711b 100644
--- a/libmgen/src/test.rs
+++ b/libmgen/src/test.rs
@@ -118,7 +118,7 @@ fn gen_histogram(
             let dx = (#tmax - #tmin) as f64 / (#nbuckets) as f64;
             let mut max_err : f64 = 0.0;
             for i in 0..#nbuckets {
-                let x = ((i as f64 + 0.5) / #nbuckets as f64) * (#tmax - #tmin) + #tmin;
+                let x = (((i as f64 + 0.5) / #nbuckets as f64) * (#tmax - #tmin) + #tmin) as fty;
                 let pdf_est = h[i] as f64 / ((#niter) as f64 * dx);
                 let pdf_ref = (#refexpr) as f64;
                 println!("{} {} {}", x, pdf_est, pdf_ref);
-- 
2.43.0


From 6054396f6325ae519cbcc7e459837f7bc2d160a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:24 +0000
Subject: [PATCH 17/56] fix: to_c keeps the grouping of nested operators

---
 doctor-syn/src/codegen/c.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index b36b0e7..75561cb 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -39,6 +39,16 @@ impl CVisitor {
         self.stack.pop().unwrap()
     }
 
+    // C does not give operators the precedence that Rust does, and -(-x) is not --x.
+    fn operand(&mut self, expr: &Expr) -> String {
+        self.visit_expr(expr);
+        let text = self.tos();
+        match expr {
+            Expr::Binary(_) | Expr::Unary(_) | Expr::If(_) => format!("({})", text),
+            _ => text,
+        }
+    }
+
     fn push<S: Into<String>>(&mut self, s: S) {
         self.stack.push(s.into());
         // eprintln!("  push {:?}", self.stack);
@@ -321,12 +331,10 @@ impl<'ast> Visit<'ast> for CVisitor {
         // for it in &node.attrs {
         //     self.visit_attribute(it);
         // }
-        self.visit_expr(&*node.left);
-        let lhs = self.tos();
+        let lhs = self.operand(&*node.left);
         self.visit_bin_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.right);
-        let rhs = self.tos();
+        let rhs = self.operand(&*node.right);
         ret!(self, "{} {} {}", lhs, op, rhs);
     }
 
@@ -582,8 +590,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_expr_unary");
         self.visit_un_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
+        let expr = self.operand(&*node.expr);
         ret!(self, "{}{}", op, expr);
     }
 
-- 
2.43.0


From 66cc0ff61817880fa1b588d654b45900d6b895e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:27 +0000
Subject: [PATCH 18/56] fix: to_c writes a float literal without a decimal
 point as a float

---
 doctor-syn/src/codegen/c.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 75561cb..d73df71 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -943,8 +943,12 @@ impl<'ast> Visit<'ast> for CVisitor {
     fn visit_lit_float(&mut self, node: &'ast LitFloat) {
         self.log("visit_lit_float");
         let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
+        let digits = node.base10_digits();
+        if digits.contains(|c| matches!(c, '.' | 'e' | 'E')) {
+            ret!(self, "{}", digits)
+        } else {
+            // 1f32 is not an integer.
+            ret!(self, "{}.0", digits)
         }
     }
 
-- 
2.43.0


From 0239646f64fd12b78852caafa9f8e4368f15d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:29 +0000
Subject: [PATCH 19/56] fix: to_c translates the float methods and constants
 that C names differently

---
 doctor-syn/src/codegen/c.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index d73df71..23effd3 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -507,6 +507,10 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.push(match ident.as_str() {
             "round" => format!("{}{}({})", ident, self.options.float_suffix, args.join(", ")),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
+            "abs" => format!("fabs({})", args.join(", ")),
+            "ln" => format!("log({})", args.join(", ")),
+            "recip" => format!("(1.0 / ({}))", args[0]),
+            "to_bits" => format!("({{ union {{ fty f; uty u; }} u; u.f = ({}); u.u; }})", args[0]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
     }
@@ -786,7 +790,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_expr(&*node.expr);
         let expr = self.tos();
         // tokens_helper(v, &node.semi_token.spans);
-        ret!(self, "const {} {} = {};", ty, ident, expr);
+        if ident == expr {
+            // NAN and INFINITY are macros in math.h.
+            ret!(self, "")
+        } else {
+            ret!(self, "const {} {} = {};", ty, ident, expr);
+        }
     }
 
     fn visit_item_enum(&mut self, node: &'ast ItemEnum) {
@@ -1148,7 +1157,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_path");
         use quote::ToTokens;
         let path = node.to_token_stream().to_string().replace(" :: ", "_");
-        self.push(path);
+        self.push(match path.as_str() {
+            "f32_NAN" | "f64_NAN" => "NAN".to_string(),
+            "f32_INFINITY" | "f64_INFINITY" => "INFINITY".to_string(),
+            "f32_MIN_POSITIVE" => "__FLT_MIN__".to_string(),
+            "f64_MIN_POSITIVE" => "__DBL_MIN__".to_string(),
+            _ => path,
+        });
     }
 
     fn visit_path_arguments(&mut self, node: &'ast PathArguments) {
-- 
2.43.0


From 84932f3109e8e9dbe84f4e960e37d9b17e72804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 20/56] fix: generated code declares every local's type and
 shadows none, as C needs

---
 libmgen/src/auxfuncs.rs   |  2 +-
 libmgen/src/inv_trig.rs   | 10 +++++-----
 libmgen/src/log_exp.rs    |  2 +-
 libmgen/src/recip_sqrt.rs | 10 +++++-----
 libmgen/src/stats_norm.rs |  2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 640d3a6..7b40b2d 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -323,7 +323,7 @@ pub fn _gen_negate_on_odd_test(_config: &Config) -> TokenStream {
 pub fn gen_round(_terms: usize, config: &Config) -> TokenStream {
     quote!(
         fn round(x: fty) -> fty {
-            let half = (0.5) as fty;
+            let half : fty = (0.5) as fty;
             (x + half.copysign(x)) as ity as fty
         }
     )
diff --git a/libmgen/src/inv_trig.rs b/libmgen/src/inv_trig.rs
index 1ec8397..2c582aa 100644
--- a/libmgen/src/inv_trig.rs
+++ b/libmgen/src/inv_trig.rs
@@ -36,12 +36,12 @@ pub fn gen_atan2(num_terms: usize, config: &Config) -> TokenStream {
         //
         pub fn atan2(y: fty, x: fty) -> fty {
             // Both positive (q1)
-            let x1 = x.abs();
-            let y1 = y.abs();
+            let x1 : fty = x.abs();
+            let y1 : fty = y.abs();
 
             // x > y by swapping.
-            let x2 = if x1 > y1 { x1 } else { y1 };
-            let y2 = if x1 > y1 { y1 } else { x1 };
+            let x2 : fty = if x1 > y1 { x1 } else { y1 };
+            let y2 : fty = if x1 > y1 { y1 } else { x1 };
 
             // rotate by PI/8 to get -pi/8 <= atan(z) <= pi/8 (0.3741967)
             // Note sin(pi/8)/cos(pi/8) = tan(pi/8)
@@ -49,7 +49,7 @@ pub fn gen_atan2(num_terms: usize, config: &Config) -> TokenStream {
             let y3 : fty = (-TAN_PI_BY_8) * x2 + y2;
 
             // 0 <= z <= 1
-            let z = y3 / x3;
+            let z : fty = y3 / x3;
 
             // Approximate atan(y/x)
             let a : fty = #approx + PI_BY_8;
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 4476b5a..cf8f2c3 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -29,7 +29,7 @@ pub fn gen_exp2(num_terms: usize, config: &Config) -> TokenStream {
             let mul: fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty);
             let x: fty = arg - r;
             let y: fty = #approx * mul;
-            let y1 = if arg > EXP2_MAX { INFINITY } else { y };
+            let y1 : fty = if arg > EXP2_MAX { INFINITY } else { y };
             if r < EXP2_MIN { 0.0 } else { y1 }
         }
     )
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index bc91859..39ddeab 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -45,11 +45,11 @@ pub fn gen_cbrt(_num_terms: usize, _config: &Config) -> TokenStream {
             );
 
             // Newton-Raphson step.
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            r.copysign(x)
+            let r1: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
+            let r2: fty = r1 + (x.abs() - r1 * r1 * r1) / (3.0 * r1 * r1);
+            let r3: fty = r2 + (x.abs() - r2 * r2 * r2) / (3.0 * r2 * r2);
+            let r4: fty = r3 + (x.abs() - r3 * r3 * r3) / (3.0 * r3 * r3);
+            r4.copysign(x)
         }
     )
 }
diff --git a/libmgen/src/stats_norm.rs b/libmgen/src/stats_norm.rs
index 3b5e85a..afe535b 100644
--- a/libmgen/src/stats_norm.rs
+++ b/libmgen/src/stats_norm.rs
@@ -59,7 +59,7 @@ pub fn gen_qnorm(num_terms: usize, config: &Config) -> TokenStream {
         pub fn qnorm(arg: fty, mean: fty, sigma: fty) -> fty {
             // Range reduction
             let scaled : fty = arg - 0.5;
-            let x = scaled;
+            let x : fty = scaled;
 
             // Pole elimination
             let recip : fty = sigma / (x * x - 0.5 * 0.5);
-- 
2.43.0


From 589c0d804233eb3b7198ef6e2d315be92c8587aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:40 +0000
Subject: [PATCH 21/56] fix: to_c declares functions ahead of their use

---
 doctor-syn/src/codegen/c.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 23effd3..a0d8052 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -662,7 +662,19 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         let mut items = Vec::new();
         items.push("#include <math.h>".to_string());
+        let mut declared = false;
         for it in &node.items {
+            if matches!(it, Item::Fn(_)) && !declared {
+                // C needs a declaration where a function is used before its definition.
+                for it in &node.items {
+                    if let Item::Fn(f) = it {
+                        self.visit_signature(&f.sig);
+                        let sig = self.tos();
+                        items.push(format!("{};", sig));
+                    }
+                }
+                declared = true;
+            }
             self.visit_item(it);
             items.push(self.tos());
         }
-- 
2.43.0


From 4980c0feae4717ee085554381f46def2b30399cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:42 +0000
Subject: [PATCH 22/56] fix: log2 of NaN is NaN and of infinity is infinity

---
 libmgen/src/log_exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index cf8f2c3..11cf9e1 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -141,7 +141,11 @@ pub fn gen_log2(num_terms: usize, config: &Config) -> TokenStream {
             if arg < 0.0 {
                 -NAN
             } else {
-                if arg < MIN_POSITIVE { -INFINITY } else { y + (exponent as fty) }
+                if arg < MIN_POSITIVE {
+                    -INFINITY
+                } else {
+                    if arg < INFINITY { y + (exponent as fty) } else { arg }
+                }
             }
         }
     )
-- 
2.43.0


From c728cb536519eb43d22ad7e03900f729b778dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:07 +0000
Subject: [PATCH 23/56] fix: tanh of large, asinh of negative and powi of
 negative arguments

---
 libmgen/src/functions.rs  | 2 +-
 libmgen/src/hyperbolic.rs | 4 ++--
 libmgen/src/log_exp.rs    | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 8f08dac..c6d98b4 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2", "ity", "powf"],
+        deps: &["fty", "log2", "exp2", "ity", "powf", "negate_on_odd"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index 498f0f1..3b281f2 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -29,7 +29,7 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn tanh(x: fty) -> fty {
             let exp2x: fty = exp2(x * (LOG2_E * 2.0));
-            (exp2x - 1.0) / (exp2x + 1.0)
+            1.0 - 2.0 / (exp2x + 1.0)
         }
     )
 }
@@ -38,7 +38,7 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_asinh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn asinh(x: fty) -> fty {
-            ln(x + (x * x + 1.0).sqrt())
+            ln(x.abs() + (x * x + 1.0).sqrt()).copysign(x)
         }
     )
 }
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 11cf9e1..1abedd9 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -203,7 +203,8 @@ pub fn gen_powi(_num_terms: usize, _config: &Config) -> TokenStream {
 
             // // negative powers are reciprocals.
             // if y < 0 { b4.recip() } else { b4 }
-            powf(x, y as fty)
+            let p: fty = powf(x.abs(), y as fty);
+            if x < 0.0 { negate_on_odd(y as fty, p) } else { p }
         }
     )
 }
-- 
2.43.0


From 9a3a59590aafe6ec2389a3cfada054e34d219d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:04 +0000
Subject: [PATCH 24/56] fix: portable-simd output calls every function as a
 method and types integer literals; both backends accept hex coefficients

---
 doctor-syn/src/codegen/c.rs             |  2 +-
 doctor-syn/src/codegen/portable_simd.rs | 11 ++++++++---
 libmgen/src/auxfuncs.rs                 |  2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index a0d8052..cd4144e 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -376,7 +376,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         let args = args.join(", ");
 
         self.push(match expr.as_str() {
-            "fty_from_bits" => {
+            "fty_from_bits" | "f32_from_bits" | "f64_from_bits" => {
                 format!("({{ union {{ fty f; uty u; }} u; u.u = ({}); u.f; }})", args)
             }
             _ => {
diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 402534b..0ecf76d 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -184,13 +184,18 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
 fn convert_call(call: &syn::ExprCall) -> Expr {
     let mut args = call.args.iter();
     let arg0 = args.next().unwrap();
-    match call.func.to_token_stream().to_string().as_str() {
-        "sin" | "cos" | "tan" | "exp2" | "powf" | "log2" | "ln" => {
+    match &*call.func {
+        // Every function of the file becomes a method.
+        Expr::Path(path) if path.path.get_ident().is_some() => {
             let func = &*call.func;
             let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();
             parse_quote! { (#arg0).#func(#rest) }
         }
 
+        Expr::Path(path) if matches!(path.to_token_stream().to_string().as_str(), "f32 :: from_bits" | "f64 :: from_bits") => {
+            parse_quote! { Self::from_bits(#arg0) }
+        }
+
         _ => call.clone().into()
     }
 }
@@ -214,7 +219,7 @@ fn convert_lit_int(f: &syn::LitInt) -> Expr {
         "u32" | "u64" => {
             parse_quote! { Self::UintType::splat(#f) }
         }
-        "i32" | "i64" => {
+        "i32" | "i64" | "" => {
             parse_quote! { Self::IntType::splat(#f) }
         }
         "f32" | "f64" | _ => {
diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 7b40b2d..8532fc2 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -290,7 +290,7 @@ pub fn gen_uty(_terms: usize, config: &Config) -> TokenStream {
 }
 
 pub fn gen_negate_on_odd(_terms: usize, config: &Config) -> TokenStream {
-    let shift = (config.num_bits() - 1) as i32;
+    let shift = proc_macro2::Literal::usize_unsuffixed(config.num_bits() - 1);
 
     quote!(
         // If x is odd, negate y.
-- 
2.43.0


From dd605571621b439e83358ab72cf124acc5c45f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:04 +0000
Subject: [PATCH 25/56] fix: hypot of tiny negative numbers is not negative

---
 libmgen/src/recip_sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 39ddeab..d31e354 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -83,7 +83,7 @@ pub fn gen_hypot(_num_terms: usize, _config: &Config) -> TokenStream {
             let xgty: bool = x.abs() > y.abs();
             let x2: fty = if xgty { x } else { y };
             let y2: fty = if xgty { y } else { x };
-            if x2.abs() <= MIN_POSITIVE { x2 } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
+            if x2.abs() <= MIN_POSITIVE { x2.abs() } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
         }
     )
 }
-- 
2.43.0


From 3ddf516c6b1f1b5e5ac0af556090da2bbe1c79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:04 +0000
Subject: [PATCH 26/56] fix: --function-prefix sets the prefix of C functions

---
 libmgen/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/config.rs b/libmgen/src/config.rs
index b53b6ba..5d1e482 100644
--- a/libmgen/src/config.rs
+++ b/libmgen/src/config.rs
@@ -46,7 +46,9 @@ impl Config {
 
     pub fn prefix(&self) -> &str {
         if self.language() == "c" {
-            if self.num_bits() == 32 {
+            if !self.options.function_prefix.is_empty() {
+                self.options.function_prefix.as_str()
+            } else if self.num_bits() == 32 {
                 "ds32_"
             } else {
                 "ds64_"
-- 
2.43.0


From 4ad524343bafd51d08fd43d851f6414308111891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:35 +0000
Subject: [PATCH 27/56] fix: expand negates other operators and casts as a
 whole

---
 doctor-syn/src/transformation/expand.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index cc42b8a..ee4eb37 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -42,12 +42,15 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
         _ => {}
     }
     // Operators that are not part of the sum keep their parentheses.
-    let expr = match expr {
-        Expr::Binary(ExprBinary { op, .. }) if !matches!(op, BinOp::Div(_)) => original,
-        Expr::Cast(_) => original,
-        _ => expr,
+    let is_operator = match expr {
+        Expr::Binary(ExprBinary { op, .. }) => !matches!(op, BinOp::Div(_)),
+        Expr::Cast(_) => true,
+        _ => false,
     };
-    if is_negated {
+    let expr = if is_operator { original } else { expr };
+    if is_negated && is_operator {
+        sum.push(negate(&make_paren(deparen(expr).clone())));
+    } else if is_negated {
         sum.push(negate(&expr));
     } else {
         sum.push(expr.clone());
-- 
2.43.0


From 7bc4367da7b0eb86dbe2b00756934d967f32e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:38 +0000
Subject: [PATCH 28/56] fix: recip, sqrt and their estimates are accurate at
 every magnitude

---
 libmgen/src/auxfuncs.rs   | 6 +++---
 libmgen/src/recip_sqrt.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 8532fc2..8733781 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -365,21 +365,21 @@ fn gen_power_scale(
 pub fn gen_recip_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(-1.0);
     let offset = quote!(2.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.94).copysign(x));
     gen_power_scale(config, quote!(recip_approx), scale, offset, correction)
 }
 
 pub fn gen_sqrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(0.5);
     let offset = quote!(0.5);
-    let correction = quote!(y - 0.08);
+    let correction = quote!(y * 0.97);
     gen_power_scale(config, quote!(sqrt_approx), scale, offset, correction)
 }
 
 pub fn gen_cbrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(1.0 / 3.0);
     let offset = quote!(2.0 / 3.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.97).copysign(x));
     gen_power_scale(config, quote!(cbrt_approx), scale, offset, correction)
 }
 
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index d31e354..5d5a1fd 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -20,7 +20,10 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn sqrt(x: fty) -> fty {
             let r: fty = sqrt_approx(x);
-            let y: fty = r + (x - r * r) / (2.0 * r);
+            let r1: fty = r + (x - r * r) / (2.0 * r);
+            let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
+            let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
+            let y: fty = r3 + (x - r3 * r3) / (2.0 * r3);
             y
         }
     )
@@ -70,7 +73,8 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r1: fty = r * (2.0 - x * r);
             let r2: fty = r1 * (2.0 - x * r1);
             let r3: fty = r2 * (2.0 - x * r2);
-            r3
+            let r4: fty = r3 * (2.0 - x * r3);
+            r4
         }
     )
 }
-- 
2.43.0


From 1da1cd2b6a95d1252a598e2ebbc7791f5f65fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:31 +0000
Subject: [PATCH 29/56] fix: to_c spells out the type of hex literals, which
 need not be defined otherwise

---
 doctor-syn/src/codegen/c.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index cd4144e..4d5b7aa 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -376,9 +376,16 @@ impl<'ast> Visit<'ast> for CVisitor {
         let args = args.join(", ");
 
         self.push(match expr.as_str() {
-            "fty_from_bits" | "f32_from_bits" | "f64_from_bits" => {
+            "fty_from_bits" => {
                 format!("({{ union {{ fty f; uty u; }} u; u.u = ({}); u.f; }})", args)
             }
+            // Hex literals: their file need not define uty.
+            "f32_from_bits" => {
+                format!("({{ union {{ float f; unsigned int u; }} u; u.u = ({}); u.f; }})", args)
+            }
+            "f64_from_bits" => {
+                format!("({{ union {{ double f; unsigned long long u; }} u; u.u = ({}); u.f; }})", args)
+            }
             _ => {
                 format!("{}{}({})", self.options.prefix, expr, args)
             }
-- 
2.43.0


From cecaf833c921b6819c3e23de5060fae44e0a47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:31 +0000
Subject: [PATCH 30/56] fix: nextafter lists uty and ln_1p lists ln, which C
 and portable-simd output name

---
 libmgen/src/functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index c6d98b4..4c18290 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -283,7 +283,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "nextafter",
-        deps: &["fty"],
+        deps: &["fty", "uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_nextafter),
         test_specs: &[TestSpec {
@@ -477,7 +477,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "ln_1p",
-        deps: &["fty", "RECIP_LOG2_E"],
+        deps: &["fty", "RECIP_LOG2_E", "ln"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_ln_1p),
         test_specs: &[
-- 
2.43.0


From 553ee3d5fd3c0762b5a0a15cbe896dd0656ec0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 31/56] fix: generated tests fail where the function is NaN

---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 8733781..6eed136 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -450,7 +450,7 @@ pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
             for &(x , yref, yerr) in accurate_values {
                 let ycalc = f(x);
                 let eref = (ycalc - yref - yerr). abs ();
-                if eref > max_ref_error {
+                if eref > max_ref_error || eref.is_nan() {
                     max_ref_error = eref;
                     bad_ycalc = ycalc;
                     bad_yref = yref;
-- 
2.43.0


From cce4d769c638ac0ff83de140ce995bf5b0c7447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:49 +0000
Subject: [PATCH 32/56] fix: to_c keeps the type of a suffixed integer literal

---
 doctor-syn/src/codegen/c.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 4d5b7aa..b30c95b 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -984,10 +984,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_lit_int");
         // self.push("<<lit_int>>".to_string());
         // visit_lit_int(self, node);
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
-        }
+        let suffix = match node.suffix() {
+            "u32" => "U",
+            "u64" => "ULL",
+            "i64" => "LL",
+            _ => "",
+        };
+        ret!(self, "{}{}", node.base10_digits(), suffix)
     }
     fn visit_lit_str(&mut self, node: &'ast LitStr) {
         self.log("visit_lit_str");
-- 
2.43.0


From d6f6fca2d7caf228ce657359bb0a0c8657e46965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:23 +0000
Subject: [PATCH 33/56] fix: to_c writes assignments

---
 doctor-syn/src/codegen/c.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index b30c95b..1fb2fb4 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1304,6 +1304,8 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(e);
             let expr = self.tos();
             ret!(self, "{};", expr);
+        } else if let Stmt::Semi(e, _) = node {
+            self.visit_expr(e);
         } else {
             visit_stmt(self, node);
         }
-- 
2.43.0


From cccbf2f3a5ac7404fea356ec0083d0ea41c9291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 34/56] fix: portable-simd converts casts to a named lane type
 and of a negated value

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 0ecf76d..76da535 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -154,9 +154,9 @@ fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
         (quote!(u64), quote!(i64), quote!(f64))
     };
     match ty.to_token_stream().to_string().as_str() {
-        "uty" | "Self :: UintType" => parse_quote!{ #expr.cast::<#uty>() },
-        "ity" | "Self :: IntType" => parse_quote!{ #expr.cast::<#ity>() },
-        "fty" | "Self" => parse_quote!{ #expr.cast::<#fty>() },
+        t if t == "uty" || t == "Self :: UintType" || t == uty.to_string() => parse_quote!{ (#expr).cast::<#uty>() },
+        t if t == "ity" || t == "Self :: IntType" || t == ity.to_string() => parse_quote!{ (#expr).cast::<#ity>() },
+        t if t == "fty" || t == "Self" || t == fty.to_string() => parse_quote!{ (#expr).cast::<#fty>() },
         _ => cast.clone().into()
     }
 }
-- 
2.43.0


From 53cbe200766d832eb818b94f24b14726d93aa289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 35/56] fix: to_c keeps constants to their file, so that two
 libraries link together

---
 doctor-syn/src/codegen/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 1fb2fb4..aad1c44 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -813,7 +813,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             // NAN and INFINITY are macros in math.h.
             ret!(self, "")
         } else {
-            ret!(self, "const {} {} = {};", ty, ident, expr);
+            ret!(self, "static const {} {} = {};", ty, ident, expr);
         }
     }
 
-- 
2.43.0


From b206b24f38a469c66de6d197d66026353c530b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 36/56] fix: to_c writes an integer literal with a float suffix
 as a float

---
 doctor-syn/src/codegen/c.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index aad1c44..2713214 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -988,6 +988,8 @@ impl<'ast> Visit<'ast> for CVisitor {
             "u32" => "U",
             "u64" => "ULL",
             "i64" => "LL",
+            // 1f32 is not an integer.
+            "f32" | "f64" => ".0",
             _ => "",
         };
         ret!(self, "{}{}", node.base10_digits(), suffix)
-- 
2.43.0


From ca6caa8a8da262633efa22b1bf4488958a9647b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:16 +0000
Subject: [PATCH 37/56] fix: expand keeps the grouping of other operators in
 products and of casts in negated quotients

---
 doctor-syn/src/transformation/expand.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index ee4eb37..e16f84b 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -7,6 +7,18 @@ use syn::{BinOp, Expr, ExprBinary, ExprUnary, UnOp};
 #[derive(Debug)]
 pub struct Expand {}
 
+// The operator or cast that would take a prefix instead of the whole product or quotient.
+fn leading_operator(expr: &Expr) -> Option<&Expr> {
+    match expr {
+        Expr::Binary(ExprBinary { left, op, .. }) => match op {
+            BinOp::Mul(_) | BinOp::Div(_) => leading_operator(left),
+            _ => Some(expr),
+        },
+        Expr::Cast(_) => Some(expr),
+        _ => None,
+    }
+}
+
 // Get a series of additions/subtractions.
 fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
     let original = expr;
@@ -32,7 +44,11 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
                 match_sum(right, &mut right_sum, false)?;
                 for lhs in left_sum.iter() {
                     for rhs in right_sum.iter() {
-                        sum.push(make_binary(lhs.clone(), op.clone(), rhs.clone()));
+                        let rhs = match leading_operator(rhs) {
+                            Some(Expr::Binary(_)) => make_paren(rhs.clone()),
+                            _ => rhs.clone(),
+                        };
+                        sum.push(make_binary(lhs.clone(), op.clone(), rhs));
                     }
                 }
                 return Ok(());
@@ -48,7 +64,7 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
         _ => false,
     };
     let expr = if is_operator { original } else { expr };
-    if is_negated && is_operator {
+    if is_negated && leading_operator(deparen(expr)).is_some() {
         sum.push(negate(&make_paren(deparen(expr).clone())));
     } else if is_negated {
         sum.push(negate(&expr));
-- 
2.43.0


From 9f0433016e6d211877bf0712f8a43b4a7e8305e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 38/56] fix: to_c declares locals without a type and evaluates
 ignored values

---
 doctor-syn/src/codegen/c.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 2713214..59e0205 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1013,7 +1013,13 @@ impl<'ast> Visit<'ast> for CVisitor {
         if let Some(it) = &node.init {
             self.visit_expr(&*(it).1);
             let expr = self.tos();
-            ret!(self, "{} = {}", pat, expr);
+            match &node.pat {
+                Pat::Wild(_) => ret!(self, "(void)({})", expr),
+                Pat::Type(p) if matches!(&*p.pat, Pat::Wild(_)) => ret!(self, "(void)({})", expr),
+                // C has no inferred types but for this extension.
+                Pat::Ident(_) => ret!(self, "__auto_type {} = {}", pat, expr),
+                _ => ret!(self, "{} = {}", pat, expr),
+            }
         } else {
             ret!(self, "{}", pat);
         }
-- 
2.43.0


From f260e2dfb8caa4083cd93474384a49d602def2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 39/56] fix: C output of runif and rnorm compiles

---
 doctor-syn/src/codegen/c.rs | 2 ++
 libmgen/src/stats_norm.rs   | 4 ++--
 libmgen/src/stats_random.rs | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 59e0205..4807e0f 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -517,6 +517,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             "abs" => format!("fabs({})", args.join(", ")),
             "ln" => format!("log({})", args.join(", ")),
             "recip" => format!("(1.0 / ({}))", args[0]),
+            "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
             "to_bits" => format!("({{ union {{ fty f; uty u; }} u; u.f = ({}); u.u; }})", args[0]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
@@ -1574,6 +1575,7 @@ fn translate_basic_types(name: String) -> String {
         "i64" => "long long".to_string(),
         "u32" => "unsigned int".to_string(),
         "u64" => "unsigned long long".to_string(),
+        "usize" => "__SIZE_TYPE__".to_string(),
         "f32" => "float".to_string(),
         "f64" => "double".to_string(),
         _ => name,
diff --git a/libmgen/src/stats_norm.rs b/libmgen/src/stats_norm.rs
index afe535b..3d20b84 100644
--- a/libmgen/src/stats_norm.rs
+++ b/libmgen/src/stats_norm.rs
@@ -28,8 +28,8 @@ pub fn gen_pnorm(num_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_rnorm(num_terms: usize, config: &Config) -> TokenStream {
     quote!(
         pub fn rnorm(index: usize, mean: fty, sigma: fty) -> fty {
-            const MIN: fty = 0.000001;
-            const MAX: fty = 1.0 - MIN;
+            let MIN : fty = 0.000001;
+            let MAX : fty = 1.0 - MIN;
             let x: fty = runif(index, MIN, MAX);
             qnorm(x, mean, sigma)
         }
diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 9b271aa..1be50bc 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,9 +7,9 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15_u64);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9_u64);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb_u64);
             let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
-- 
2.43.0


From b4d8513d4bfdf56c85c7fe5b06e3ff5df871e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 40/56] fix: nextafter compiles as portable-simd

---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 6eed136..7b9579a 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -406,7 +406,7 @@ pub fn gen_iabs(_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_nextafter(_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn nextafter(arg: fty) -> fty {
-            fty::from_bits(arg.to_bits() + 1)
+            fty::from_bits(arg.to_bits() + 1 as uty)
         }
     )
 }
-- 
2.43.0


From 1ab4493b20cd0719d4e11bc96ae290a1f075cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 41/56] fix: to_simd: constants that use other constants come
 after them

---
 doctor-syn/src/codegen/portable_simd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 76da535..a16f1dc 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -275,7 +275,8 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                 let mut new_block = (*item.block).clone();
                 new_block.stmts.insert(0, parse_quote! {let #ident = self;});
                 cv.visit_block_mut(&mut new_block);
-                for c in cv.consts.clone() {
+                // Later constants first, so that those they use are known and come before them.
+                for c in cv.consts.clone().into_iter().rev() {
                     let ident = &c.ident;
                     if cv.idents_used.contains(ident) {
                         let mut expr = (&*c.expr).clone();
-- 
2.43.0


From 5f0d9008aae6415bcd01ae58d4fc9354821f81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 42/56] fix: to_simd: && and || of conditions are operators of
 masks

---
 doctor-syn/src/codegen/portable_simd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index a16f1dc..e079061 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -177,7 +177,14 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
         let rhs = binary.right.clone();
         parse_quote! { (#lhs).#id(#rhs) }
     } else {
-        binary.clone().into()
+        // Masks have no lazy operators.
+        let lhs = &binary.left;
+        let rhs = &binary.right;
+        match binary.op {
+            And(_) => parse_quote! { (#lhs) & (#rhs) },
+            Or(_) => parse_quote! { (#lhs) | (#rhs) },
+            _ => binary.clone().into(),
+        }
     }
 }
 
-- 
2.43.0


From 52b1715e3a87efda1e5ca4af933e35e56a2b4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 43/56] fix: to_c no longer writes an array as a comma
 expression

---
 doctor-syn/src/codegen/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 4807e0f..c7cc2a7 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -287,7 +287,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(it);
             elems.push(self.tos());
         }
-        ret!(self, "{}", elems.join(", "));
+        ret!(self, "{{{}}}", elems.join(", "));
     }
 
     fn visit_expr_assign(&mut self, node: &'ast ExprAssign) {
-- 
2.43.0


From 6fe40c4130f764f054c4e607c75ee500e04c93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 44/56] fix: to_c keeps the type of f32 and usize literals and
 refuses literals of types C lacks

---
 doctor-syn/src/codegen/c.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index c7cc2a7..70c221c 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -973,11 +973,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_lit_float");
         let suffix = node.suffix();
         let digits = node.base10_digits();
+        let suffix = if suffix == "f32" { "f" } else { "" };
         if digits.contains(|c| matches!(c, '.' | 'e' | 'E')) {
-            ret!(self, "{}", digits)
+            ret!(self, "{}{}", digits, suffix)
         } else {
             // 1f32 is not an integer.
-            ret!(self, "{}.0", digits)
+            ret!(self, "{}.0{}", digits, suffix)
         }
     }
 
@@ -986,12 +987,16 @@ impl<'ast> Visit<'ast> for CVisitor {
         // self.push("<<lit_int>>".to_string());
         // visit_lit_int(self, node);
         let suffix = match node.suffix() {
+            "i32" => "",
             "u32" => "U",
             "u64" => "ULL",
             "i64" => "LL",
+            "usize" => "UL",
             // 1f32 is not an integer.
-            "f32" | "f64" => ".0",
-            _ => "",
+            "f32" => ".0f",
+            "f64" => ".0",
+            // C has no literals of the other types, and refuses them.
+            suffix => suffix,
         };
         ret!(self, "{}{}", node.base10_digits(), suffix)
     }
-- 
2.43.0


From 64b23452e18af0833cb009074a76c9888de69cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 45/56] fix: to_c initialises a local from the variable of the
 same name that it shadows

---
 doctor-syn/src/codegen/c.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 70c221c..1004638 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1019,13 +1019,23 @@ impl<'ast> Visit<'ast> for CVisitor {
         if let Some(it) = &node.init {
             self.visit_expr(&*(it).1);
             let expr = self.tos();
+            // The scope of a C variable starts ahead of its own initializer.
+            let name = pat.rsplit(' ').next().unwrap_or("").to_string();
+            let shadows = expr.split(|c: char| !c.is_alphanumeric() && c != '_').any(|word| word == name);
+            let (outer, expr) = if shadows {
+                (format!("__auto_type {}__outer = {};\n", name, expr), format!("{}__outer", name))
+            } else {
+                (String::new(), expr)
+            };
             match &node.pat {
                 Pat::Wild(_) => ret!(self, "(void)({})", expr),
                 Pat::Type(p) if matches!(&*p.pat, Pat::Wild(_)) => ret!(self, "(void)({})", expr),
                 // C has no inferred types but for this extension.
-                Pat::Ident(_) => ret!(self, "__auto_type {} = {}", pat, expr),
-                _ => ret!(self, "{} = {}", pat, expr),
+                Pat::Ident(_) => ret!(self, "{}__auto_type {} = {}", outer, pat, expr),
+                _ => ret!(self, "{}{} = {}", outer, pat, expr),
             }
+        } else if let Pat::Ident(_) = &node.pat {
+            ret!(self, "<<let requires a type or a value>>");
         } else {
             ret!(self, "{}", pat);
         }
-- 
2.43.0


From b4bd4bb4137c365aa626756efbed46ef5c58dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 46/56] fix: to_c translates abs and pow of integers without
 going through double

---
 doctor-syn/src/codegen/c.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 1004638..9e4c852 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -514,7 +514,9 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.push(match ident.as_str() {
             "round" => format!("{}{}({})", ident, self.options.float_suffix, args.join(", ")),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
-            "abs" => format!("fabs({})", args.join(", ")),
+            // Integers have methods of the same name.
+            "abs" => format!("({{ __auto_type abs_x = ({}); _Generic(abs_x, int: __builtin_abs, long long: __builtin_llabs, default: fabs)(abs_x); }})", args[0]),
+            "pow" => format!("({{ __auto_type pow_x = ({}); __auto_type pow_n = ({}); __typeof__(pow_x) pow_r = 1; for (; pow_n; pow_n >>= 1, pow_x *= pow_x) if (pow_n & 1) pow_r *= pow_x; pow_r; }})", args[0], args[1]),
             "ln" => format!("log({})", args.join(", ")),
             "recip" => format!("(1.0 / ({}))", args[0]),
             "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
-- 
2.43.0


From 6dacc957220b65847193851b31848219a690ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 47/56] fix: to_c writes powf as pow, not as the function of
 float of that name

---
 doctor-syn/src/codegen/c.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 9e4c852..06c6e45 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -517,6 +517,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             // Integers have methods of the same name.
             "abs" => format!("({{ __auto_type abs_x = ({}); _Generic(abs_x, int: __builtin_abs, long long: __builtin_llabs, default: fabs)(abs_x); }})", args[0]),
             "pow" => format!("({{ __auto_type pow_x = ({}); __auto_type pow_n = ({}); __typeof__(pow_x) pow_r = 1; for (; pow_n; pow_n >>= 1, pow_x *= pow_x) if (pow_n & 1) pow_r *= pow_x; pow_r; }})", args[0], args[1]),
+            "powf" => format!("pow({})", args.join(", ")),
             "ln" => format!("log({})", args.join(", ")),
             "recip" => format!("(1.0 / ({}))", args[0]),
             "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
-- 
2.43.0


From 58b3cce45a032410fca9e0f31d0536cba21b2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 48/56] fix: runif and rnorm do not overflow for the last index

---
 doctor-syn/src/codegen/c.rs | 1 +
 libmgen/src/stats_random.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 06c6e45..39f06b8 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -521,6 +521,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             "ln" => format!("log({})", args.join(", ")),
             "recip" => format!("(1.0 / ({}))", args[0]),
             "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
+            "wrapping_add" => format!("(({}) + ({}))", args[0], args[1]),
             "to_bits" => format!("({{ union {{ fty f; uty u; }} u; u.f = ({}); u.u; }})", args[0]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 1be50bc..964108d 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,7 +7,7 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15_u64);
+            let z : u64 = (index as u64).wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15_u64);
             let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9_u64);
             let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb_u64);
             let z3 : u64 = z2 ^ (z2 >> 31);
-- 
2.43.0


From 62abe75246b8f85aeecd11764baa5a5f5e573d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 49/56] fix: nextafter of a NaN is a NaN

---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 7b9579a..c0948d3 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -406,7 +406,7 @@ pub fn gen_iabs(_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_nextafter(_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn nextafter(arg: fty) -> fty {
-            fty::from_bits(arg.to_bits() + 1 as uty)
+            if arg == arg { fty::from_bits(arg.to_bits() + 1 as uty) } else { arg }
         }
     )
 }
-- 
2.43.0


From d9ce0c0adce913621dce6eeba107dfddc819505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:46 +0000
Subject: [PATCH 50/56] fix: approx refuses too few terms and intervals without
 two points

---
 doctor-syn/src/transformation/approx.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index f229652..b2c5d17 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -77,6 +77,13 @@ pub fn approx(
     parity: Parity,
     num_digits: i64,
 ) -> Result<Expression> {
+    if num_terms < 2 {
+        return Err(Error::WrongNumberOfTerms(expr.span()));
+    }
+    // Distinct points are needed, in a finite interval.
+    if !xmin.is_finite() || !xmax.is_finite() || xmin == xmax {
+        return Err(Error::CouldNotEvaulate(format!("{}..{}", xmin, xmax)));
+    }
     let xmin = bigdf(xmin);
     let xmax = bigdf(xmax);
 
-- 
2.43.0


From 7dee3c8a3b9d4754a58e7d22b41d1ef6e405a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 51/56] fix: to_simd keeps the types of variables and constants

---
 doctor-syn/src/codegen/portable_simd.rs | 61 ++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index e079061..7fa62cb 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -23,6 +23,43 @@ pub struct SimdVisitor {
     idents_used: Vec<Ident>,
 }
 
+/// Give the integer literals that are of the type of the expression a suffix.
+fn suffix_literals(expr: &mut Expr, suffix: &str) {
+    match expr {
+        Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(f), .. }) if f.suffix().is_empty() => {
+            *f = syn::LitInt::new(&format!("{}{}", f.base10_digits(), suffix), f.span());
+        }
+        Expr::Paren(e) => suffix_literals(&mut e.expr, suffix),
+        Expr::Unary(e) => suffix_literals(&mut e.expr, suffix),
+        Expr::Binary(e) => {
+            use syn::BinOp::*;
+            match e.op {
+                Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_)
+                | Shl(_) | Shr(_) => {
+                    suffix_literals(&mut e.left, suffix);
+                    suffix_literals(&mut e.right, suffix);
+                }
+                _ => {}
+            }
+        }
+        _ => {}
+    }
+}
+
+/// Variables and constants of an unsigned type have unsigned literals.
+fn suffix_unsigned(ty: &syn::Type, expr: &mut Expr, num_bits: usize) {
+    let suffix = if num_bits == 32 { "u32" } else { "u64" };
+    let ty = ty.to_token_stream().to_string();
+    if ty == "uty" || ty == suffix {
+        suffix_literals(expr, suffix);
+    }
+}
+
+/// Masks have no name.
+fn is_bool(ty: &syn::Type) -> bool {
+    ty.to_token_stream().to_string() == "bool"
+}
+
 impl SimdVisitor {
     fn new(options: Options) -> Self {
         let consts = Vec::new();
@@ -79,10 +116,10 @@ impl VisitMut for SimdVisitor {
     }
 
     fn visit_type_path_mut(&mut self, type_path: &mut syn::TypePath) {
-        match type_path.to_token_stream().to_string().as_str() {
-            "uty" => *type_path = parse_quote!(Self::UintType),
-            "ity" => *type_path = parse_quote!(Self::IntType),
-            "fty" => *type_path = parse_quote!(Self),
+        match (type_path.to_token_stream().to_string().as_str(), self.options.num_bits) {
+            ("uty", _) | ("u32", 32) | ("u64", 64) => *type_path = parse_quote!(Self::UintType),
+            ("ity", _) | ("i32", 32) | ("i64", 64) => *type_path = parse_quote!(Self::IntType),
+            ("fty", _) | ("f32", 32) | ("f64", 64) => *type_path = parse_quote!(Self),
             _ => {},
         }
     }
@@ -138,9 +175,14 @@ impl VisitMut for SimdVisitor {
     }
 
     fn visit_local_mut(&mut self, local: &mut syn::Local) {
+        if let (syn::Pat::Type(pat_type), Some((_, init))) = (&local.pat, &mut local.init) {
+            suffix_unsigned(&pat_type.ty, init, self.options.num_bits);
+        }
         visit_local_mut(self, local);
         if let syn::Pat::Type(pat_type) = &local.pat {
-            local.pat = *pat_type.pat.clone();
+            if is_bool(&pat_type.ty) {
+                local.pat = *pat_type.pat.clone();
+            }
         }
     }
 }
@@ -287,8 +329,15 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                     let ident = &c.ident;
                     if cv.idents_used.contains(ident) {
                         let mut expr = (&*c.expr).clone();
+                        let mut ty = (&*c.ty).clone();
+                        suffix_unsigned(&ty, &mut expr, cv.options.num_bits);
                         cv.visit_expr_mut(&mut expr);
-                        let new_stmt = parse_quote! {let #ident = #expr;};
+                        cv.visit_type_mut(&mut ty);
+                        let new_stmt = if is_bool(&ty) {
+                            parse_quote! {let #ident = #expr;}
+                        } else {
+                            parse_quote! {let #ident: #ty = #expr;}
+                        };
                         new_block.stmts.insert(0, new_stmt);
                     }
                 }
-- 
2.43.0


From 1be6b3b499eab3556b4e98c6771d582b3815d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:31 +0000
Subject: [PATCH 52/56] fix: to_simd calls a closure as a closure

---
 doctor-syn/src/codegen/portable_simd.rs | 39 ++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 7fa62cb..d6e5533 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -3,6 +3,7 @@
 
 use quote::{quote, format_ident, ToTokens};
 use syn::punctuated::Punctuated;
+use syn::visit::{self, Visit};
 use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut};
 use syn::{parse_quote, Expr, Ident, Item, ItemConst, Token, Visibility};
 
@@ -21,6 +22,38 @@ pub struct SimdVisitor {
     options: Options,
     consts: Vec<ItemConst>,
     idents_used: Vec<Ident>,
+    closures: Vec<Ident>,
+}
+
+/// The names of variables that are closures or functions.
+#[derive(Default)]
+struct Closures {
+    idents: Vec<Ident>,
+}
+
+impl<'ast> Visit<'ast> for Closures {
+    fn visit_local(&mut self, local: &'ast syn::Local) {
+        if let (syn::Pat::Ident(id), Some((_, init))) = (&local.pat, &local.init) {
+            if matches!(&**init, Expr::Closure(_)) {
+                self.idents.push(id.ident.clone());
+            }
+        }
+        visit::visit_local(self, local);
+    }
+
+    fn visit_pat_type(&mut self, pat_type: &'ast syn::PatType) {
+        if let (syn::Pat::Ident(id), syn::Type::BareFn(_)) = (&*pat_type.pat, &*pat_type.ty) {
+            self.idents.push(id.ident.clone());
+        }
+        visit::visit_pat_type(self, pat_type);
+    }
+}
+
+fn is_ident_of(expr: &Expr, idents: &[Ident]) -> bool {
+    match expr {
+        Expr::Path(path) => path.path.get_ident().map_or(false, |i| idents.contains(i)),
+        _ => false,
+    }
 }
 
 /// Give the integer literals that are of the type of the expression a suffix.
@@ -68,6 +101,7 @@ impl SimdVisitor {
             options,
             consts,
             idents_used,
+            closures: Vec::new(),
         }
     }
 }
@@ -136,7 +170,7 @@ impl VisitMut for SimdVisitor {
             syn::Expr::Binary(binary) => {
                 *expr = convert_binary(binary)
             }
-            syn::Expr::Call(call) => {
+            syn::Expr::Call(call) if !is_ident_of(&call.func, &self.closures) => {
                 *expr = convert_call(call);
             }
             syn::Expr::Lit(syn::ExprLit { lit, ..} ) => {
@@ -321,6 +355,9 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                     _ => unreachable!("expected identifier"),
                 };
                 cv.visit_signature_mut(&mut new_sig);
+                let mut closures = Closures::default();
+                closures.visit_item_fn(item);
+                cv.closures = closures.idents;
                 let mut new_block = (*item.block).clone();
                 new_block.stmts.insert(0, parse_quote! {let #ident = self;});
                 cv.visit_block_mut(&mut new_block);
-- 
2.43.0


From ad0b44ad5cf016ce3a3e839a1bb3bc873c837789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:36 +0000
Subject: [PATCH 53/56] fix: to_simd refuses effects in branches, which both
 lanes would take

---
 doctor-syn/src/codegen/portable_simd.rs | 86 +++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index d6e5533..b5fdbc8 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -25,6 +25,76 @@ pub struct SimdVisitor {
     closures: Vec<Ident>,
 }
 
+/// Looks for what an expression does beyond giving a value.
+/// Both branches of a select are evaluated, so that this has no translation there.
+struct Effects<'a> {
+    closures: &'a [Ident],
+    locals: Vec<Ident>,
+    loops: usize,
+    found: bool,
+}
+
+impl<'a> Effects<'a> {
+    fn check(expr: &Expr, closures: &'a [Ident]) {
+        let mut effects = Effects { closures, locals: Vec::new(), loops: 0, found: false };
+        effects.visit_expr(expr);
+        if effects.found {
+            panic!("unsupported effect in a branch: {}", expr.to_token_stream());
+        }
+    }
+
+    /// Variables of the expression itself may change.
+    fn changes(&mut self, place: &Expr) {
+        match place {
+            Expr::Path(path) if path.path.get_ident().map_or(false, |i| self.locals.contains(i)) => {}
+            Expr::Field(field) => self.changes(&field.base),
+            Expr::Paren(paren) => self.changes(&paren.expr),
+            _ => self.found = true,
+        }
+    }
+}
+
+impl<'a, 'ast> Visit<'ast> for Effects<'a> {
+    fn visit_expr(&mut self, expr: &'ast Expr) {
+        match expr {
+            Expr::Assign(e) => self.changes(&e.left),
+            Expr::AssignOp(e) => self.changes(&e.left),
+            Expr::Reference(e) if e.mutability.is_some() => self.changes(&e.expr),
+            Expr::Return(_) | Expr::Macro(_) | Expr::Try(_) => self.found = true,
+            Expr::Break(e) => self.found |= self.loops == 0 || e.label.is_some(),
+            Expr::Continue(e) => self.found |= self.loops == 0 || e.label.is_some(),
+            Expr::Call(e) => self.found |= is_ident_of(&e.func, self.closures),
+            _ => {}
+        }
+        let is_loop = matches!(expr, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
+        self.loops += is_loop as usize;
+        visit::visit_expr(self, expr);
+        self.loops -= is_loop as usize;
+    }
+
+    fn visit_block(&mut self, block: &'ast syn::Block) {
+        let outside = self.locals.len();
+        visit::visit_block(self, block);
+        self.locals.truncate(outside);
+    }
+
+    fn visit_local(&mut self, local: &'ast syn::Local) {
+        if let Some((_, init)) = &local.init {
+            self.visit_expr(init);
+        }
+        // A reference would let what it refers to change.
+        let mut pat = &local.pat;
+        if let syn::Pat::Type(pat_type) = pat {
+            pat = &pat_type.pat;
+        }
+        if let syn::Pat::Ident(id) = pat {
+            self.locals.push(id.ident.clone());
+        }
+    }
+
+    fn visit_item(&mut self, _: &'ast Item) {}
+}
+
 /// The names of variables that are closures or functions.
 #[derive(Default)]
 struct Closures {
@@ -161,6 +231,22 @@ impl VisitMut for SimdVisitor {
     // Convert `lit as f32` etc. to splats.
     fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
         // println!("{} {:?}", expr.to_token_stream(), expr);
+        match &*expr {
+            Expr::If(syn::ExprIf { then_branch, else_branch: Some((_, else_branch)), .. }) => {
+                for stmt in &then_branch.stmts {
+                    if let syn::Stmt::Expr(expr) = stmt {
+                        Effects::check(expr, &self.closures);
+                    }
+                }
+                Effects::check(else_branch, &self.closures);
+            }
+            Expr::Binary(syn::ExprBinary { op: syn::BinOp::And(_), right, .. })
+            | Expr::Binary(syn::ExprBinary { op: syn::BinOp::Or(_), right, .. }) => {
+                Effects::check(right, &self.closures);
+            }
+            _ => {}
+        }
+
         visit_expr_mut(self, expr);
 
         match &*expr {
-- 
2.43.0


From da37af2a0242d95334bd566d81273d6fb251f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:54 +0000
Subject: [PATCH 54/56] fix: expand sums under double parentheses and negations
 inside products

---
 doctor-syn/src/transformation/expand.rs | 5 +++++
 doctor-syn/src/transformation/tools.rs  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index e16f84b..059bd7e 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -55,6 +55,11 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
             }
             _ => {}
         },
+        Expr::Unary(ExprUnary {
+            op: UnOp::Neg(_),
+            expr,
+            ..
+        }) => return match_sum(expr, sum, !is_negated),
         _ => {}
     }
     // Operators that are not part of the sum keep their parentheses.
diff --git a/doctor-syn/src/transformation/tools.rs b/doctor-syn/src/transformation/tools.rs
index a24eb7c..0bfd010 100644
--- a/doctor-syn/src/transformation/tools.rs
+++ b/doctor-syn/src/transformation/tools.rs
@@ -22,7 +22,7 @@ pub fn negate(expr: &Expr) -> Expr {
 // Strip parentheses.
 pub fn deparen(expr: &Expr) -> &Expr {
     match expr {
-        Expr::Paren(ExprParen { expr, .. }) => &*expr,
+        Expr::Paren(ExprParen { expr, .. }) => deparen(expr),
         _ => expr,
     }
 }
-- 
2.43.0


From b6f02b2b6d729157ddb4f085e540d4dd3463e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:08 +0000
Subject: [PATCH 55/56] fix: negate_on_odd shifted into the sign bit, undefined
 in C

---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index c0948d3..316a765 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -295,7 +295,7 @@ pub fn gen_negate_on_odd(_terms: usize, config: &Config) -> TokenStream {
     quote!(
         // If x is odd, negate y.
         pub fn negate_on_odd(x: fty, y: fty) -> fty {
-            let sign_bit : uty = (((x as ity) & 1) << #shift) as uty;
+            let sign_bit : uty = (((x as ity) & 1) as uty) << #shift;
             fty::from_bits(sign_bit ^ y.to_bits())
         }
     )
-- 
2.43.0


From 8d7071770fea9f292e45bad3e6f20e06a58fd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:27 +0000
Subject: [PATCH 56/56] fix: to_simd took the literals beside unsigned operands
 for signed

---
 doctor-syn/src/codegen/portable_simd.rs | 87 +++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index b5fdbc8..6b69d45 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -23,6 +23,7 @@ pub struct SimdVisitor {
     consts: Vec<ItemConst>,
     idents_used: Vec<Ident>,
     closures: Vec<Ident>,
+    unsigned: Vec<Ident>,
 }
 
 /// Looks for what an expression does beyond giving a value.
@@ -149,6 +150,78 @@ fn suffix_literals(expr: &mut Expr, suffix: &str) {
     }
 }
 
+/// The names that are unsigned wherever they are declared.
+#[derive(Default)]
+struct Unsigned {
+    idents: Vec<Ident>,
+    others: Vec<Ident>,
+    num_bits: usize,
+}
+
+impl<'ast> Visit<'ast> for Unsigned {
+    fn visit_pat_type(&mut self, pat_type: &'ast syn::PatType) {
+        match &*pat_type.pat {
+            syn::Pat::Ident(id) if is_unsigned_type(&pat_type.ty, self.num_bits) => {
+                self.idents.push(id.ident.clone())
+            }
+            pat => self.visit_pat(pat),
+        }
+    }
+
+    fn visit_pat_ident(&mut self, id: &'ast syn::PatIdent) {
+        self.others.push(id.ident.clone());
+    }
+}
+
+fn is_unsigned_type(ty: &syn::Type, num_bits: usize) -> bool {
+    let ty = ty.to_token_stream().to_string();
+    ty == "uty" || ty == if num_bits == 32 { "u32" } else { "u64" }
+}
+
+/// Whether an expression is known to be unsigned.
+fn is_unsigned(expr: &Expr, idents: &[Ident], num_bits: usize) -> bool {
+    use syn::BinOp::*;
+    let is_unsigned = |e| is_unsigned(e, idents, num_bits);
+    match expr {
+        Expr::Paren(e) => is_unsigned(&e.expr),
+        Expr::Unary(e) => is_unsigned(&e.expr),
+        Expr::Cast(e) => is_unsigned_type(&e.ty, num_bits),
+        Expr::MethodCall(e) => e.method == "to_bits" && e.args.is_empty(),
+        Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(e), .. }) => {
+            e.suffix() == if num_bits == 32 { "u32" } else { "u64" }
+        }
+        Expr::If(e) => match e.then_branch.stmts.last() {
+            Some(syn::Stmt::Expr(e)) => is_unsigned(e),
+            _ => false,
+        },
+        Expr::Binary(e) => match e.op {
+            Shl(_) | Shr(_) => is_unsigned(&e.left),
+            Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_) => {
+                is_unsigned(&e.left) || is_unsigned(&e.right)
+            }
+            _ => false,
+        },
+        _ => is_ident_of(expr, idents),
+    }
+}
+
+/// Literals beside unsigned operands are unsigned.
+fn suffix_operands(e: &mut syn::ExprBinary, idents: &[Ident], num_bits: usize) {
+    use syn::BinOp::*;
+    let left = is_unsigned(&e.left, idents, num_bits);
+    let known = match e.op {
+        Shl(_) | Shr(_) => left,
+        Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_) | Eq(_)
+        | Lt(_) | Le(_) | Ne(_) | Ge(_) | Gt(_) => left || is_unsigned(&e.right, idents, num_bits),
+        _ => false,
+    };
+    if known {
+        let suffix = if num_bits == 32 { "u32" } else { "u64" };
+        suffix_literals(&mut e.left, suffix);
+        suffix_literals(&mut e.right, suffix);
+    }
+}
+
 /// Variables and constants of an unsigned type have unsigned literals.
 fn suffix_unsigned(ty: &syn::Type, expr: &mut Expr, num_bits: usize) {
     let suffix = if num_bits == 32 { "u32" } else { "u64" };
@@ -172,6 +245,7 @@ impl SimdVisitor {
             consts,
             idents_used,
             closures: Vec::new(),
+            unsigned: Vec::new(),
         }
     }
 }
@@ -247,6 +321,10 @@ impl VisitMut for SimdVisitor {
             _ => {}
         }
 
+        if let Expr::Binary(binary) = expr {
+            suffix_operands(binary, &self.unsigned, self.options.num_bits);
+        }
+
         visit_expr_mut(self, expr);
 
         match &*expr {
@@ -444,6 +522,15 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                 let mut closures = Closures::default();
                 closures.visit_item_fn(item);
                 cv.closures = closures.idents;
+                let mut unsigned = Unsigned { num_bits: cv.options.num_bits, ..Unsigned::default() };
+                unsigned.visit_item_fn(item);
+                for c in &cv.consts {
+                    if is_unsigned_type(&c.ty, cv.options.num_bits) {
+                        unsigned.idents.push(c.ident.clone());
+                    }
+                }
+                let others = unsigned.others;
+                cv.unsigned = unsigned.idents.into_iter().filter(|i| !others.contains(i)).collect();
                 let mut new_block = (*item.block).clone();
                 new_block.stmts.insert(0, parse_quote! {let #ident = self;});
                 cv.visit_block_mut(&mut new_block);
-- 
2.43.0

