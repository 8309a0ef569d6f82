From 1def0a944b99c7f6e322123c6ab72e05f89b36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:10 +0000
Subject: [PATCH 01/39] fix: reduce rationals by common powers of two and keep
 the gcd loop logarithmic

reduce_rational left common factors of two in its result, and when exactly one
operand was even after the shift the subtraction loop ran linearly.
---
 src/scale_conversion.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..22b83d5 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -78,10 +78,10 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     let mut num_u = num.unsigned_abs();
     let mut den_u = den.unsigned_abs();
 
-    // Remove common factors of 2 using bit shifts
+    // Remove factors of 2 using bit shifts, remembering how many were common
     let common_twos = (num_u | den_u).trailing_zeros();
-    num_u >>= common_twos;
-    den_u >>= common_twos;
+    num_u >>= num_u.trailing_zeros();
+    den_u >>= den_u.trailing_zeros();
 
     // Now both are odd, so we can use the odd-odd case of binary GCD
     while num_u != den_u {
@@ -95,8 +95,9 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
         }
     }
 
-    // num_u == den_u now, and both are odd, so this is the GCD
-    let gcd = num_u;
+    // num_u == den_u now, and both are odd, so this is the odd part of the GCD;
+    // restore the common factors of 2 that were shifted out above
+    let gcd = num_u << common_twos;
 
     // Divide both by the GCD to get reduced form
     let reduced_num = num / (gcd as i128);
-- 
2.43.0


From b94938e0bd686b12032a2535f1d7e8c6ebd9aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 02/39] fix: compute integer rescale factors in a wide integer
 type

---
 src/api.rs              | 28 ++++++++++++++--------------
 src/scale_conversion.rs | 26 +++++++++++++++++---------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 2b7ae30..ff7228e 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -235,7 +235,7 @@ macro_rules! define_float_rescale {
 
 #[doc(hidden)]
 macro_rules! define_int_rescale {
-    ($rescale_fn:ident, $T:ty) => {
+    ($rescale_fn:ident, $T:ty, $W:ty) => {
         $crate::_define_int_rescale!(
             (
                 const MASS_EXPONENT: i16,
@@ -272,7 +272,7 @@ macro_rules! define_int_rescale {
                 SCALE_P2_FROM, SCALE_P3_FROM, SCALE_P5_FROM, SCALE_PI_FROM,
                 SCALE_P2_TO, SCALE_P3_TO, SCALE_P5_TO, SCALE_PI_TO,
             ),
-            $rescale_fn, $T,
+            $rescale_fn, $T, $W,
         );
     };
 }
@@ -283,20 +283,20 @@ define_float_rescale!(rescale_f64, f64);
 define_float_rescale!(rescale_f32, f32);
 
 // Signed integer rescale functions - support i8, i16, i32, i64, i128, isize
-define_int_rescale!(rescale_i8, i8);
-define_int_rescale!(rescale_i16, i16);
-define_int_rescale!(rescale_i32, i32);
-define_int_rescale!(rescale_i64, i64);
-define_int_rescale!(rescale_i128, i128);
-define_int_rescale!(rescale_isize, isize);
+define_int_rescale!(rescale_i8, i8, i128);
+define_int_rescale!(rescale_i16, i16, i128);
+define_int_rescale!(rescale_i32, i32, i128);
+define_int_rescale!(rescale_i64, i64, i128);
+define_int_rescale!(rescale_i128, i128, i128);
+define_int_rescale!(rescale_isize, isize, i128);
 
 // Unsigned integer rescale functions - support u8, u16, u32, u64, u128, usize
-define_int_rescale!(rescale_u8, u8);
-define_int_rescale!(rescale_u16, u16);
-define_int_rescale!(rescale_u32, u32);
-define_int_rescale!(rescale_u64, u64);
-define_int_rescale!(rescale_u128, u128);
-define_int_rescale!(rescale_usize, usize);
+define_int_rescale!(rescale_u8, u8, u128);
+define_int_rescale!(rescale_u16, u16, u128);
+define_int_rescale!(rescale_u32, u32, u128);
+define_int_rescale!(rescale_u64, u64, u128);
+define_int_rescale!(rescale_u128, u128, u128);
+define_int_rescale!(rescale_usize, usize, u128);
 
 #[macro_export]
 #[doc(hidden)]
diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 22b83d5..3231501 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -181,7 +181,7 @@ macro_rules! _define_int_rescale {
         ($($int_rescale_input_type:tt)*),
         ($($int_rescale_output_type:tt)*),
         ($($int_rescale_aggregate_args:tt)*),
-        $fn:ident, $T:ty,
+        $fn:ident, $T:ty, $W:ty,
     ) => {
         /// Rescale a quantity to a different unit of the same dimension.
         ///
@@ -233,19 +233,27 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
+            // Scale factors need not fit the storage type (e.g. 1000 in an i8), so compute in the
+            // widest integer type of the same signedness
+            let value = quantity.unsafe_value as $W;
+            let num = num as $W;
+            let den = den as $W;
 
-            // Numerical stability: check for potential overflow on multiplication
+            // Numerical stability: check for overflow on multiplication
             // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
-            } else {
+            let result = match value.checked_mul(num) {
                 // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                Some(product) => product / den,
+                // Overflow: divide first to reduce intermediate value
+                None => (value / den) * num,
             };
 
+            assert!(
+                result as $T as $W == result,
+                "attempt to rescale to a value that overflows the storage type"
+            );
+            let result = result as $T;
+
             Quantity::<
                 Scale<_2<SCALE_P2_TO>, _3<SCALE_P3_TO>, _5<SCALE_P5_TO>, _Pi<SCALE_PI_TO>>,
                 Dimension<_M<MASS_EXPONENT>, _L<LENGTH_EXPONENT>, _T<TIME_EXPONENT>, _I<CURRENT_EXPONENT>, _Θ<TEMPERATURE_EXPONENT>, _N<AMOUNT_EXPONENT>, _J<LUMINOSITY_EXPONENT>, _A<ANGLE_EXPONENT>>,
-- 
2.43.0


From 1f63d19b9efac8d6bae84b9ee50d6c03e7a5b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 03/39] fix: correct the scales of gradian, arcminute and
 arcsecond

---
 src/quantity.rs               | 2 +-
 whippyunits-core/src/units.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..d4de3ba 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From ab2cc3e59122be8c468be499c9d9c06cd177e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 04/39] fix: a foot-pound is 1.3558 J, not 13.558 J

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d4de3ba..84db765 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 84a0a6677953954f7d3690bccbeb2529677f7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 05/39] fix: Fahrenheit offset is 459.67

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 84db765..62f8ebd 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From 5a81b4d8db97f5c65203c3e53697ca45d65c7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 06/39] fix: dynamic viscosity has a time exponent of -1

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..f70d9fd 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From e6621e90310eda1cd3274dde4b1809eb5b2384ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 07/39] fix: lumen is a luminous, not an illuminance, unit

---
 whippyunits-core/src/dimensions.rs |  4 ++--
 whippyunits-core/src/units.rs      | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index f70d9fd..1b703b7 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -348,7 +348,7 @@ impl Dimension<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 1, 0])> {
     pub const LUMINOSITY: Self = __dim!(Self {
         name: "Luminosity",
         symbol: "Cd",
-        units: &[Unit::CANDELA],
+        units: &[Unit::CANDELA, Unit::LUMEN],
     });
 }
 
@@ -526,7 +526,7 @@ impl Dimension<crate::dimension_exponents!([0, -2, 0, 0, 0, 0, 1, 0])> {
     pub const ILLUMINANCE: Self = __dim!(Self {
         name: "Illuminance",
         symbol: "L⁻²Cd",
-        units: &[Unit::LUX, Unit::LUMEN],
+        units: &[Unit::LUX],
     });
 }
 
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 62f8ebd..f036140 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -946,23 +946,23 @@ impl Unit<crate::dimension_exponents!([0, -2, 0, 0, 0, 0, 1, 0])> {
         exponents: TypeDimensionExponents::new(),
         system: System::Metric,
     };
+}
 
-    pub const LUMEN: Self = Self {
-        name: "lumen",
-        symbols: &["lm"],
+/// Luminous intensity
+impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 1, 0])> {
+    pub const CANDELA: Self = Self {
+        name: "candela",
+        symbols: &["cd"],
         scale: ScaleExponents::IDENTITY,
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
         system: System::Metric,
     };
-}
 
-/// Luminous intensity
-impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 1, 0])> {
-    pub const CANDELA: Self = Self {
-        name: "candela",
-        symbols: &["cd"],
+    pub const LUMEN: Self = Self {
+        name: "lumen",
+        symbols: &["lm"],
         scale: ScaleExponents::IDENTITY,
         conversion_factor: IDENTITY,
         affine_offset: NONE,
-- 
2.43.0


From fad718dc1119ea17e874267ddcff769c4e31ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 08/39] fix: an acre is 4046.8564224 square metres

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index f036140..e74373b 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 32b9163f8b8e0b83b53bff75220486a74630dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 09/39] fix: declarator methods of liter, hectare and stokes
 keep the unit's own scale

---
 .../src/generate_default_declarators_macro.rs | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..9a36a47 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -351,14 +351,8 @@ impl DefaultDeclaratorsInput {
                 let unit_suffix = whippyunits_core::make_plural(unit.name);
                 let base_fn_name = unit_suffix.to_string();
 
-                // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                // Scale factors inherent to the base unit (10^-3 for gram and liter, for example)
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -374,20 +368,11 @@ impl DefaultDeclaratorsInput {
                     // For function names, use the plural form
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
-                    // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    // The prefix comes on top of the inherent scale of the unit
+                    let p2 = base_p2 + prefix.factor_log10() as i16;
+                    let p3 = base_p3;
+                    let p5 = base_p5 + prefix.factor_log10() as i16;
+                    let pi = base_pi;
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From 2c54bb0931b8c26333ee72264d3e5ac054e29325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 10/39] fix: quantity! keeps an explicit storage type and brand
 for converted and affine units

---
 proc-macros/src/quantity_macro.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..7068e66 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -53,8 +53,11 @@ impl QuantityMacroInput {
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
 
         // Check if this is a simple atomic unit that's nonstorage/affine
-        // For these, we can dispatch directly to the declarator
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
+        // For these, we can dispatch directly to the declarator, which only knows the storage
+        // type of the value itself and the default brand
+        if let (UnitExpr::Unit(unit), None, None) =
+            (&self.unit_expr, &self.storage_type, &self.brand_type)
+        {
             if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
-- 
2.43.0


From 91d083cf64c2fc0cdb020ab8c127a003de588c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 11/39] fix: value! by unit name converts affine units other
 than celsius

---
 proc-macros/src/value_macro.rs | 34 +++++-----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..04e1193 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -2,9 +2,9 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::Comma;
-use syn::{Expr, Ident, Type};
+use syn::{Expr, Type};
 use whippyunits_core::{
-    calculate_unit_conversion_factors, get_unit_info, Dimension, EvaluationMode, UnitExpr,
+    calculate_unit_conversion_factors, get_unit_info, EvaluationMode, UnitExpr,
 };
 
 use crate::utils::shared_utils::generate_unit_documentation_for_expr;
@@ -131,41 +131,17 @@ impl ValueMacroInput {
                 UnitExpr::Unit(u) => u,
                 _ => unreachable!(), // We already checked it's Unit
             };
-            let unit_name = unit.name.to_string();
-            let unit_info = get_unit_info(&unit_name).unwrap();
+            let unit_info = get_unit_info(&unit.name.to_string()).unwrap();
             let affine_offset = unit_info.affine_offset;
 
-            // Find the storage unit (same scale, no offset, conversion_factor == 1.0)
-            let storage_unit_symbol = if let Some((unit, dimension)) =
-                Dimension::find_unit_by_symbol(&unit_name)
-            {
-                // Find a storage unit with the same scale
-                if let Some(storage_unit) = dimension.units.iter().find(|u| {
-                    u.scale == unit.scale && u.conversion_factor == 1.0 && u.affine_offset == 0.0
-                }) {
-                    storage_unit.symbols[0]
-                } else {
-                    // Fallback: use the first symbol of the first storage unit in the dimension
-                    dimension
-                        .units
-                        .iter()
-                        .find(|u| u.conversion_factor == 1.0 && u.affine_offset == 0.0)
-                        .map(|u| u.symbols[0])
-                        .unwrap_or("K") // Fallback to K for temperature
-                }
-            } else {
-                "K" // Fallback
-            };
-
-            let storage_unit_ident = Ident::new(storage_unit_symbol, unit.name.span());
-
+            // The storage unit has the scale of the affine unit and no offset.
             // Generate: (rescale(quantity) as storage_unit_type).unsafe_value - offset
             quote! {
                 {
                     const _: () = {
                         #doc_structs
                     };
-                    let storage_value = (whippyunits::api::#rescale_fn(#quantity) as whippyunits::unit!(#storage_unit_ident, #storage_type_ty, #brand_type_ty)).unsafe_value;
+                    let storage_value = (whippyunits::api::#rescale_fn(#quantity) as #target_unit_type).unsafe_value;
                     (storage_value as f64 - #affine_offset) as #storage_type_ty
                 }
             }
-- 
2.43.0


From b023a792b85b339dfcd7d889ee56cae2d601674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 12/39] fix: reading a value in a compound unit with an affine
 part inverts the conversion that built it

---
 proc-macros/src/value_macro.rs | 4 ++--
 src/quantity.rs                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 04e1193..224468c 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -154,14 +154,14 @@ impl ValueMacroInput {
 
             if is_nonstorage {
                 // Target is nonstorage: rescale to target scale, then apply inverse conversion
-                // Going FROM storage TO nonstorage: divide by conversion_factor, subtract affine_offset
+                // Going FROM storage TO nonstorage: subtract affine_offset, divide by conversion_factor
                 quote! {
                     {
                         const _: () = {
                             #doc_structs
                         };
                         let scaled_value = (whippyunits::api::#rescale_fn(#quantity) as #target_unit_type).unsafe_value;
-                        ((scaled_value as f64 / #conversion_factor) - #affine_offset) as #storage_type_ty
+                        ((scaled_value as f64 - #affine_offset) / #conversion_factor) as #storage_type_ty
                     }
                 }
             } else {
diff --git a/src/quantity.rs b/src/quantity.rs
index 32d928c..5fb8e1e 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -544,10 +544,10 @@ impl<
         let value_with_scale: f64 = self.unsafe_value.into() * scale_conversion_factor;
 
         // 2. Apply inverse of nonstorage conversion (if target is nonstorage)
-        //    Going FROM storage TO nonstorage: divide by conversion_factor, subtract affine_offset
+        //    Going FROM storage TO nonstorage: subtract affine_offset, divide by conversion_factor
         let converted_value = if target_unit_cf != 1.0 || target_unit_af != 0.0 {
             // Target is nonstorage: apply inverse conversion
-            (value_with_scale / target_unit_cf) - target_unit_af
+            (value_with_scale - target_unit_af) / target_unit_cf
         } else {
             // Target is storage unit: no additional conversion needed
             value_with_scale
-- 
2.43.0


From 75be416a867671ebff4166d7aefa5144399ed909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 13/39] fix: the proxy reads messages with more than one header
 line

---
 lsp-proxy/src/main.rs | 45 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index b4a60a8..f2e96fa 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -172,28 +172,35 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     reader: &mut R,
     buffer: &mut String,
 ) -> Result<Option<String>, anyhow::Error> {
-    // Read the Content-Length header
-    buffer.clear();
-    match reader.read_line(buffer).await {
-        Ok(0) => return Ok(None), // EOF
-        Ok(_) => {}
-        Err(e) => return Err(anyhow::anyhow!("Failed to read Content-Length: {}", e)),
+    // Read the header lines up to the empty line; Content-Length is mandatory, others
+    // (Content-Type) are passed on
+    let mut headers = String::new();
+    let mut content_length: Option<usize> = None;
+    loop {
+        buffer.clear();
+        match reader.read_line(buffer).await {
+            Ok(0) if headers.is_empty() => return Ok(None), // EOF
+            Ok(0) => return Err(anyhow::anyhow!("Unexpected end of headers: {}", headers)),
+            Ok(_) => {}
+            Err(e) => return Err(anyhow::anyhow!("Failed to read headers: {}", e)),
+        }
+
+        let header = buffer.trim();
+        if header.is_empty() {
+            break;
+        }
+        if let Some(length) = header.strip_prefix("Content-Length: ") {
+            content_length = Some(length.parse()?);
+        }
+        headers.push_str(header);
+        headers.push_str("\r\n");
     }
 
-    let content_length_line = buffer.trim();
-    if content_length_line.is_empty() {
+    if headers.is_empty() {
         return Ok(None);
     }
-
-    // Parse Content-Length
-    let content_length: usize = content_length_line
-        .strip_prefix("Content-Length: ")
-        .ok_or_else(|| anyhow::anyhow!("Invalid Content-Length header: {}", content_length_line))?
-        .parse()?;
-
-    // Read the empty line after headers
-    buffer.clear();
-    reader.read_line(buffer).await?;
+    let content_length = content_length
+        .ok_or_else(|| anyhow::anyhow!("Missing Content-Length header: {}", headers))?;
 
     // Read the JSON payload
     buffer.clear();
@@ -203,7 +210,7 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     let json_payload = String::from_utf8(json_buffer)?;
 
     // Reconstruct the complete LSP message
-    let message = format!("Content-Length: {}\r\n\r\n{}", content_length, json_payload);
+    let message = format!("{}\r\n{}", headers, json_payload);
     Ok(Some(message))
 }
 
-- 
2.43.0


From 99f37b35b7e3cf41061cb2d700cafc60814633b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 14/39] =?UTF-8?q?fix:=20pruning=20=C2=B9=20from=20inlay=20?=
 =?UTF-8?q?hints=20keeps=20the=20digits=20of=20longer=20exponents?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lsp-proxy/src/inlay_hint_processor.rs | 34 +++++++++++++++++----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f9940be..36a6c2f 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -405,19 +405,29 @@ impl InlayHintProcessor {
         // In our pretty-printed output, we use Unicode superscripts like ¹, ², ³, etc.
         // We want to remove ¹ (superscript 1) but keep all other superscripts
         // For negative exponents, we want to preserve the full -1 to make it clear
-        let mut result = pretty_type.to_string();
-
-        // Remove standalone ¹ (but preserve ⁻¹ as it represents a meaningful negative exponent)
-        // Since ⁻¹ is two separate Unicode characters (⁻ + ¹), we need to handle this carefully
-        // First, temporarily replace ⁻¹ with a placeholder to protect it
-        result = result.replace("⁻¹", "PLACEHOLDER_MINUS_ONE");
-
-        // Then remove standalone ¹
-        result = result.replace("¹", "");
-
-        // Finally, restore the ⁻¹
-        result = result.replace("PLACEHOLDER_MINUS_ONE", "⁻¹");
+        let mut result = String::with_capacity(pretty_type.len());
+        let mut chars = pretty_type.chars().peekable();
+        let mut previous = None;
+        while let Some(ch) = chars.next() {
+            // Remove standalone ¹ (but preserve ⁻¹ as it represents a meaningful negative exponent,
+            // and ¹ as a digit of a longer exponent such as ¹²)
+            let standalone = ch == '¹'
+                && !previous.is_some_and(is_superscript)
+                && !chars.peek().copied().is_some_and(is_superscript);
+            if !standalone {
+                result.push(ch);
+            }
+            previous = Some(ch);
+        }
 
         result
     }
 }
+
+/// Check if a character is part of a superscript exponent
+fn is_superscript(ch: char) -> bool {
+    matches!(
+        ch,
+        '⁻' | '⁰' | '¹' | '²' | '³' | '⁴' | '⁵' | '⁶' | '⁷' | '⁸' | '⁹'
+    )
+}
-- 
2.43.0


From 7bae2902b1b498c801285a6d58ece672af9673fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 15/39] fix: the seeded unit! macro writes one caret per
 exponent

---
 lsp-proxy/src/inlay_hint_processor.rs | 44 +++++++++++++++++++--------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index 36a6c2f..f3a5652 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -385,19 +385,37 @@ impl InlayHintProcessor {
     fn convert_pretty_type_to_unit_macro(&self, pretty_type: &str) -> String {
         // Convert pretty-printed types like "mmˀ" to unit macro format like "mm^"
         // Remove the ? and place cursor after the caret
-        pretty_type
-            .replace("ˀ", "^") // Replace superscript question mark with just ^
-            .replace("⁻", "^-") // Replace superscript minus with ^-
-            .replace("¹", "^1") // Replace superscript 1 with ^1
-            .replace("²", "^2") // Replace superscript 2 with ^2
-            .replace("³", "^3") // Replace superscript 3 with ^3
-            .replace("⁴", "^4") // Replace superscript 4 with ^4
-            .replace("⁵", "^5") // Replace superscript 5 with ^5
-            .replace("⁶", "^6") // Replace superscript 6 with ^6
-            .replace("⁷", "^7") // Replace superscript 7 with ^7
-            .replace("⁸", "^8") // Replace superscript 8 with ^8
-            .replace("⁹", "^9") // Replace superscript 9 with ^9
-            .replace("⁰", "^0") // Replace superscript 0 with ^0
+        let mut result = String::with_capacity(pretty_type.len());
+        let mut in_exponent = false;
+        for ch in pretty_type.chars() {
+            let plain = match ch {
+                'ˀ' => Some(None), // Replace superscript question mark with just ^
+                '⁻' => Some(Some('-')),
+                '⁰' => Some(Some('0')),
+                '¹' => Some(Some('1')),
+                '²' => Some(Some('2')),
+                '³' => Some(Some('3')),
+                '⁴' => Some(Some('4')),
+                '⁵' => Some(Some('5')),
+                '⁶' => Some(Some('6')),
+                '⁷' => Some(Some('7')),
+                '⁸' => Some(Some('8')),
+                '⁹' => Some(Some('9')),
+                _ => None,
+            };
+            match plain {
+                Some(digit) => {
+                    // One caret for the whole run of superscripts
+                    if !in_exponent {
+                        result.push('^');
+                    }
+                    result.extend(digit);
+                }
+                None => result.push(ch),
+            }
+            in_exponent = plain.is_some();
+        }
+        result
     }
 
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
-- 
2.43.0


From 0567f16e9b8b695bafece5b66d125ddc7aeb8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 16/39] fix: finding the end of a Scale no longer mixes
 character and byte positions

---
 lsp-proxy/src/unit_formatter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 0c6e5c4..3aadf5f 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -506,13 +506,13 @@ impl UnitFormatter {
 
     /// Find the matching closing bracket for a given opening bracket
     fn find_matching_bracket(&self, content: &str, start_pos: usize) -> Option<usize> {
+        // Byte positions, as the callers slice with the result
         let mut depth = 1;
-        let mut i = start_pos;
 
-        while i < content.len() {
-            match content.chars().nth(i) {
-                Some('<') => depth += 1,
-                Some('>') => {
+        for (i, byte) in content.bytes().enumerate().skip(start_pos) {
+            match byte {
+                b'<' => depth += 1,
+                b'>' => {
                     depth -= 1;
                     if depth == 0 {
                         return Some(i);
@@ -520,7 +520,6 @@ impl UnitFormatter {
                 }
                 _ => {}
             }
-            i += 1;
         }
         None
     }
-- 
2.43.0


From 00d42eb53495566222424a04ab6574f7c47dd5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 17/39] fix: extracting the raw type from a hover handles text
 that is not ASCII

---
 lsp-proxy/src/unit_formatter.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 3aadf5f..7c6908e 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -610,7 +610,7 @@ impl UnitFormatter {
                 .map(|(i, _)| i);
 
             if let Some(type_end) = type_end {
-                if after_colon.chars().nth(type_end) == Some('<') {
+                if after_colon[type_end..].starts_with('<') {
                     // We found a generic type, extract the full declaration
                     // Find the start of the variable declaration by looking backwards for 'let'
                     let mut var_start = start;
@@ -618,8 +618,7 @@ impl UnitFormatter {
 
                     // Look backwards to find the start of the declaration
                     while var_start > 0 {
-                        let char_before =
-                            hover_text[var_start - 1..var_start].chars().next().unwrap();
+                        let char_before = hover_text[..var_start].chars().next_back().unwrap();
                         if char_before.is_whitespace() {
                             // Check if we've found "let" or "let mut"
                             let potential_start = var_start;
@@ -642,7 +641,7 @@ impl UnitFormatter {
                                 }
                             }
                         }
-                        var_start -= 1;
+                        var_start -= char_before.len_utf8();
                     }
 
                     if !found_let {
-- 
2.43.0


From 60b4a0db9ebfc06f0534599ff00d0816dde5b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 18/39] fix: simplifying a trait signature no longer fails when
 the line ends after "for"

---
 lsp-proxy/src/hover_processor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lsp-proxy/src/hover_processor.rs b/lsp-proxy/src/hover_processor.rs
index 5279738..4f861cf 100644
--- a/lsp-proxy/src/hover_processor.rs
+++ b/lsp-proxy/src/hover_processor.rs
@@ -323,10 +323,11 @@ impl HoverProcessor {
                 // Extract the type after the trait
                 // Handle both "Mul<f64> for" and "Mul for" patterns
                 let trait_type = if text[trait_start..].starts_with(&trait_pattern1) {
-                    &text[trait_start + trait_pattern1.len() + 1..type_end] // +1 for space
+                    &text[trait_start + trait_pattern1.len()..type_end]
                 } else {
-                    &text[trait_start + trait_pattern2.len() + 1..type_end] // +1 for space
+                    &text[trait_start + trait_pattern2.len()..type_end]
                 };
+                let trait_type = trait_type.strip_prefix(' ').unwrap_or(trait_type);
 
                 // Create simplified signature for scalar operations
                 let simplified = format!("impl {}<f64> for {}", trait_name, trait_type);
@@ -376,7 +377,8 @@ impl HoverProcessor {
                     };
 
                 // Extract the type after the trait
-                let trait_type = &text[trait_start + trait_pattern.len() + 1..type_end]; // +1 for space
+                let trait_type = &text[trait_start + trait_pattern.len()..type_end];
+                let trait_type = trait_type.strip_prefix(' ').unwrap_or(trait_type);
 
                 // Create simplified signature for reverse scalar operations
                 let simplified = format!("impl {}<Quantity<...>> for {}", trait_name, trait_type);
-- 
2.43.0


From f9c9e1e3b62888cfe3ddf91868ea9cfddbe3c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 19/39] fix: the compiler output printer keeps line endings and
 the final newline

---
 whippyunits-pretty/src/rustc_pretty.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/whippyunits-pretty/src/rustc_pretty.rs b/whippyunits-pretty/src/rustc_pretty.rs
index 4eb5e46..e327173 100644
--- a/whippyunits-pretty/src/rustc_pretty.rs
+++ b/whippyunits-pretty/src/rustc_pretty.rs
@@ -23,15 +23,17 @@ impl RustcPrettyPrinter {
 
     /// Process a complete rustc output string
     pub fn process_rustc_output(&mut self, output: &str) -> Result<String> {
-        let lines: Vec<&str> = output.lines().collect();
-        let mut processed_lines = Vec::new();
-
-        for line in lines {
-            let processed = self.process_line(line)?;
-            processed_lines.push(processed);
+        let mut processed = String::with_capacity(output.len());
+
+        for line in output.split_inclusive('\n') {
+            // Keep every line ending as it was
+            let text = line.strip_suffix('\n').unwrap_or(line);
+            let text = text.strip_suffix('\r').unwrap_or(text);
+            processed.push_str(&self.process_line(text)?);
+            processed.push_str(&line[text.len()..]);
         }
 
-        Ok(processed_lines.join("\n"))
+        Ok(processed)
     }
 
     /// Process a single line of rustc output
-- 
2.43.0


From 72f7865eb36a8c1e7163a92959787316336a00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 20/39] fix: a hover keeps the whitespace around its code block

---
 lsp-proxy/src/unit_formatter.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 7c6908e..fcf2a98 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -103,12 +103,8 @@ impl UnitFormatter {
                         )
                     }
                 } else {
-                    format!(
-                        "{}\n{}\n```{}",
-                        before_code,
-                        formatted_content.trim(),
-                        after_code_block
-                    )
+                    // Replace the types and leave all other text as it is
+                    format!("{}{}```{}", before_code, formatted_content, after_code_block)
                 };
 
                 return result;
-- 
2.43.0


From d329f46776738df20cf704fb33c7f6a3d7332f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 21/39] fix: a hover's types are formatted in every code block

---
 lsp-proxy/src/unit_formatter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index fcf2a98..5f6b5f6 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -103,8 +103,14 @@ impl UnitFormatter {
                         )
                     }
                 } else {
-                    // Replace the types and leave all other text as it is
-                    format!("{}{}```{}", before_code, formatted_content, after_code_block)
+                    // Replace the types, in this and any further code block, and leave all other
+                    // text as it is
+                    self.format_quantity_types(
+                        original_text,
+                        config.verbose,
+                        config.unicode,
+                        false,
+                    )
                 };
 
                 return result;
-- 
2.43.0


From 1c45837755dc9adcf123fc2bda866bb78c34d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 22/39] fix: a type whose parameters are not all numbers is
 left as it is

---
 lsp-proxy/src/unit_formatter.rs | 175 +++++++-------------------------
 1 file changed, 34 insertions(+), 141 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 5f6b5f6..d6373c1 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -333,10 +333,8 @@ impl UnitFormatter {
     /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
     fn parse_new_quantity_params(&self, quantity_type: &str) -> Option<QuantityParams> {
         // Parse Scale parameters - handle all possible combinations of defaulted parameters
-        let scale = if quantity_type.contains("Scale<") {
-            // Any Scale format with parameters - handle all combinations of defaulted values
-            let (p2, p3, p5, pi) = self.parse_scale_general_format(quantity_type)?;
-            ScaleExponents([p2, p3, p5, pi])
+        let scale = if let Some(args) = self.find_struct_args(quantity_type, "Scale<") {
+            ScaleExponents(self.parse_named_params(args?, ["_2", "_3", "_5", "_Pi"])?)
         } else if quantity_type.contains("Scale,") {
             // Truncated format: Scale, or Scale> or Scale, Dimension (all parameters default to 0)
             ScaleExponents::IDENTITY
@@ -345,22 +343,17 @@ impl UnitFormatter {
             return None;
         };
 
-        // Parse Dimension parameters - handle both full format and truncated format
-        let dimensions = if quantity_type.contains("Dimension<_M<") && quantity_type.contains("_A<")
-        {
-            // Full format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_full_format(quantity_type)?;
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
+        // Parse Dimension parameters - full format or truncated to the leading parameters
+        let dimensions = if let Some(args) = self.find_struct_args(quantity_type, "Dimension<") {
+            DynDimensionExponents(
+                self.parse_named_params(args?, ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"])?,
+            )
         } else if quantity_type.contains("Dimension,") || quantity_type.contains("Dimension>") {
             // Fully defaulted Dimension (dimensionless): Dimension, T or Dimension> T
             DynDimensionExponents::ZERO
         } else {
-            // Truncated format: parse only the non-zero parameters
-            // Look for patterns like Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_truncated_format(quantity_type);
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
+            // Unknown format
+            return None;
         };
 
         // Don't apply base scale offset here - let the prettyprint functions handle it
@@ -378,132 +371,32 @@ impl UnitFormatter {
         })
     }
 
-    /// Parse general Scale format: Scale<_2[<P2>], _3[<P3>], _5[<P5>], _Pi[<PI>]>
-    /// Handles all possible combinations of defaulted parameters
-    /// Parameters can be either _2<value> (explicit) or _2 (defaulted to 0)
-    fn parse_scale_general_format(&self, quantity_type: &str) -> Option<(i16, i16, i16, i16)> {
-        let scale_start = quantity_type.find("Scale<")?;
-        let scale_content = &quantity_type[scale_start + 6..]; // Skip "Scale<"
-
-        // Find the end of the Scale struct
-        let scale_end = self.find_matching_bracket(scale_content, 0)?;
-        let scale_params = &scale_content[..scale_end];
-
-        // Parse each parameter, handling both explicit values and defaults
-        let p2 = self.parse_scale_param_with_default(scale_params, "_2");
-        let p3 = self.parse_scale_param_with_default(scale_params, "_3");
-        let p5 = self.parse_scale_param_with_default(scale_params, "_5");
-        let pi = self.parse_scale_param_with_default(scale_params, "_Pi");
-
-        Some((p2, p3, p5, pi))
-    }
-
-    /// Parse a scale parameter that may be either explicit (_2<value>) or defaulted (_2)
-    fn parse_scale_param_with_default(&self, content: &str, prefix: &str) -> i16 {
-        // First try to find explicit value: _2<value>
-        if let Some(value) = self.parse_scale_param(content, &format!("{}<", prefix)) {
-            value
-        } else {
-            // Check if parameter exists in defaulted form: _2 (without <value>)
-            if content.contains(&format!("{},", prefix)) || content.ends_with(prefix) {
-                0 // Default value
-            } else {
-                0 // Parameter not found, default to 0
-            }
-        }
-    }
-
-    /// Parse full Dimension format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-    fn parse_dimension_full_format(
-        &self,
-        quantity_type: &str,
-    ) -> Option<(i16, i16, i16, i16, i16, i16, i16, i16)> {
-        let dimension_start = quantity_type.find("Dimension<_M<")?;
-        let dimension_content = &quantity_type[dimension_start + 9..]; // Skip "Dimension<"
-
-        // Parse individual parameters directly from the dimension content
-        // We don't need to find the end of the Dimension struct - we can parse each parameter individually
-        let mass = self.parse_dimension_param(dimension_content, "_M<")?;
-        let length = self.parse_dimension_param(dimension_content, "_L<")?;
-        let time = self.parse_dimension_param(dimension_content, "_T<")?;
-        let current = self.parse_dimension_param(dimension_content, "_I<")?;
-        let temp = self.parse_dimension_param(dimension_content, "_Θ<")?;
-        let amount = self.parse_dimension_param(dimension_content, "_N<")?;
-        let lum = self.parse_dimension_param(dimension_content, "_J<")?;
-        let angle = self.parse_dimension_param(dimension_content, "_A<")?;
-
-        Some((mass, length, time, current, temp, amount, lum, angle))
+    /// Find the generic arguments of a struct given as "Scale<" or "Dimension<".
+    /// The inner option is None if the closing bracket is missing.
+    fn find_struct_args<'a>(&self, quantity_type: &'a str, name: &str) -> Option<Option<&'a str>> {
+        let start = quantity_type.find(name)? + name.len();
+        let content = &quantity_type[start..];
+        Some(self.find_matching_bracket(content, 0).map(|end| &content[..end]))
     }
 
-    /// Parse truncated Dimension format: Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-    fn parse_dimension_truncated_format(
+    /// Parse parameters like "_M<1>, _L<_>, _T", each either explicit (_M<value>) or defaulted (_T).
+    /// Returns None if a parameter is not one of the names or its value is not a number (or "_"),
+    /// as the type's unit is then unknown.
+    fn parse_named_params<const N: usize>(
         &self,
-        quantity_type: &str,
-    ) -> (i16, i16, i16, i16, i16, i16, i16, i16) {
-        let mut mass_exp = 0;
-        let mut length_exp = 0;
-        let mut time_exp = 0;
-        let mut electric_current_exp = 0;
-        let mut temperature_exp = 0;
-        let mut amount_of_substance_exp = 0;
-        let mut luminous_intensity_exp = 0;
-        let mut angle_exp = 0;
-
-        // Parse individual dimension parameters that are present
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_M<") {
-            mass_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_L<") {
-            length_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_T<") {
-            time_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_I<") {
-            electric_current_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_Θ<") {
-            temperature_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_N<") {
-            amount_of_substance_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_J<") {
-            luminous_intensity_exp = value;
+        args: &str,
+        names: [&str; N],
+    ) -> Option<[i16; N]> {
+        let mut values = [0; N];
+        for arg in args.split(',').map(str::trim).filter(|arg| !arg.is_empty()) {
+            let (path, value) = match arg.split_once('<') {
+                Some((path, value)) => (path, self.parse_parameter(value.strip_suffix('>')?)?),
+                None => (arg, 0),
+            };
+            let name = path.rsplit("::").next()?;
+            values[names.iter().position(|n| *n == name)?] = value;
         }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_A<") {
-            angle_exp = value;
-        }
-
-        (
-            mass_exp,
-            length_exp,
-            time_exp,
-            electric_current_exp,
-            temperature_exp,
-            amount_of_substance_exp,
-            luminous_intensity_exp,
-            angle_exp,
-        )
-    }
-
-    /// Parse a scale parameter like "_2<5>" and return the value
-    fn parse_scale_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        Some(self.parse_parameter(param_value))
-    }
-
-    /// Parse a dimension parameter like "_M<1>" and return the value
-    fn parse_dimension_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        let result = self.parse_parameter(param_value);
-        Some(result)
+        Some(values)
     }
 
     /// Find the matching closing bracket for a given opening bracket
@@ -589,11 +482,11 @@ impl UnitFormatter {
     }
 
     /// Parse a parameter that could be a number or underscore placeholder
-    fn parse_parameter(&self, param: &str) -> i16 {
+    fn parse_parameter(&self, param: &str) -> Option<i16> {
         if param == "_" {
-            i16::MIN // Unknown placeholder
+            Some(i16::MIN) // Unknown placeholder
         } else {
-            param.parse().unwrap_or(0)
+            param.parse().ok()
         }
     }
 
-- 
2.43.0


From da34f116bc9904beda860fc8577277e69747e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 23/39] fix: a rewritten hover keeps every field the server
 sent and adds none

---
 lsp-proxy/src/lsp_structures.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lsp-proxy/src/lsp_structures.rs b/lsp-proxy/src/lsp_structures.rs
index 722d71c..b832296 100644
--- a/lsp-proxy/src/lsp_structures.rs
+++ b/lsp-proxy/src/lsp_structures.rs
@@ -1,14 +1,19 @@
 use serde::{Deserialize, Serialize};
-use serde_json::Value;
+use serde_json::{Map, Value};
 
 /// LSP Message structure
 #[derive(Debug, Serialize, Deserialize)]
 pub struct LspMessage {
     pub jsonrpc: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub id: Option<Value>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub method: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub params: Option<Value>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub result: Option<Value>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<Value>,
 }
 
@@ -16,7 +21,11 @@ pub struct LspMessage {
 #[derive(Debug, Serialize, Deserialize)]
 pub struct HoverContent {
     pub contents: HoverContents,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub range: Option<Value>,
+    /// Everything else the server sent (rust-analyzer's hover actions)
+    #[serde(flatten)]
+    pub other: Map<String, Value>,
 }
 
 #[derive(Debug, Serialize, Deserialize)]
@@ -28,7 +37,9 @@ pub enum HoverContents {
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct HoverContentItem {
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub language: Option<String>,
     pub value: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 }
-- 
2.43.0


From 7abbfe4088f31b31e9b0eada2cc3bcd3069b8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 24/39] fix: a unit literal is taken only for the unit's exact
 scale, so other scales keep their prefix

---
 whippyunits-core/src/storage_unit.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..8c84cd2 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -251,23 +251,12 @@ pub fn lookup_unit_literal_by_scale_factors(
     ]);
 
     if let Some(dimension) = Dimension::find_dimension_by_exponents(dyn_exponents) {
-        // First, try to find a unit that matches the exact scale factors
-        // This is the preferred approach - use exact matches when possible
-        if let Some(exact_unit) = dimension.units.iter().find(|unit| {
-            unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
-        }) {
-            return Some(if long_name {
-                exact_unit.name
-            } else {
-                exact_unit.symbols[0]
-            });
-        }
-
-        // If no exact match found, fall back to base unit (identity scale)
+        // Only an exact match denotes the unit: any other unit of the dimension
+        // would need a prefix or a factor on top of its name.
         dimension
             .units
             .iter()
-            .find(|unit| unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0)
+            .find(|unit| unit.scale == scale_factors && unit.conversion_factor == 1.0) // Only consider pure SI units, not imperial units
             .map(|unit| {
                 if long_name {
                     unit.name
-- 
2.43.0


From f3465073d1e2613b622f839e1ef5f01c0535b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 25/39] fix: a base unit's own scale is matched with its
 exponent, and by one base unit only

---
 whippyunits-core/src/storage_unit.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 8c84cd2..5d437e9 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -596,6 +596,8 @@ pub fn generate_systematic_composite_unit_name_with_scale(
     // Generate unit parts for each dimension using simple string concatenation
     let mut result = String::new();
     let mut first = true;
+    // The scale belongs to at most one of the base units: once one accounts for it, the others are unscaled
+    let mut remaining_scale = scale_factors;
 
     for (index, &exp) in exponents.iter().enumerate() {
         if exp == 0 {
@@ -607,13 +609,22 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         let (unit_name, unit_symbol, base_scale_offset) =
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
-                let matched_unit = if let Some(scale) = scale_factors {
+                let matched_unit = if let Some(scale) = remaining_scale {
                     // For compound units, try to match the aggregate scale factors
                     // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
                     dimension
                         .units
                         .iter()
-                        .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
+                        .find(|unit| {
+                            // the unit appears to the power `exp`
+                            unit.conversion_factor == 1.0
+                                && unit.scale.0.iter().zip(scale.0).all(
+                                    |(&unit_power, power)| {
+                                        unit_power as i32 * exp as i32 == power as i32
+                                    },
+                                )
+                        })
+                        .inspect(|_| remaining_scale = Some(ScaleExponents::IDENTITY))
                         // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
                         .or_else(|| {
                             if scale == ScaleExponents::IDENTITY {
-- 
2.43.0


From c2c0aa0db5fae85af23b71bd28edf4b47c824f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 26/39] fix: a prefix in front of a unit with any exponent is
 set off by parentheses

---
 whippyunits-core/src/storage_unit.rs | 76 ++++++++++++++--------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 5d437e9..b24fa31 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -331,6 +331,11 @@ pub fn lookup_dimension_name(exponents: Vec<i16>) -> Option<DimensionNames> {
     })
 }
 
+/// Whether a unit carries an exponent, so that a prefix in front of it would be raised along with it
+fn has_exponent(unit: &str) -> bool {
+    unit.contains(['^', '⁻', '⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'])
+}
+
 /// Generate prefixed systematic unit
 pub fn generate_prefixed_systematic_unit(
     _exponents: DynDimensionExponents,
@@ -369,9 +374,7 @@ pub fn generate_prefixed_systematic_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
+        if !base_unit.contains("·") && has_exponent(base_unit) {
             format!("{}({})", prefix, base_unit)
         } else {
             format!("{}{}", prefix, base_unit)
@@ -432,11 +435,7 @@ pub fn generate_prefixed_si_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
+        if !base_si_unit.contains("·") && has_exponent(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
         } else {
             format!("{}{}", prefix, base_si_unit)
@@ -609,36 +608,37 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         let (unit_name, unit_symbol, base_scale_offset) =
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
-                let matched_unit = if let Some(scale) = remaining_scale {
-                    // For compound units, try to match the aggregate scale factors
-                    // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
-                    dimension
-                        .units
-                        .iter()
-                        .find(|unit| {
-                            // the unit appears to the power `exp`
-                            unit.conversion_factor == 1.0
-                                && unit.scale.0.iter().zip(scale.0).all(
-                                    |(&unit_power, power)| {
-                                        unit_power as i32 * exp as i32 == power as i32
-                                    },
-                                )
-                        })
-                        .inspect(|_| remaining_scale = Some(ScaleExponents::IDENTITY))
-                        // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
-                        .or_else(|| {
-                            if scale == ScaleExponents::IDENTITY {
-                                None // Already tried identity above
-                            } else {
-                                dimension.units.iter().find(|unit| {
-                                    unit.scale == ScaleExponents::IDENTITY
-                                        && unit.conversion_factor == 1.0
-                                })
-                            }
-                        })
-                } else {
-                    None
-                };
+                let matched_unit =
+                    if let Some(scale) = remaining_scale {
+                        // For compound units, try to match the aggregate scale factors
+                        // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
+                        dimension
+                            .units
+                            .iter()
+                            .find(|unit| {
+                                // the unit appears to the power `exp`
+                                unit.conversion_factor == 1.0
+                                    && unit.scale.0.iter().zip(scale.0).all(
+                                        |(&unit_power, power)| {
+                                            unit_power as i32 * exp as i32 == power as i32
+                                        },
+                                    )
+                            })
+                            .inspect(|_| remaining_scale = Some(ScaleExponents::IDENTITY))
+                            // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
+                            .or_else(|| {
+                                if scale == ScaleExponents::IDENTITY {
+                                    None // Already tried identity above
+                                } else {
+                                    dimension.units.iter().find(|unit| {
+                                        unit.scale == ScaleExponents::IDENTITY
+                                            && unit.conversion_factor == 1.0
+                                    })
+                                }
+                            })
+                    } else {
+                        None
+                    };
 
                 if let Some(unit) = matched_unit.or_else(|| dimension.units.first()) {
                     let base_scale_offset = unit.scale.log10().unwrap_or(0);
-- 
2.43.0


From 736e61e6632edb7be013bfb73ae1cabe71ec0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 27/39] fix: the scale shown next to a unit name is relative to
 that unit's own scale

---
 whippyunits-core/src/storage_unit.rs | 114 +++++++++++----------------
 1 file changed, 44 insertions(+), 70 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index b24fa31..4198862 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -336,43 +336,43 @@ fn has_exponent(unit: &str) -> bool {
     unit.contains(['^', '⁻', '⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'])
 }
 
+/// The part of a scale that a unit's name, already worth 10^`offset`, leaves to be expressed
+fn scale_beyond(scale: ScaleExponents, offset: i16) -> ScaleExponents {
+    let [p2, p3, p5, pi] = scale.0;
+    ScaleExponents([p2.saturating_sub(offset), p3, p5.saturating_sub(offset), pi])
+}
+
 /// Generate prefixed systematic unit
 pub fn generate_prefixed_systematic_unit(
-    _exponents: DynDimensionExponents,
+    exponents: DynDimensionExponents,
     scale_factors: ScaleExponents,
     base_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
     // Check if this is a pure unit (not compound)
     let is_pure_unit = !base_unit.contains("·");
 
-    // For pure units, check if we need to apply base scale offset
-    let effective_scale_p10 = if is_pure_unit {
-        // Find the base scale offset by looking up the unit's scale from whippyunits-core
-        // The base_unit comes from systematic unit name generation, so it should always be valid
-        let base_scale_offset = Dimension::find_unit_by_symbol(base_unit)
-            .or_else(|| Dimension::find_unit_by_name(base_unit))
-            .map(|(_unit, _dimension)| _unit.scale.log10().unwrap_or(0))
-            .unwrap_or(0);
-
-        // Apply the base scale offset to the scale calculation
-        // The base scale offset represents the offset of the base unit (e.g., gram = -3)
-        // We need to subtract it from the total scale to get the effective scale
-        total_scale_p10 - base_scale_offset
+    // For pure units, the base unit's own scale (e.g. gram = -3), raised to its exponent, is
+    // already expressed by the unit's name
+    let base_scale_offset = if is_pure_unit {
+        exponents
+            .0
+            .iter()
+            .zip(Dimension::BASIS)
+            .find(|&(&exp, _)| exp != 0)
+            .and_then(|(&exp, dimension)| dimension.units.first()?.scale.log10()?.checked_mul(exp))
+            .unwrap_or(0)
     } else {
         // For compound units, don't apply base scale offset to the aggregate prefix
         // The individual parts already have their base scale offsets applied
-        total_scale_p10
+        0
     };
+    let effective_scale = scale_beyond(scale_factors, base_scale_offset);
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    if let Some(prefix) = effective_scale
+        .log10()
+        .and_then(|p10| get_si_prefix(p10, long_name))
+    {
         // For pure powers of base units, add disambiguating parentheses
         if !base_unit.contains("·") && has_exponent(base_unit) {
             format!("{}({})", prefix, base_unit)
@@ -380,19 +380,16 @@ pub fn generate_prefixed_systematic_unit(
             format!("{}{}", prefix, base_unit)
         }
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
+        if let Some(effective_scale_p10) = effective_scale.log10() {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
         } else {
             // Not a pure power of 10, show the scale factors explicitly
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
+                effective_scale.0[0],
+                effective_scale.0[1],
+                effective_scale.0[2],
+                effective_scale.0[3],
             );
             if scale_factors_str.is_empty() {
                 base_unit.to_string()
@@ -409,31 +406,17 @@ pub fn generate_prefixed_si_unit(
     base_si_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
-    // Apply base scale offset for mass units (same logic as generate_prefixed_systematic_unit)
-    let effective_scale_p10 =
-        if let Some((_unit, _dimension)) = Dimension::find_unit_by_symbol(base_si_unit) {
-            // Get the base scale offset from the unit's scale (systematic approach)
-            let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-            total_scale_p10 - base_scale_offset
-        } else {
-            // Fallback: try to find by name if symbol lookup fails
-            if let Some((_unit, _dimension)) = Dimension::find_unit_by_name(base_si_unit) {
-                let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-                total_scale_p10 - base_scale_offset
-            } else {
-                // No base scale offset found, use total scale as-is
-                total_scale_p10
-            }
-        };
-
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    // The unit's own scale is already expressed by its name (same logic as generate_prefixed_systematic_unit)
+    let base_scale_offset = Dimension::find_unit_by_symbol(base_si_unit)
+        .or_else(|| Dimension::find_unit_by_name(base_si_unit))
+        .and_then(|(unit, _dimension)| unit.scale.log10())
+        .unwrap_or(0);
+    let effective_scale = scale_beyond(scale_factors, base_scale_offset);
+
+    if let Some(prefix) = effective_scale
+        .log10()
+        .and_then(|p10| get_si_prefix(p10, long_name))
+    {
         // For pure powers of base units, add disambiguating parentheses
         if !base_si_unit.contains("·") && has_exponent(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
@@ -441,19 +424,16 @@ pub fn generate_prefixed_si_unit(
             format!("{}{}", prefix, base_si_unit)
         }
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
+        if let Some(effective_scale_p10) = effective_scale.log10() {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
         } else {
             // Not a pure power of 10, show the scale factors explicitly
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
+                effective_scale.0[0],
+                effective_scale.0[1],
+                effective_scale.0[2],
+                effective_scale.0[3],
             );
             if scale_factors_str.is_empty() {
                 base_si_unit.to_string()
@@ -464,12 +444,6 @@ pub fn generate_prefixed_si_unit(
     }
 }
 
-/// Calculate total power of 10 using whippyunits-core ScaleExponents
-fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
-    let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
-    scale_exponents.log10().unwrap_or(0)
-}
-
 /// Generate SI unit with 10^n notation when no standard prefix is available
 fn generate_si_unit_with_scale(
     total_scale_p10: i16,
-- 
2.43.0


From 66071bfff38803ebd99ba4f6339d8e4c93b1b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 28/39] fix: scale factors are right for exponents beyond the
 lookup tables

The tables fell back to a factor of one, and the difference of two
exponents was taken in i16.
---
 proc-macros/src/pow_lookup_macro.rs | 56 ++++++++++++++++++++++++-----
 src/api.rs                          | 32 ++++++++---------
 2 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..c4b4d0c 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -84,9 +84,20 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: powers outside the table are multiplied out
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => {
+                let mut power: i128 = 1;
+                let mut remaining = exp.unsigned_abs();
+                while remaining > 0 {
+                    power = match power.checked_mul(#base) {
+                        Some(next) => next,
+                        None => panic!("scale exponent out of range"),
+                    };
+                    remaining -= 1;
+                }
+                if exp > 0 { (power, 1) } else { (1, power) }
+            }
         });
 
         let func_name = &self.name;
@@ -123,9 +134,17 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: powers outside the table are multiplied out
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            _ => {
+                let mut power: f64 = 1.0;
+                let mut remaining = exp.unsigned_abs();
+                while remaining > 0 {
+                    power *= #base;
+                    remaining -= 1;
+                }
+                if exp > 0 { power } else { 1.0 / power }
+            }
         });
 
         let func_name = &self.name;
@@ -238,9 +257,22 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: powers outside the table are multiplied out
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => {
+                let mut num: i128 = 1;
+                let mut den: i128 = 1;
+                let mut remaining = exp.unsigned_abs();
+                while remaining > 0 {
+                    num = match num.checked_mul(355) {
+                        Some(next) => next,
+                        None => panic!("scale exponent out of range"),
+                    };
+                    den *= 113;
+                    remaining -= 1;
+                }
+                if exp > 0 { (num, den) } else { (den, num) }
+            }
         });
 
         let func_name = &self.name;
@@ -290,9 +322,17 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: powers outside the table are multiplied out
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            _ => {
+                let mut power: f64 = 1.0;
+                let mut remaining = exp.unsigned_abs();
+                while remaining > 0 {
+                    power *= core::f64::consts::PI;
+                    remaining -= 1;
+                }
+                if exp > 0 { power } else { 1.0 / power }
+            }
         });
 
         let func_name = &self.name;
diff --git a/src/api.rs b/src/api.rs
index ff7228e..a4f9244 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -148,17 +148,17 @@ define_aggregate_scale_factor_rational!(
     ),
     // diff expressions
     (
-        let diff_scale_p2 = scale_p2_from - scale_p2_to;
-        let diff_scale_p3 = scale_p3_from - scale_p3_to;
-        let diff_scale_p5 = scale_p5_from - scale_p5_to;
-        let diff_scale_pi = scale_pi_from - scale_pi_to;
+        let diff_scale_p2 = scale_p2_from as i32 - scale_p2_to as i32;
+        let diff_scale_p3 = scale_p3_from as i32 - scale_p3_to as i32;
+        let diff_scale_p5 = scale_p5_from as i32 - scale_p5_to as i32;
+        let diff_scale_pi = scale_pi_from as i32 - scale_pi_to as i32;
     ),
     // pow expressions
     (
-        let (num2, den2) = pow2(diff_scale_p2 as i32);
-        let (num3, den3) = pow3(diff_scale_p3 as i32);
-        let (num5, den5) = pow5(diff_scale_p5 as i32);
-        let (num_pi, den_pi) = pow_pi(diff_scale_pi as i32);
+        let (num2, den2) = pow2(diff_scale_p2);
+        let (num3, den3) = pow3(diff_scale_p3);
+        let (num5, den5) = pow5(diff_scale_p5);
+        let (num_pi, den_pi) = pow_pi(diff_scale_pi);
     ),
     // num and den expressions
     (num2 * num3 * num5 * num_pi),
@@ -173,17 +173,17 @@ define_aggregate_scale_factor_float!(
     ),
     // diff expressions
     (
-        let diff_scale_p2 = scale_p2_from - scale_p2_to;
-        let diff_scale_p3 = scale_p3_from - scale_p3_to;
-        let diff_scale_p5 = scale_p5_from - scale_p5_to;
-        let diff_scale_pi = scale_pi_from - scale_pi_to;
+        let diff_scale_p2 = scale_p2_from as i32 - scale_p2_to as i32;
+        let diff_scale_p3 = scale_p3_from as i32 - scale_p3_to as i32;
+        let diff_scale_p5 = scale_p5_from as i32 - scale_p5_to as i32;
+        let diff_scale_pi = scale_pi_from as i32 - scale_pi_to as i32;
     ),
     // pow expressions
     (
-        let pow_2 = crate::scale_conversion::pow2_float(diff_scale_p2 as i32);
-        let pow_3 = crate::scale_conversion::pow3_float(diff_scale_p3 as i32);
-        let pow_5 = crate::scale_conversion::pow5_float(diff_scale_p5 as i32);
-        let pow_pi = crate::scale_conversion::pow_pi_float(diff_scale_pi as i32);
+        let pow_2 = crate::scale_conversion::pow2_float(diff_scale_p2);
+        let pow_3 = crate::scale_conversion::pow3_float(diff_scale_p3);
+        let pow_5 = crate::scale_conversion::pow5_float(diff_scale_p5);
+        let pow_pi = crate::scale_conversion::pow_pi_float(diff_scale_pi);
     ),
     // final expression
     (pow_2 * pow_3 * pow_5 * pow_pi),
-- 
2.43.0


From b34f5f8d41262e617c258ffd7acf95192e1f7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 29/39] fix: a trailing exponent on a non-ASCII or raw
 identifier no longer panics
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The position of the first digit was counted in characters and used as a
byte index ("Ω2"), and the name of a raw identifier was passed to
Ident::new ("r#m2").
---
 whippyunits-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..bdd34e9 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -176,8 +177,8 @@ impl UnitExpr {
             let ident: Ident = input.parse()?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
-            let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            let ident_str = ident.unraw().to_string();
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From c4a356b99a56cb9969e9792570f929e61cafc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 30/39] fix: unit names that are Rust keywords can be parsed
 ("5 in")

---
 whippyunits-core/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index bdd34e9..82cc3cb 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -174,7 +174,8 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // Unit names may be Rust keywords ("in" is the inch)
+            let ident: Ident = input.call(Ident::parse_any)?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.unraw().to_string();
-- 
2.43.0


From ca1ca0c5d195821d0843d6763f54d43de2ef76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 31/39] fix: unit expressions refuse numbers that would be
 ignored

Only 1 and powers of 10 mean anything in a unit expression; any other
number, a suffix running into a number ("m^2s") and exponents that do not
fit were silently dropped or truncated.
---
 whippyunits-core/src/parser.rs | 72 +++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 82cc3cb..ffb09ca 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -110,12 +110,24 @@ impl UnitExpr {
         }
     }
 
+    /// The value of an integer that fits an exponent and has no suffix ("2s" is not 2)
+    fn plain_integer(lit: &LitInt) -> Result<i16> {
+        if !lit.suffix().is_empty() {
+            return Err(syn::Error::new(
+                lit.span(),
+                "a number in a unit expression must not run into a name",
+            ));
+        }
+        lit.base10_parse()
+    }
+
     fn parse_power(input: ParseStream) -> Result<Self> {
         let base = Self::parse_atom(input)?;
 
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            Self::plain_integer(&exponent)?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -130,48 +142,36 @@ impl UnitExpr {
         } else if input.peek(syn::LitInt) {
             // Handle numeric literals like "1" in "1 / m" or "10" in "10^4 m"
             let lit: syn::LitInt = input.parse()?;
-            let base_value: i32 = lit.base10_parse()?;
+            let base_value = Self::plain_integer(&lit)?;
+            if base_value != 1 && base_value != 10 {
+                // Any other number would silently be taken for 1
+                return Err(syn::Error::new(
+                    lit.span(),
+                    "the only numbers in a unit expression are 1 and powers of 10",
+                ));
+            }
 
             // Check if this is followed by a caret (^) for power notation
-            if input.peek(Caret) {
+            let exponent: i16 = if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                Self::plain_integer(&exponent_lit)?
+            } else {
+                1
+            };
 
-                // Handle power-of-10 expressions like "10^4"
-                if base_value == 10 {
-                    // This is a power-of-10 scale factor
-                    // We need to create a special unit that represents this scale
-                    // For now, we'll create a unit with the appropriate scale factor
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
-                    }))
-                } else {
-                    // For other bases, treat as regular power expression
-                    Ok(UnitExpr::Pow(
-                        Box::new(UnitExpr::Unit(UnitExprUnit {
-                            name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
-                            exponent: 1,
-                        })),
-                        exponent_lit,
-                    ))
-                }
+            if base_value == 10 {
+                // Handle power-of-10 scale factors like "10^4", or "10" as "10^1"
+                Ok(UnitExpr::Unit(UnitExprUnit {
+                    name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
+                    exponent,
+                }))
             } else {
-                // Regular numeric literal - check if it's a power of 10
-                if base_value == 10 {
-                    // Treat "10" as "10^1" for power-of-10 scale factors
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: 1,
-                    }))
-                } else {
-                    // Other numeric literals - treat as dimensionless
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
-                        exponent: 1,
-                    }))
-                }
+                // One, to any power, is dimensionless
+                Ok(UnitExpr::Unit(UnitExprUnit {
+                    name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
+                    exponent: 1,
+                }))
             }
         } else {
             // Unit names may be Rust keywords ("in" is the inch)
-- 
2.43.0


From c4d189d808c0960efeab67e10483021fc7e73bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 32/39] fix: unknown units and overflowing exponents in text
 are errors

parse_ucum_unit evaluated an unknown name as a dimensionless unit, so that
"5 foo" was read as a dimensionless quantity and "5 m.foo" as five metres,
and exponents beyond i16 panicked or wrapped around.
---
 src/serialization.rs | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..96ce93d 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -43,8 +43,8 @@ use crate::print::prettyprint::UnitFormat;
 use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
-    SiPrefix, Unit, UnitEvaluationResult, UnitExpr, dimension_exponents::DynDimensionExponents,
-    scale_exponents::ScaleExponents,
+    SiPrefix, Unit, UnitEvaluationResult, UnitExpr, UnitExprUnit,
+    dimension_exponents::DynDimensionExponents, get_unit_info, scale_exponents::ScaleExponents,
 };
 
 /// Represents the dimension and scale exponents for a unit using proper whippyunits-core types
@@ -624,6 +624,17 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
     })?;
 
+    // An unknown name must not be read as a dimensionless unit
+    let is_known = |name: &str| {
+        name == "dimensionless" || name == "power_of_10" || get_unit_info(name).is_some()
+    };
+    // and the exponents have to fit
+    if !(unit_expr.collect_unit_identifiers().iter()).all(|name| is_known(&name.to_string()))
+        || largest_exponent(&unit_expr) > i16::MAX as i64
+    {
+        return Err(UcumError::UnknownDimension(DynDimensionExponents::ZERO));
+    }
+
     // Evaluate the unit expression to get dimensions and scales (use tolerant mode for serialization)
     let result: UnitEvaluationResult =
         unit_expr.evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
@@ -631,6 +642,31 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
     Ok((result.dimension_exponents, result.scale_exponents))
 }
 
+/// An upper bound for the magnitude of every exponent met in evaluating a unit expression
+fn largest_exponent(unit_expr: &UnitExpr) -> i64 {
+    match unit_expr {
+        UnitExpr::Unit(unit) => {
+            let single = UnitExpr::Unit(UnitExprUnit {
+                name: unit.name.clone(),
+                exponent: 1,
+            })
+            .evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
+            (single.dimension_exponents.0.iter())
+                .chain(single.scale_exponents.0.iter())
+                .map(|exponent| (*exponent as i64 * unit.exponent as i64).abs())
+                .max()
+                .unwrap_or(0)
+        }
+        UnitExpr::Mul(a, b) | UnitExpr::Div(a, b) => {
+            largest_exponent(a).saturating_add(largest_exponent(b))
+        }
+        UnitExpr::Pow(base, exponent) => {
+            let exponent = exponent.base10_parse::<i16>().unwrap_or(i16::MAX);
+            largest_exponent(base).saturating_mul((exponent as i64).abs())
+        }
+    }
+}
+
 /// Check if two dimension vectors match (comparing both dimensions and scales)
 pub fn dimensions_match(a: &UnitDimensions, b: &UnitDimensions) -> bool {
     a.0 == b.0
-- 
2.43.0


From eaf9342a9fb5b47fee4aec04975af23177f6377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 33/39] fix: serialized quantities keep their scale and can be
 read back

The unit was written without the scale (5 km as 5 m, 5 kg as 5 g) and
compound units in a form the parser refuses. The value is now written in the
coherent unit, spelled as a unit expression.
---
 src/serialization.rs | 50 +++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 96ce93d..01e28cc 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -53,13 +53,15 @@ pub type UnitDimensions = (
     whippyunits_core::scale_exponents::ScaleExponents,
 );
 
-use crate::alloc::{String, ToString, Vec, format, vec};
+use crate::alloc::{String, ToString, Vec, format};
 use proc_macro2::TokenStream;
 use syn::parse_str;
 
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
 
-/// Convert a whippyunits quantity to UCUM unit string
+/// The coherent unit of a quantity's dimension as a UCUM unit string (e.g. `kg.m.s^-2`)
+///
+/// The quantity's scale is not part of it: serialized values are in the coherent unit.
 pub fn to_ucum_unit<
     const MASS_EXPONENT: i16,
     const LENGTH_EXPONENT: i16,
@@ -93,17 +95,34 @@ pub fn to_ucum_unit<
 where
     T: Into<f64> + Copy,
 {
-    let exponents = vec![
-        MASS_EXPONENT,
-        LENGTH_EXPONENT,
-        TIME_EXPONENT,
-        CURRENT_EXPONENT,
-        TEMPERATURE_EXPONENT,
-        AMOUNT_EXPONENT,
-        LUMINOSITY_EXPONENT,
-        ANGLE_EXPONENT,
+    let exponents = [
+        ("kg", MASS_EXPONENT),
+        ("m", LENGTH_EXPONENT),
+        ("s", TIME_EXPONENT),
+        ("A", CURRENT_EXPONENT),
+        ("K", TEMPERATURE_EXPONENT),
+        ("mol", AMOUNT_EXPONENT),
+        ("cd", LUMINOSITY_EXPONENT),
+        ("rad", ANGLE_EXPONENT),
     ];
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+    let factors: Vec<String> = exponents
+        .iter()
+        .filter(|(_, exponent)| *exponent != 0)
+        .map(|(symbol, exponent)| match exponent {
+            1 => symbol.to_string(),
+            _ => format!("{}^{}", symbol, exponent),
+        })
+        .collect();
+    if factors.is_empty() {
+        "1".to_string()
+    } else {
+        factors.join(".")
+    }
+}
+
+/// The factor from a unit of the given scale to the coherent unit that [`to_ucum_unit`] names
+fn coherent_factor(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> f64 {
+    aggregate_scale_factor_float(scale_p2, scale_p3, scale_p5, scale_pi, 0, 0, 0, 0)
 }
 
 /// Errors that can occur during UCUM serialization/deserialization
@@ -249,7 +268,9 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        // The unit is written without the scale, so the value is converted to it
+        let value =
+            self.unsafe_value.into() * coherent_factor(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI);
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +614,8 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    let value =
+        quantity.unsafe_value.into() * coherent_factor(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI);
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From 69c37bd31dce72988b38035035195c8886edc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 34/39] fix: local unit systems ignored non-SI base units
 (Minute, Hour, Degree) in compound units

---
 proc-macros/src/local_unit_type_macro.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..5b9090c 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -17,9 +17,9 @@ use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit}
 fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     use whippyunits_core::SiPrefix;
 
-    // Try to find a unit that matches the scale type name directly
+    // Try to find a unit that matches the (capitalized) scale type name directly
     for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
+        if whippyunits_core::CapitalizedFmt(unit.name).to_string() == scale_type {
             return Some(unit.symbols[0].to_string());
         }
     }
@@ -27,7 +27,7 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     // Try to find in all dimensions
     for dimension in Dimension::ALL {
         for unit in dimension.units {
-            if unit.name == scale_type {
+            if whippyunits_core::CapitalizedFmt(unit.name).to_string() == scale_type {
                 return Some(unit.symbols[0].to_string());
             }
         }
-- 
2.43.0


From 8dbb81063339fa1eab3f772d109588ede624ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 35/39] fix: non-metric units did not compile inside a local
 unit system

---
 proc-macros/src/local_unit_type_macro.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 5b9090c..d62c78c 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -55,6 +55,15 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     None
 }
 
+/// The declarator type shown for a unit: that of its storage unit where the unit itself has none
+fn documented_type_for_unit(unit_name: &str) -> Option<TokenStream> {
+    use crate::utils::shared_utils::{
+        get_declarator_type_for_unit, get_storage_unit_type_for_unit,
+    };
+
+    get_storage_unit_type_for_unit(unit_name).or_else(|| get_declarator_type_for_unit(unit_name))
+}
+
 /// Get units by their dimension exponents
 fn get_units_by_exponents(
     exponents: DynDimensionExponents,
@@ -884,9 +893,7 @@ impl LocalQuantityMacroInput {
         }
 
         // First, try to use the shared helper for units that don't get transformed in local context
-        if let Some(shared_type) =
-            crate::utils::shared_utils::get_declarator_type_for_unit(unit_name)
-        {
+        if let Some(shared_type) = documented_type_for_unit(unit_name) {
             // Check if this unit gets transformed in the local context
             if !self.unit_gets_transformed_in_local_context(unit_name) {
                 // Unit doesn't get transformed, use the shared declarator type
@@ -936,14 +943,14 @@ impl LocalQuantityMacroInput {
                         prefixed_type
                     } else {
                         // Fall back to original if no prefixed type found
-                        match crate::utils::shared_utils::get_declarator_type_for_unit(unit_name) {
+                        match documented_type_for_unit(unit_name) {
                             Some(declarator_type) => declarator_type,
                             None => quote! { () },
                         }
                     }
                 } else {
                     // No scale factor difference, use the original type
-                    match crate::utils::shared_utils::get_declarator_type_for_unit(unit_name) {
+                    match documented_type_for_unit(unit_name) {
                         Some(declarator_type) => declarator_type,
                         None => quote! { () },
                     }
@@ -960,9 +967,7 @@ impl LocalQuantityMacroInput {
                 declarator_type
             } else {
                 // Fall back to the old unit name-based approach
-                if let Some(declarator_type) =
-                    crate::utils::shared_utils::get_declarator_type_for_unit(unit_name)
-                {
+                if let Some(declarator_type) = documented_type_for_unit(unit_name) {
                     // This is a prefixed unit, we need to calculate the scale factor difference
                     // and find the appropriate transformed type
                     let scale_factor_diff = self.calculate_scale_factor_difference(dimensions);
-- 
2.43.0


From 6eef6af29e3885ae8474850440045db8852d2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 36/39] fix: unit names (meter, hour) did not compile inside a
 local unit system

---
 proc-macros/src/local_unit_type_macro.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index d62c78c..fe5e33b 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -64,6 +64,11 @@ fn documented_type_for_unit(unit_name: &str) -> Option<TokenStream> {
     get_storage_unit_type_for_unit(unit_name).or_else(|| get_declarator_type_for_unit(unit_name))
 }
 
+/// Find a unit by its symbol or, failing that, by its name
+fn find_unit_by_symbol_or_name(name: &str) -> Option<(&'static Unit, &'static Dimension)> {
+    Dimension::find_unit_by_symbol(name).or_else(|| Dimension::find_unit_by_name(name))
+}
+
 /// Get units by their dimension exponents
 fn get_units_by_exponents(
     exponents: DynDimensionExponents,
@@ -767,11 +772,11 @@ impl LocalQuantityMacroInput {
 
         // Handle as regular unit - first try direct lookup, then try prefixed units
         let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
+            if let Some((unit, dimension)) = find_unit_by_symbol_or_name(unit_name) {
                 (unit, dimension)
             } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
                 // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
+                if let Some((unit, dimension)) = find_unit_by_symbol_or_name(&base_symbol) {
                     (unit, dimension)
                 } else {
                     // Unknown unit, generate error with suggestions
-- 
2.43.0


From 8dca3c4ebd2e2bd0abf602d3c12de05f9e6018a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 37/39] fix: prefixed types are only documented for metric
 units

---
 proc-macros/src/utils/lift_trace.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/proc-macros/src/utils/lift_trace.rs b/proc-macros/src/utils/lift_trace.rs
index b8d620e..5bc9558 100644
--- a/proc-macros/src/utils/lift_trace.rs
+++ b/proc-macros/src/utils/lift_trace.rs
@@ -408,12 +408,19 @@ impl LocalContext {
         unit_name: &str,
         scale_factor_diff: i16,
     ) -> Option<TokenStream> {
+        // Get the base unit name (e.g., "kW" -> "W")
+        let base_unit_name = self.get_base_unit_name(unit_name);
+
+        // Only metric units have prefixed types
+        if Dimension::find_unit_by_symbol(&base_unit_name)
+            .is_some_and(|(unit, _)| unit.system != whippyunits_core::System::Metric)
+        {
+            return None;
+        }
+
         // Find the prefix that matches the scale factor difference
         for prefix_info in SiPrefix::ALL {
             if prefix_info.factor_log10() == scale_factor_diff {
-                // Get the base unit name (e.g., "kW" -> "W")
-                let base_unit_name = self.get_base_unit_name(unit_name);
-
                 // Try to find a prefixed version of the base unit
                 let prefixed_unit_name = format!("{}{}", prefix_info.symbol(), base_unit_name);
 
-- 
2.43.0


From 86546cf9ea431b4b392bd373989102ecd402a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 38/39] =?UTF-8?q?fix:=20define=5Fgeneric=5Fdimension!=20re?=
 =?UTF-8?q?fused=20the=20documented=20symbols=20=CE=98=20and=20J?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..73a2086 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -8,6 +8,16 @@ use whippyunits_core::Dimension;
 
 use crate::utils::dimension_suggestions::find_similar_dimensions;
 
+/// Look up a dimension by name or symbol. The dimension table spells the symbols of temperature and
+/// luminosity differently (`θ` and `Cd`), so the documented `Θ` and `J` are translated first.
+fn find_dimension(name_or_symbol: &str) -> Option<&'static Dimension> {
+    Dimension::find_dimension(match name_or_symbol {
+        "Θ" => "Temperature",
+        "J" => "Luminosity",
+        other => other,
+    })
+}
+
 // Parse dimension expressions like "Length / Time", "L / T", or "Mass * Length^2 / Time^2", "M * L^2 / T^2"
 pub enum DimensionExpr {
     Dimension(Ident),
@@ -115,7 +125,7 @@ impl DimensionExpr {
                 let name_or_symbol = ident.to_string();
 
                 // Look up dimension by name or symbol using direct API
-                if let Some(dim_info) = Dimension::find_dimension(&name_or_symbol) {
+                if let Some(dim_info) = find_dimension(&name_or_symbol) {
                     return (
                         dim_info.exponents.0[0], // mass
                         dim_info.exponents.0[1], // length
@@ -422,7 +432,7 @@ impl DefineGenericDimensionInput {
     /// Check if a dimension name is valid
     fn is_valid_dimension(dimension_name: &str) -> bool {
         // Check if it's a direct dimension match
-        Dimension::find_dimension(dimension_name).is_some()
+        find_dimension(dimension_name).is_some()
     }
 
     /// Generate error message with suggestions for an unknown dimension
-- 
2.43.0


From 9a124c16038513e8918c4b5d0217433eff4768b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 39/39] =?UTF-8?q?fix:=20define=5Fgeneric=5Fdimension!=20pa?=
 =?UTF-8?q?nicked=20on=20a=20symbol=20beyond=20ASCII=20with=20an=20exponen?=
 =?UTF-8?q?t=20(=CE=B82)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 73a2086..7e649dc 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -93,7 +93,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0

