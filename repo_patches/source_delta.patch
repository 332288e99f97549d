From 2be525fd71231cb8f207a1c56bf309a6638da6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 1/9] fix: render float-suffixed literals with their own type

---
 laby_macros/src/build.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..17adb81 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,8 +164,15 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
-            Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
-            Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
+            Lit::Int(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_digits().parse::<f32>().ok()?),
+                "f64" => render!(v.base10_digits().parse::<f64>().ok()?),
+                _ => render!(v.base10_parse::<u128>().ok()?),
+            },
+            Lit::Float(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                _ => render!(v.base10_parse::<f64>().ok()?),
+            },
 
             _ => return None,
         })
-- 
2.43.0


From ba377b122528654c3fe79cd938f8738d7713be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 2/9] fix: render raw identifier attribute names without the r#
 prefix

---
 laby_macros/src/build.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 17adb81..cdfab22 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,8 +14,8 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
-    ExprLit, Lit, Stmt,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr,
+    ExprAssign, ExprLit, Lit, Stmt,
 };
 
 pub fn build_node(element: Element, stream: TokenStream) -> syn::Result<Node> {
@@ -149,6 +149,10 @@ fn try_unwrap_ident(expr: &Expr) -> Option<&Ident> {
     }
 }
 
+fn ident_name(ident: &Ident) -> String {
+    ident.unraw().to_string()
+}
+
 fn try_render_literal(expr: &ExprLit) -> Option<String> {
     macro_rules! render {
         ($expr:expr) => {{
@@ -189,7 +193,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).map(ident_name))
     {
         node.render.push_str(value);
     } else {
@@ -225,7 +229,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).map(ident_name))
             {
                 node.render.push_str(value);
             } else {
@@ -239,7 +243,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).map(ident_name))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From d31bf670830b5fd57a917e9fc8b4a4280f886406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 3/9] fix: panic instead of wrapping when a reservation
 overflows the capacity

---
 laby_common/src/internal/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..90199cc 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -230,7 +230,11 @@ impl Buffer {
     fn reserve_internal(&mut self, size: usize) {
         debug_assert!(size <= core::isize::MAX as usize);
 
-        let new_capacity = core::cmp::max(self.capacity * 2, self.capacity + size);
+        let required = self
+            .capacity
+            .checked_add(size)
+            .expect("capacity is too large");
+        let new_capacity = core::cmp::max(self.capacity * 2, required);
         debug_assert!(new_capacity > self.capacity);
         self.data = unsafe { safe_realloc(self.data, self.capacity, new_capacity) };
         self.capacity = new_capacity;
-- 
2.43.0


From e19f75cee4ce2ee2e2882085bdd957cf785f7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 4/9] fix: select the AVX2 routine only when the CPU and OS
 support AVX2

---
 laby_common/src/internal/escape.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..a0bfd0a 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -100,11 +100,26 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
     type FnRaw = *mut ();
     static FN: AtomicPtr<()> = AtomicPtr::new(detect as FnRaw);
 
+    /// Whether the CPU has AVX2 and the operating system preserves the AVX registers.
+    ///
+    /// # Safety
+    ///
+    /// The operating system must have enabled the `xgetbv` instruction (`OSXSAVE`).
+    unsafe fn has_avx2() -> bool {
+        #[cfg(target_arch = "x86")]
+        use core::arch::x86::_xgetbv;
+        #[cfg(target_arch = "x86_64")]
+        use core::arch::x86_64::_xgetbv;
+
+        let extended = raw_cpuid::CpuId::new().get_extended_feature_info();
+        extended.map_or(false, |f| f.has_avx2()) && _xgetbv(0) & 6 == 6
+    }
+
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
         let features = raw_cpuid::CpuId::new().get_feature_info();
         let fun = if let Some(features) = features {
-            if features.has_avx() {
+            if features.has_oxsave() && unsafe { has_avx2() } {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From ca48c386619894835f618abd423daf45d22b7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 5/9] fix: compare remaining lengths instead of moving a
 pointer past the input in the SIMD debug checks

---
 laby_common/src/internal/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index a0bfd0a..575ef74 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -419,7 +419,7 @@ mod avx2 {
             ptr = ptr.add(VECTOR_BYTES);
         }
 
-        debug_assert!(ptr.add(VECTOR_BYTES) > end_ptr);
+        debug_assert!((end_ptr as usize) - (ptr as usize) < VECTOR_BYTES);
 
         if ptr < end_ptr {
             debug_assert!((end_ptr as usize - ptr as usize) < VECTOR_BYTES);
@@ -567,7 +567,7 @@ mod sse2 {
             ptr = ptr.add(VECTOR_BYTES);
         }
 
-        debug_assert!(ptr.add(VECTOR_BYTES) > end_ptr);
+        debug_assert!((end_ptr as usize) - (ptr as usize) < VECTOR_BYTES);
 
         if ptr < end_ptr {
             debug_assert!((end_ptr as usize - ptr as usize) < VECTOR_BYTES);
-- 
2.43.0


From 6e7c43640c42cbae0da840fd11dd25f4e1b16f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 6/9] fix: stop a delimited iterator at its first end

---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From 9d6c76755054e348ec28fe4da8a9e9b97f5dca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 7/9] fix: let components have a where clause

---
 laby_macros/src/component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..72e5d91 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,9 +26,12 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
     let func_name = func_sig.ident.clone();
 
+    // arguments follow the signature, and a trailing where clause would swallow them
+    func_sig.generics.where_clause = None;
+
     for arg in func.sig.inputs.iter_mut() {
         let PatType { ref mut attrs, .. } = unwrap_typed_arg(arg)?;
 
-- 
2.43.0


From cf2d39963f91581b2bdf317ddf1a547032807e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 8/9] fix: name Option absolutely in frag_match expansions

---
 laby_macros/src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index c5d9023..0754244 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -26,8 +26,8 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         let name = format_ident!("__variant_{}", decls.len() + 1);
         let ref body = arm.body;
 
-        decls.push(quote!(let mut #name = None));
-        arm.body = Box::new(parse_quote!(#name = Some(#body)));
+        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
 
@@ -47,8 +47,8 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         let mut add = |block: &mut Block| {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
-            decls.push(quote!(let mut #name = None));
-            *block = parse_quote!({ #name = Some(#block) });
+            decls.push(quote!(let mut #name = ::core::option::Option::None));
+            *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
 
-- 
2.43.0


From fd2a61d59dc292169a260614828d499424380a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 9/9] fix: evaluate the name of a boolean attribute that is
 literally false

---
 laby_macros/src/build.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index cdfab22..bfdb35d 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -237,6 +237,14 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
                 node.render
                     .push_expr(quote!(::laby::Render::render(#value, buffer)));
             }
+        } else if try_unwrap_literal(&left)
+            .and_then(try_render_literal)
+            .is_none()
+            && try_unwrap_ident(&left).is_none()
+        {
+            // a name expression is evaluated even though it is not rendered
+            let value = node.store_generic(quote!(#left), quote!(::laby::Render));
+            node.render.push_expr(quote!(let _ = #value));
         }
     } else {
         let enabled = node.store_concrete(quote!(#right), quote!(::core::primitive::bool));
-- 
2.43.0

