From 35035f5c5a4d973c462b207569c0c047af4c0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/16] fix: reject an empty RangeTo in Expectation::times

times(..0) allows no call count at all, like times(0..0), which is
refused with "Backwards range".  It used to be accepted, and made the
first call or the mock's drop compute 0 - 1.
---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..9a778f4 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1556,6 +1556,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From 6daaf2050dbb0076bed28e1157b46c25f2c7cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 02/16] fix: a never-called expectation must not stall its
 Sequence

An expectation with times(0) takes a place in its Sequence that no call
can ever satisfy, so every later member of the Sequence was refused
forever.
---
 mockall_derive/src/mock_function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..f04182e 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -972,7 +972,12 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that must never be called has nothing to
+                    // wait for.  If it took a place in the sequence, then that
+                    // place could never be passed.
+                    if self.times.maximum() > 0 {
+                        self.seq_handle = Some(__mockall_seq.next_handle());
+                    }
                     self
                 }
 
-- 
2.43.0


From e15fae62620d9814610e2a6da30a7c631caad84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 03/16] fix: return_once_st must panic, not abort, on a foreign
 thread

into_inner consumed the Fragile before checking the thread, so that the
panic dropped it on the wrong thread, which panics again and aborts the
process.
---
 mockall_derive/src/mock_function.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index f04182e..9b7f50c 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1975,7 +1975,10 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // Panic here if this is the wrong thread, because
+                            // dropping the Fragile while unwinding would abort
+                            __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0


From 7f8de94edc1a42e2f53f99fbe48d5aaa4cbe2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 04/16] fix: count and advance a Sequence in one step

Two threads that called a sequenced expectation with a call count of two or
more at the same time could both be counted before either looked whether the
expectation was satisfied by then.  Both would advance the sequence, and one
would panic with a bogus "Method sequence violation".
---
 mockall/src/lib.rs                  | 11 +++++++++++
 mockall_derive/src/mock_function.rs |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 9a778f4..946292a 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1153,6 +1153,9 @@ use std::{
           RangeToInclusive},
     sync::{
         Arc,
+        Mutex,
+        MutexGuard,
+        PoisonError,
         atomic::{AtomicUsize, Ordering}
     },
 };
@@ -1686,6 +1689,13 @@ pub struct SeqHandle {
 }
 
 impl SeqHandle {
+    /// Prevent any other call of this Sequence's expectations from being
+    /// counted until the guard is dropped.
+    // The Mutex guards no data, so its poison is meaningless.
+    pub fn lock(&self) -> MutexGuard<'_, ()> {
+        self.inner.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     /// Tell the Sequence that this expectation has been fully satisfied
     pub fn satisfy(&self) {
         self.inner.satisfy(self.seq);
@@ -1699,6 +1709,7 @@ impl SeqHandle {
 
 #[derive(Default)]
 struct SeqInner {
+    lock: Mutex<()>,
     satisfaction_level: AtomicUsize,
 }
 
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 9b7f50c..4e146da 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -954,6 +954,10 @@ impl ToTokens for Common<'_> {
 
             impl #ig Common #tg #wc {
                 fn call(&self, desc: &str) {
+                    // Counting the call and advancing the sequence must be a
+                    // single step, in case of concurrent calls.
+                    let __mockall_guard = self.seq_handle.as_ref()
+                        .map(::mockall::SeqHandle::lock);
                     self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
-- 
2.43.0


From 54c4105c0caa63f6aec4f57d74a30d64aec2ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 05/16] Guarded verification hook around the atomic counters

Only with --cfg mockall_verif.
---
 mockall/src/lib.rs | 68 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 946292a..2d69f6b 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1156,10 +1156,12 @@ use std::{
         Mutex,
         MutexGuard,
         PoisonError,
-        atomic::{AtomicUsize, Ordering}
+        atomic::Ordering
     },
 };
 
+use crate::verif::AtomicUsize;
+
 #[doc(hidden)]
 pub use downcast::{Any, Downcast};
 #[doc(hidden)]
@@ -1570,6 +1572,70 @@ impl From<RangeToInclusive<usize>> for TimesRange {
     }
 }
 
+/// Instrumentation for external verification tools.  Without
+/// `--cfg mockall_verif` this is nothing but std's `AtomicUsize`.
+#[allow(unexpected_cfgs)]
+#[doc(hidden)]
+pub mod verif {
+    #[cfg(not(mockall_verif))]
+    pub(crate) use std::sync::atomic::AtomicUsize;
+
+    #[cfg(mockall_verif)]
+    pub use instrumented::*;
+
+    #[cfg(mockall_verif)]
+    mod instrumented {
+        use std::sync::{
+            OnceLock,
+            atomic::{self, Ordering}
+        };
+
+        /// Called before every operation on an `AtomicUsize`
+        pub static HOOK: OnceLock<fn()> = OnceLock::new();
+
+        fn point() {
+            if let Some(f) = HOOK.get() {
+                f()
+            }
+        }
+
+        /// Like std's `AtomicUsize`, but calls `HOOK` before its operations.
+        #[derive(Debug, Default)]
+        pub struct AtomicUsize(atomic::AtomicUsize);
+
+        impl AtomicUsize {
+            pub const fn new(v: usize) -> Self {
+                AtomicUsize(atomic::AtomicUsize::new(v))
+            }
+
+            pub fn load(&self, o: Ordering) -> usize {
+                point();
+                self.0.load(o)
+            }
+
+            pub fn store(&self, v: usize, o: Ordering) {
+                point();
+                self.0.store(v, o)
+            }
+
+            pub fn fetch_add(&self, v: usize, o: Ordering) -> usize {
+                point();
+                self.0.fetch_add(v, o)
+            }
+        }
+
+        /// For all other operations
+        impl std::ops::Deref for AtomicUsize {
+            type Target = atomic::AtomicUsize;
+
+            fn deref(&self) -> &atomic::AtomicUsize {
+                point();
+                &self.0
+            }
+        }
+    }
+}
+
 #[derive(PartialEq)]
 #[doc(hidden)]
 pub enum ExpectedCalls {
-- 
2.43.0


From 1253b6932210b59fffb718f18f236b1aa26f13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 06/16] fix: lifetimes in arguments of static methods of
 generic structs

A static method of a generic struct (or trait) with a generic lifetime
parameter, or with an argument like &dyn Trait, did not compile: the
generated GenericExpectations::call used the lifetime without declaring it.
---
 mockall_derive/src/mock_function.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 4e146da..49f6d27 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -2507,6 +2507,13 @@ impl ToTokens for StaticGenericExpectations<'_> {
         let argnames = &self.f.argnames;
         let argty = &self.f.argty;
         let (ig, tg, wc) = self.f.egenerics.split_for_impl();
+        // `call` needs the lifetimes that occur only in the arguments, too
+        let mut call_generics = self.f.egenerics.clone();
+        if !self.f.alifetimes.is_empty() {
+            let lg = lifetimes_to_generics(&self.f.alifetimes);
+            call_generics = merge_generics(&lg, &call_generics);
+        }
+        let (call_ig, _, call_wc) = call_generics.split_for_impl();
         let keyid = gen_keyid(&self.f.egenerics);
         let mut any_wc = wc.cloned();
         if self.f.return_ref || self.f.return_refmut {
@@ -2532,8 +2539,8 @@ impl ToTokens for StaticGenericExpectations<'_> {
             impl #ig ::mockall::AnyExpectations for Expectations #tg #any_wc {}
             impl GenericExpectations {
                 /// Simulating calling the real method.
-                #v fn #call #ig (#self_, #(#argnames: #argty, )* )
-                    -> Option<#output> #wc
+                #v fn #call #call_ig (#self_, #(#argnames: #argty, )* )
+                    -> Option<#output> #call_wc
                 {
                     self.store.#get(&::mockall::Key::new::#keyid())
                         .map(|__mockall_e| {
-- 
2.43.0


From c8cd1db15e45e8bf4d5310bd62fffca17bcd4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 07/16] fix: super:: in the bounds or return type of a generic
 method

expect_foo is generated next to the original method, but its bounds had the
extra super:: components that only the private module needs.
---
 mockall_derive/src/mock_function.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 49f6d27..5505d53 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -246,7 +246,7 @@ impl<'a> Builder<'a> {
                 is_static = false;
             }
         }
-        let (output, boxed) = match self.sig.output {
+        let output_at = |levels: usize| match self.sig.output {
             ReturnType::Default => (
                 Type::Tuple(TypeTuple {
                     paren_token: token::Paren::default(),
@@ -255,14 +255,24 @@ impl<'a> Builder<'a> {
                 false,
             ),
             ReturnType::Type(_, ref ty) => {
-                let mut output_ty = supersuperfy(ty, self.levels);
+                let mut output_ty = supersuperfy(ty, levels);
                 destrify(&mut output_ty);
                 let boxed = dedynify(&mut output_ty);
                 (output_ty, boxed)
             }
         };
-        supersuperfy_generics(&mut declosured_generics, self.levels);
+        let (output, boxed) = output_at(self.levels);
         let owned_output = ownify(&output);
+        // expect_foo lives next to the original function, so its bounds must
+        // not be supersuperfied.
+        let expect_owned_output = ownify(&output_at(0).0);
+        let (expect_generics, _, _) = split_lifetimes(
+            declosured_generics.clone(),
+            &declosured_inputs,
+            &ReturnType::Type(<Token![->]>::default(),
+                              Box::new(expect_owned_output.clone()))
+        );
+        supersuperfy_generics(&mut declosured_generics, self.levels);
         let mut return_ref = false;
         let mut return_refmut = false;
         if let Type::Reference(ref tr) = &output {
@@ -321,6 +331,8 @@ impl<'a> Builder<'a> {
             call_vis: expectation_visibility(self.vis, call_levels),
             concretize: self.concretize,
             egenerics,
+            expect_generics,
+            expect_owned_output,
             cgenerics,
             fn_params,
             is_static,
@@ -421,6 +433,10 @@ pub(crate) struct MockFunction {
     concretize: bool,
     /// Generics of the Expectation object
     egenerics: Generics,
+    /// Like `call_generics`, but not supersuperfied
+    expect_generics: Generics,
+    /// Like `owned_output`, but not supersuperfied
+    expect_owned_output: Type,
     /// Generics of the Common object
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
@@ -667,12 +683,12 @@ impl MockFunction {
         } else {
             &self.call_generics
         }.split_for_impl();
-        let (ig, _, wc) = self.call_generics.split_for_impl();
+        let (ig, _, wc) = self.expect_generics.split_for_impl();
         let mut wc = wc.cloned();
         if self.is_method_generic() && (self.return_ref || self.return_refmut) {
             // Add Senc + Sync, required for downcast, since Expectation
             // stores an Option<#owned_output>
-            send_syncify(&mut wc, self.owned_output.clone());
+            send_syncify(&mut wc, self.expect_owned_output.clone());
         }
         let tbf = tg.as_turbofish();
         let vis = &self.call_vis;
-- 
2.43.0


From 050d0736f669554b68bb3463af26df4a2d6eab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 08/16] fix: super:: in the bounds of a generic struct or trait

Bounds of the struct's or trait's generic parameters were copied to the
private module as they are, where super:: means something else.
---
 mockall_derive/src/mock_function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 5505d53..e9e6b3d 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -290,8 +290,9 @@ impl<'a> Builder<'a> {
             compile_error(self.sig.span(),
                 "Mockall cannot mock static methods that return non-'static references.  It's unclear what the return value's lifetime should be.");
         }
-        let struct_generics = self.struct_generics.cloned()
+        let mut struct_generics = self.struct_generics.cloned()
             .unwrap_or_default();
+        supersuperfy_generics(&mut struct_generics, self.levels);
         let (type_generics, salifetimes, srlifetimes) = split_lifetimes(
             struct_generics.clone(),
             &declosured_inputs,
-- 
2.43.0


From cc8b3ab40bd8d76d51a424b54eafd3c852bb5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 09/16] fix: trait object arguments of functions in mocked
 modules

---
 mockall_derive/src/mockable_item.rs   | 1 +
 mockall_derive/src/mockable_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mockable_item.rs b/mockall_derive/src/mockable_item.rs
index 6e15a95..11c5d23 100644
--- a/mockall_derive/src/mockable_item.rs
+++ b/mockall_derive/src/mockable_item.rs
@@ -3,6 +3,7 @@ use super::*;
 
 /// Performs transformations on a function to make it mockable
 fn mockable_fn(mut item_fn: ItemFn) -> ItemFn {
+    mockable_struct::add_lifetime_parameters(&mut item_fn.sig);
     demutify(&mut item_fn.sig.inputs);
     deimplify(&mut item_fn.sig.output);
     item_fn
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 108923c..2f1f8a6 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -22,7 +22,7 @@ use crate::{
 };
 
 /// Make any implicit lifetime parameters explicit
-fn add_lifetime_parameters(sig: &mut Signature) {
+pub(crate) fn add_lifetime_parameters(sig: &mut Signature) {
     fn add_to_trait_object(generics: &mut Generics, var: &Pat, to: &mut TypeTraitObject) {
         let mut has_lifetime = false;
         for bound in to.bounds.iter() {
-- 
2.43.0


From 14cb5a5b24c67a44b5513f7c1fa350d2585e79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 10/16] fix: deprecated traits and trait methods

---
 mockall_derive/src/mock_function.rs   | 6 +++++-
 mockall_derive/src/mockable_struct.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index e9e6b3d..1ef3b94 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -489,9 +489,13 @@ impl MockFunction {
     // Supplying modname is an unfortunately hack.  Ideally MockFunction
     // wouldn't need to know that.
     pub fn call(&self, modname: Option<&Ident>) -> impl ToTokens {
-        let attrs = AttrFormatter::new(&self.attrs)
+        let mut attrs = AttrFormatter::new(&self.attrs)
             .must_use(true)
             .format();
+        if self.trait_.is_some() {
+            // It's an error to deprecate just a trait's implementation.
+            attrs.retain(|attr| !attr.path().is_ident("deprecated"));
+        }
         let call_exprs = &self.call_exprs;
         let (_, tg, _) = if self.is_method_generic() || self.is_static() {
             &self.egenerics
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 2f1f8a6..2051e4a 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -226,8 +226,12 @@ fn mockable_trait(trait_: ItemTrait, name: &Ident, generics: &Generics)
         qself: None,
         path: struct_path,
     }));
+    // It's an error to deprecate a trait's implementation.  The mock struct
+    // itself will be deprecated instead.
+    let mut attrs = trait_.attrs;
+    attrs.retain(|attr| !attr.path().is_ident("deprecated"));
     ItemImpl {
-        attrs: trait_.attrs,
+        attrs,
         defaultness: None,
         unsafety: trait_.unsafety,
         impl_token: <Token![impl]>::default(),
-- 
2.43.0


From 13efa35f18fbe985a6a1f16532d481dcdd630e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:12 +0000
Subject: [PATCH 11/16] fix: traits mocked for structs with lifetimes

---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 1ef3b94..ade0431 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -732,10 +732,14 @@ impl MockFunction {
     {
         let inner_mod_ident = self.inner_mod_ident();
         if let Some(PathArguments::AngleBracketed(abga)) = self_args {
+            // The Expectation object doesn't have the struct's lifetimes
+            let mut abga2 = abga.clone();
+            abga2.args = abga2.args.into_iter()
+                .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+                .collect();
             // staticize any lifetimes that might be present in the Expectation
             // object but not in the self args.  These come from the method's
             // return type.
-            let mut abga2 = abga.clone();
             for _ in self.egenerics.lifetimes() {
                 let lt = Lifetime::new("'static", Span::call_site());
                 let la = GenericArgument::Lifetime(lt);
-- 
2.43.0


From 749190ac956924b6c1645fac3596a74c48cb2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:51 +0000
Subject: [PATCH 12/16] fix: accept usize::MAX as a bound of times()

times(..=usize::MAX), times(a..=usize::MAX) and times(usize::MAX)
overflowed while computing the exclusive end of the range.
---
 mockall/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 2d69f6b..052e38f 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1529,7 +1529,7 @@ impl Default for TimesRange {
 
 impl From<usize> for TimesRange {
     fn from(n: usize) -> TimesRange {
-        TimesRange(n..(n+1))
+        TimesRange(n..n.saturating_add(1))
     }
 }
 
@@ -1555,7 +1555,7 @@ impl From<RangeFull> for TimesRange {
 impl From<RangeInclusive<usize>> for TimesRange {
     fn from(r: RangeInclusive<usize>) -> TimesRange {
         assert!(r.end() >= r.start(), "Backwards range");
-        TimesRange(*r.start()..*r.end() + 1)
+        TimesRange(*r.start()..r.end().saturating_add(1))
     }
 }
 
@@ -1568,7 +1568,7 @@ impl From<RangeTo<usize>> for TimesRange {
 
 impl From<RangeToInclusive<usize>> for TimesRange {
     fn from(r: RangeToInclusive<usize>) -> TimesRange {
-        TimesRange(0..r.end + 1)
+        TimesRange(0..r.end.saturating_add(1))
     }
 }
 
@@ -1719,7 +1719,7 @@ impl Times {
     // https://github.com/rust-lang/rust-clippy/issues/3307
     #[allow(clippy::range_plus_one)]
     pub fn n(&mut self, n: usize) {
-        self.range.0 = n..(n+1);
+        self.range.0 = n..n.saturating_add(1);
     }
 
     pub fn never(&mut self) {
-- 
2.43.0


From 91c0f946510bd96db146711bf7993e5e98dca05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 13/16] fix: replace Self inside function types

Self in the arguments or the result of a function pointer, or of a
Fn(..) -> .. bound, was left as it was, and meant one of mockall's own
types in the generated code.
---
 mockall_derive/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 77f7cbc..df5bbdb 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -585,6 +585,14 @@ fn deselfify_path(path: &mut Path, actual: &Ident, generics: &Generics) {
                 }
             }
         }
+        if let PathArguments::Parenthesized(pga) = &mut seg.arguments {
+            for input in pga.inputs.iter_mut() {
+                deselfify(input, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut pga.output {
+                deselfify(ty.as_mut(), actual, generics);
+            }
+        }
     }
 }
 
@@ -637,8 +645,13 @@ fn deselfify(literal_type: &mut Type, actual: &Ident, generics: &Generics) {
         Type::ImplTrait(_) => {
             /* Should've already been flagged as a compile_error */
         },
-        Type::BareFn(_) => {
-            /* Bare functions can't have Self arguments.  Nothing to do */
+        Type::BareFn(bfn) => {
+            for input in bfn.inputs.iter_mut() {
+                deselfify(&mut input.ty, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut bfn.output {
+                deselfify(ty.as_mut(), actual, generics);
+            }
         },
         Type::Infer(_) | Type::Never(_) =>
         {
-- 
2.43.0


From 4e524f582183672dd8074bd1ac371de51cf01e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:19 +0000
Subject: [PATCH 14/16] fix: no bounds on lifetimes in for<> lists

A method whose arguments use a lifetime parameter with a bound, like
fn foo<'a, 'b: 'a>(&self, x: &'a u32, y: &'b u32), could not be mocked: the
bounds were repeated in the for<'a, 'b: 'a> lists of the generated code,
where they are not allowed.  With a where clause instead it worked.
---
 mockall_derive/src/mock_function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index ade0431..98e52b5 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -17,7 +17,6 @@ use crate::{
     expectation_visibility,
     gen_keyid,
     is_concretize,
-    lifetimes_to_generic_params,
     lifetimes_to_generics,
     merge_generics,
     pat_is_self,
@@ -799,7 +798,11 @@ impl MockFunction {
         if self.alifetimes.is_empty() {
             None
         } else {
-            let lifetimes = lifetimes_to_generic_params(&self.alifetimes);
+            // Lifetimes in a `for<>` list may not have bounds.
+            let lifetimes = self.alifetimes.iter()
+                .map(|lt| GenericParam::Lifetime(
+                    LifetimeParam::new(lt.lifetime.clone())
+                )).collect();
             Some(BoundLifetimes {
                 lifetimes,
                 lt_token: <Token![<]>::default(),
-- 
2.43.0


From 5d4bf600205c07ef69a7febda9bbb0b831e8918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 15/16] fix: methods that return &(dyn Trait + Send)

A reference to a trait object with several bounds has to be written with
parentheses.  Methods that return one could not be mocked: "the size for
values of type (dyn Trait + Send) cannot be known at compilation time".  As
with &dyn Trait, the expectation now stores a Box<dyn Trait + Send>.
---
 mockall_derive/src/mock_function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 98e52b5..78a179a 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -33,7 +33,12 @@ use crate::{
 /// Returns `true` if it was necessary to box the type.
 fn dedynify(ty: &mut Type) -> bool {
     if let Type::Reference(ref mut tr) = ty {
-        if let Type::TraitObject(ref tto) = tr.elem.as_ref() {
+        // A trait object with several bounds must be in parens
+        let mut elem = tr.elem.as_ref();
+        while let Type::Paren(tp) = elem {
+            elem = tp.elem.as_ref();
+        }
+        if let Type::TraitObject(tto) = elem {
             if let Some(lt) = &tr.lifetime {
                 if lt.ident == "static" {
                     // For methods that return 'static references, the user can
-- 
2.43.0


From 9a2a884478b6379f345ae2d397f0b8205ebf44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:48 +0000
Subject: [PATCH 16/16] fix: argument types named Mutex, MutexGuard, Range, Vec
 or mem::..

The modules of generated code imported these names from std, which hid the
types of the same names that the mocked item's own module has in scope (like
tokio::sync::Mutex): "mismatched types" or "missing generics".
---
 mockall_derive/src/mock_function.rs | 45 ++++++++++++-----------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 78a179a..9c3b77b 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -615,7 +615,7 @@ impl MockFunction {
                     let __mockall_timeses = #inner_mod_ident::get_expectations().lock()
                         .unwrap()
                         .checkpoint()
-                        .collect::<Vec<_>>();
+                        .collect::<::std::vec::Vec<_>>();
                 }
             )
         } else {
@@ -881,11 +881,6 @@ impl MockFunction {
             Box::new(ConcreteExpectationGuard{f: self})
         };
         let matcher = &Matcher{f: self};
-        let std_mutexguard = if self.is_static {
-            quote!(use ::std::sync::MutexGuard;)
-        } else {
-            quote!()
-        };
         let inner_mod_ident = self.inner_mod_ident();
         let rfunc: Box<dyn ToTokens> = if self.return_ref {
             Box::new(RefRfunc{f: self})
@@ -901,13 +896,9 @@ impl MockFunction {
             pub mod #inner_mod_ident {
                 use super::*;
                 use ::mockall::CaseTreeExt;
-                #std_mutexguard
                 use ::std::{
                     boxed::Box,
-                    mem,
-                    ops::{DerefMut, Range},
-                    sync::Mutex,
-                    vec::Vec,
+                    ops::DerefMut as _,
                 };
                 #rfunc
                 #matcher
@@ -969,7 +960,7 @@ impl ToTokens for Common<'_> {
         quote!(
             /// Holds the stuff that is independent of the output type
             struct Common #ig #wc {
-                matcher: Mutex<Matcher #tg>,
+                matcher: ::std::sync::Mutex<Matcher #tg>,
                 seq_handle: Option<::mockall::SeqHandle>,
                 times: ::mockall::Times
             }
@@ -978,7 +969,7 @@ impl ToTokens for Common<'_> {
             {
                 fn default() -> Self {
                     Common {
-                        matcher: Mutex::new(Matcher::default()),
+                        matcher: ::std::sync::Mutex::new(Matcher::default()),
                         seq_handle: None,
                         times: ::mockall::Times::default()
                     }
@@ -1244,7 +1235,7 @@ impl ToTokens for CommonExpectationsMethods<'_> {
             /// A collection of [`Expectation`](struct.Expectations.html)
             /// objects.  Users will rarely if ever use this struct directly.
             #[doc(hidden)]
-            #v struct Expectations #ig ( Vec<Expectation #tg>) #wc;
+            #v struct Expectations #ig (::std::vec::Vec<Expectation #tg>) #wc;
 
             impl #ig Expectations #tg #wc {
                 /// Verify that all current expectations are satisfied and clear
@@ -1263,7 +1254,7 @@ impl ToTokens for CommonExpectationsMethods<'_> {
                 }
 
                 #v const fn new() -> Self {
-                    Self(Vec::new())
+                    Self(::std::vec::Vec::new())
                 }
             }
             #[allow(single_use_lifetimes)]
@@ -1493,7 +1484,7 @@ impl ToTokens for ConcreteExpectationGuard<'_> {
             // ExpectationGuard is only defined for expectations that return
             // 'static return types.
             #v struct ExpectationGuard #e_ig #e_wc {
-                guard: MutexGuard<'__mockall_lt, Expectations #tg>,
+                guard: ::std::sync::MutexGuard<'__mockall_lt, Expectations #tg>,
                 i: usize
             }
 
@@ -1503,7 +1494,7 @@ impl ToTokens for ConcreteExpectationGuard<'_> {
                 // Should only be called from the mockall_derive generated
                 // code
                 #[doc(hidden)]
-                #v fn new(mut __mockall_guard: MutexGuard<'__mockall_lt, Expectations #tg>)
+                #v fn new(mut __mockall_guard: ::std::sync::MutexGuard<'__mockall_lt, Expectations #tg>)
                     -> Self
                 {
                     __mockall_guard.expect(); // Drop the &Expectation
@@ -1553,7 +1544,7 @@ impl ToTokens for GenericExpectationGuard<'_> {
             /// protected by a Mutex guard.  Useful for mocking static
             /// methods.  Forwards accesses to an `Expectation` object.
             #v struct ExpectationGuard #e_ig #e_wc{
-                guard: MutexGuard<'__mockall_lt, GenericExpectations>,
+                guard: ::std::sync::MutexGuard<'__mockall_lt, GenericExpectations>,
                 i: usize,
                 _phantom: ::std::marker::PhantomData<(#(#fn_params,)*)>,
             }
@@ -1564,7 +1555,7 @@ impl ToTokens for GenericExpectationGuard<'_> {
                 // Should only be called from the mockall_derive generated
                 // code
                 #[doc(hidden)]
-                #v fn new(mut __mockall_guard: MutexGuard<'__mockall_lt, GenericExpectations>)
+                #v fn new(mut __mockall_guard: ::std::sync::MutexGuard<'__mockall_lt, GenericExpectations>)
                     -> Self
                 {
                     let __mockall_ee: &mut Expectations #tg =
@@ -1655,7 +1646,7 @@ impl ToTokens for Context<'_> {
                         .lock()
                         .unwrap()
                         .checkpoint()
-                        .collect::<Vec<_>>();
+                        .collect::<::std::vec::Vec<_>>();
                 }
 
                 /// Create a new expectation for this method.
@@ -1682,7 +1673,7 @@ impl ToTokens for Context<'_> {
                         // double-panic.
                         let _ = get_expectations()
                             .lock()
-                            .map(|mut g| g.checkpoint().collect::<Vec<_>>());
+                            .map(|mut g| g.checkpoint().collect::<::std::vec::Vec<_>>());
                     } else {
                         // Verify expectations are satisfied
                         Self::do_checkpoint();
@@ -1823,7 +1814,7 @@ impl ToTokens for RefRfunc<'_> {
                 // Prevent "unused type parameter" errors Surprisingly,
                 // PhantomData<Fn(generics)> is Send even if generics are not,
                 // unlike PhantomData<generics>
-                _Phantom(Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
+                _Phantom(::std::sync::Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
             }
 
             impl #ig  Rfunc #tg #wc {
@@ -1894,7 +1885,7 @@ impl ToTokens for RefMutRfunc<'_> {
                 // Prevent "unused type parameter" errors Surprisingly,
                 // PhantomData<Fn(generics)> is Send even if generics are not,
                 // unlike PhantomData<generics>
-                _Phantom(Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
+                _Phantom(::std::sync::Mutex<Box<dyn Fn(#(#fn_params,)*) + Send>>)
             }
 
             impl #ig  Rfunc #tg #wc {
@@ -2006,7 +1997,7 @@ impl ToTokens for StaticRfunc<'_> {
                         },
                         Rfunc::Once(_) => {
                             if let Rfunc::Once(mut __mockall_f) =
-                                mem::replace(self, Rfunc::Expired) {
+                                ::std::mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok(__mockall_f( #(#argnames, )* ))
                             } else {
                                 unreachable!()
@@ -2017,7 +2008,7 @@ impl ToTokens for StaticRfunc<'_> {
                             // dropping the Fragile while unwinding would abort
                             __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
-                                mem::replace(self, Rfunc::Expired) {
+                                ::std::mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
                             } else {
                                 unreachable!()
@@ -2219,7 +2210,7 @@ impl ToTokens for StaticExpectation<'_> {
             /// This is the type returned by the `expect_*` methods.
             #v struct Expectation #ig #wc {
                 common: Common #common_tg,
-                rfunc: Mutex<Rfunc #tg>,
+                rfunc: ::std::sync::Mutex<Rfunc #tg>,
             }
 
             #[allow(clippy::unused_unit)]
@@ -2362,7 +2353,7 @@ impl ToTokens for StaticExpectation<'_> {
                 fn default() -> Self {
                     Expectation {
                         common: Common::default(),
-                        rfunc: Mutex::new(Rfunc::default())
+                        rfunc: ::std::sync::Mutex::new(Rfunc::default())
                     }
                 }
             }
-- 
2.43.0

