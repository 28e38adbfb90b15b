From 8ba69761746c12a325d860abcf7bca240e10ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 01/45] fix: interned strings and slices compare equal only if
 their lengths match

An empty string or slice is bump-allocated at the address of the previous
allocation, so comparing the address alone made it equal to (and hash as) a
non-empty value interned just before it.
---
 common/interner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/interner.rs b/common/interner.rs
index 0ad052c..20fc157 100644
--- a/common/interner.rs
+++ b/common/interner.rs
@@ -29,9 +29,13 @@ impl<'arena, T: ?Sized + 'arena> Interned<'arena, T> {
         self.0
     }
 
+    /// The identity of the interned value.
+    ///
+    /// This keeps the length of strings and slices: an empty value may be allocated at the same
+    /// address as another one.
     #[inline(always)]
-    fn ptr(&self) -> *const () {
-        self.0 as *const T as *const ()
+    fn ptr(&self) -> *const T {
+        self.0
     }
 }
 
@@ -50,7 +54,7 @@ impl<'arena, T: ?Sized + 'arena> std::ops::Deref for Interned<'arena, T> {
 
 impl<T: ?Sized> PartialEq for Interned<'_, T> {
     fn eq(&self, other: &Self) -> bool {
-        self.ptr() == other.ptr()
+        std::ptr::eq(self.ptr(), other.ptr())
     }
 }
 
@@ -63,6 +67,7 @@ impl<T: ?Sized> std::cmp::PartialOrd for Interned<'_, T> {
 }
 
 impl<T: ?Sized> std::cmp::Ord for Interned<'_, T> {
+    #[allow(ambiguous_wide_pointer_comparisons)] // The length must be compared as well.
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         self.ptr().cmp(&other.ptr())
     }
-- 
2.43.0


From 0218f9b23cf5fe8aa34ae641492a854980fd84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 02/45] fix: toposort returns failed nodes in a deterministic
 order

Nodes on or behind a cycle that the preferred order ranks equal came out in the
iteration order of a HashMap, which differs from run to run. Break such ties by
the input order, as is done for the ordered nodes.
---
 cc_bindings_from_rs/toposort.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/toposort.rs b/cc_bindings_from_rs/toposort.rs
index 183784b..7ff228d 100644
--- a/cc_bindings_from_rs/toposort.rs
+++ b/cc_bindings_from_rs/toposort.rs
@@ -193,8 +193,15 @@ where
     // `failed` contains the remaining nodes - ones that either formed a dependency
     // cycle or (possibly indirectly) depended on a node participating in a
     // cycle.
-    let mut failed: Vec<NodeId> = graph.into_keys().collect();
-    failed.sort_by(preferred_order);
+    //
+    // Ties are broken by the input order, as in `HeapNode`: the iteration order of `graph` differs
+    // from run to run.
+    let mut failed: Vec<(NodeId, usize)> =
+        graph.into_iter().map(|(id, graph_node)| (id, graph_node.input_index)).collect();
+    failed.sort_by(|(a, a_index), (b, b_index)| {
+        preferred_order(a, b).then_with(|| a_index.cmp(b_index))
+    });
+    let failed = failed.into_iter().map(|(id, _)| id).collect();
 
     TopoSortResult { ordered, failed }
 }
-- 
2.43.0


From 9281cc7c5e349e984c9a0e5e655c9c8d181a8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 03/45] fix: databases beyond the 256th no longer share
 memoized values

The database index that selects the table of a memoized! function was a u8
which wrapped around, so the 257th database was answered with the values of the
first one.
---
 common/memoized.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/memoized.rs b/common/memoized.rs
index 9860ebf..33f88d4 100644
--- a/common/memoized.rs
+++ b/common/memoized.rs
@@ -205,7 +205,7 @@ macro_rules! query_group {
     // The database struct, which contains the lookup tables.
     $vis struct $database_struct $(<$($type_param),*>)? {
       pub __unwinding_cycles: ::core::cell::Cell<u32>,
-      pub __db_index: u8,
+      pub __db_index: usize,
       $(
         $input_function: $input_type,
       )*
@@ -346,7 +346,7 @@ macro_rules! memoized {
     }
     $vis fn $memoized_ident(db: $db_type, $($arg: $arg_type),*) -> $return_type {
       $memoized_ident::TABLES.with(|tables| {
-        let db_index = db.__db_index as usize;
+        let db_index = db.__db_index;
         if tables.borrow().len() <= db_index {
           tables.borrow_mut().resize_with(db_index + 1, Default::default);
         }
@@ -453,8 +453,8 @@ pub mod internal {
         }
     }
 
-    pub fn db_index() -> u8 {
-        static DB_INDEX: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
+    pub fn db_index() -> usize {
+        static DB_INDEX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
         DB_INDEX.fetch_add(1, std::sync::atomic::Ordering::AcqRel)
     }
 }
-- 
2.43.0


From b202ed1dc020e0c6241f01c661fcdc3e3015ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 04/45] fix: unescape comment and literal text fully when
 printing tokens

Comment text ending in a quote was printed with a trailing backslash, which
makes C++ continue the comment on the next line; escapes other than \" and
\n were printed as written.
---
 common/token_stream_printer.rs | 84 +++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 21 deletions(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index 5b77ddd..642e5db 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -203,10 +203,69 @@ pub struct FormattedOffsetsWithProvenance {
 /// records.
 pub type FormattedProvenanceMap = HashMap<usize, FormattedOffsetsWithProvenance>;
 
-/// Unescapes a string literal token (for __CAPTURE_TAG__).
+/// Returns the value of a string literal token (or the text of any other literal).
 fn clean_literal(lit: proc_macro2::Literal) -> String {
     // We'd like to use str_value, but that's only on procmacro2_semver_exempt.
-    lit.to_string().trim_matches('"').replace("\\\"", "\"")
+    let text = lit.to_string();
+    if let Some(raw) = text.strip_prefix('r') {
+        let value = raw.trim_matches('#');
+        return value.strip_prefix('"').and_then(|v| v.strip_suffix('"')).unwrap_or(value).into();
+    }
+    let Some(escaped) = text.strip_prefix('"').and_then(|v| v.strip_suffix('"')) else {
+        return text;
+    };
+    let mut value = String::with_capacity(escaped.len());
+    let mut chars = escaped.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            value.push(c);
+            continue;
+        }
+        let rest = chars.as_str();
+        match chars.next() {
+            Some('n') => value.push('\n'),
+            Some('r') => value.push('\r'),
+            Some('t') => value.push('\t'),
+            Some('0') => value.push('\0'),
+            Some('x') => {
+                let code = u8::from_str_radix(&rest[1..3], 16).expect("valid `\\x` escape");
+                value.push(code.into());
+                chars = rest[3..].chars();
+            }
+            Some('u') => {
+                let end = rest.find('}').expect("valid `\\u` escape");
+                let code = u32::from_str_radix(&rest[2..end].replace('_', ""), 16).ok();
+                value.push(code.and_then(char::from_u32).expect("valid `\\u` escape"));
+                chars = rest[end + 1..].chars();
+            }
+            // A line continuation skips the whitespace at the start of the next line.
+            Some('\n') => chars = rest.trim_start().chars(),
+            Some(other) => value.push(other),
+            None => value.push(c),
+        }
+    }
+    value
+}
+
+/// Writes `text` as `//` comment lines.
+fn write_comment(result: &mut impl std::fmt::Write, text: &str) -> Result<()> {
+    for line in text.split('\n') {
+        write!(result, "// ")?;
+        for c in line.chars() {
+            // Control characters may end a C++ comment line (e.g. `\r`).
+            if c.is_control() && c != '\t' {
+                write!(result, "{}", c.escape_default())?;
+            } else {
+                result.write_char(c)?;
+            }
+        }
+        writeln!(result)?;
+    }
+    if text.trim_end().ends_with('\\') {
+        // In C++, a backslash at the end of the line would extend the comment to the next line.
+        writeln!(result, "//")?;
+    }
+    Ok(())
 }
 
 pub fn write_unformatted_tokens(
@@ -292,31 +351,14 @@ impl<'a, T: std::fmt::Write> TokenOutputState<'a, T> {
                 }
                 TokenTree::Ident(tt) if tt == "__COMMENT__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        writeln!(
-                            self.result,
-                            "// {}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\n", "\n// ")
-                        )?;
+                        write_comment(self.result, &clean_literal(lit))?;
                     } else {
                         bail!("__COMMENT__ must be followed by a literal")
                     }
                 }
                 TokenTree::Ident(tt) if tt == "__LITERALLY__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        // TokenTree::Literal does not provide a structured way to
-                        // get the value out, so we have to use the Display impl to
-                        // print the string literal as Rust syntax and unescape it.
-                        writeln!(
-                            self.result,
-                            "{}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\\\", "\\")
-                        )?;
+                        writeln!(self.result, "{}", clean_literal(lit))?;
                     } else {
                         bail!("__LITERALLY__ must be followed by a literal")
                     }
-- 
2.43.0


From a41cfbf1b914437209680531a2816a6b85056ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 05/45] fix: error report lists the root cause of errors
 without a format string

Errors not created by error_report's macros were listed by their outermost
context, dropping the cause.
---
 common/error_report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/error_report.rs b/common/error_report.rs
index 89f6b1c..881fc31 100644
--- a/common/error_report.rs
+++ b/common/error_report.rs
@@ -372,7 +372,7 @@ impl ErrorReporting for ErrorReport {
         } else {
             reported_error = Some(FormattedError::new(
                 Cow::Borrowed("{}"),
-                Cow::Owned(hide_unstable_details(&format!("{error}"))),
+                Cow::Owned(hide_unstable_details(&root_cause.to_string())),
             ));
         }
         if let Some(reported_error) = reported_error {
-- 
2.43.0


From f182853862b3e0e6b24ee76367beca55d68199b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 06/45] fix: enter an error scope when reporting an unsupported
 nested item

With --error-report-out, an error for a variant, impl or trait impl that is not itself
the item being handled failed assert_in_item and ended the generator.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 3a4fa85..a79a701 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1985,7 +1985,8 @@ pub(crate) fn generate_unsupported_def<'tcx>(
     def_id: DefId,
     err: Error,
 ) -> CcSnippet<'tcx> {
-    db.errors().assert_in_item(item_name_for_error_report(db, def_id));
+    // `def_id` may be nested in the item being handled (e.g. an enum variant or an `impl`).
+    error_scope!(db, def_id);
     db.errors().report(&err);
     let msg = format!(
         "Error generating bindings for {}",
-- 
2.43.0


From 9ddb92547960c762ce65c1bdd80f1b54577925a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 07/45] fix: drop the constructed object when CtorThen's
 function fails or panics

---
 support/ctor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index fac28d9..a0b9836 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -314,8 +314,12 @@ unsafe impl<C: Ctor, F: FnOnce(Pin<&mut C::Output>) -> Result<(), C::Error>> Cto
         unsafe {
             self.ctor.ctor(dest)?;
         }
+        // If `f` fails or unwinds, then so does the construction, and nobody else will drop `dest`.
+        let guard = macro_internal::UnsafeDropGuard(dest);
         let dest = unsafe { Pin::new_unchecked(&mut *dest) };
-        (self.f)(dest)
+        (self.f)(dest)?;
+        core::mem::forget(guard);
+        Ok(())
     }
 }
 
@@ -1247,8 +1251,8 @@ pub mod macro_internal {
     /// Safety: this will drop the pointer, so this is only safe if no other
     /// code will access the pointer afterwards. This includes drop: the
     /// pointer must itself be in a ManuallyDrop.
-    pub struct UnsafeDropGuard<T>(*mut T);
-    impl<T> Drop for UnsafeDropGuard<T> {
+    pub struct UnsafeDropGuard<T: ?Sized>(pub(super) *mut T);
+    impl<T: ?Sized> Drop for UnsafeDropGuard<T> {
         fn drop(&mut self) {
             unsafe { core::ptr::drop_in_place(self.0) };
         }
-- 
2.43.0


From 522c4655cb1957ce8e536afd5445e7051b431b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 08/45] fix: mark a ctor::Slot as empty before running the
 destructor of its content

---
 support/ctor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index a0b9836..bf016ed 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1111,10 +1111,11 @@ impl<T> Slot<T> {
     pub fn clear(self: Pin<&mut Self>) {
         if self.is_initialized {
             let Self { is_initialized, maybe_uninit } = unsafe { Pin::into_inner_unchecked(self) };
+            // Cleared first: a destructor that panics must not run a second time.
+            *is_initialized = false;
             unsafe {
                 core::ptr::drop_in_place(maybe_uninit.as_mut_ptr());
             }
-            *is_initialized = false;
         }
     }
 
-- 
2.43.0


From fa5cf796a618a1bda9e6fb9a84abb11c8fde464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 09/45] fix: end the process when the old destructor unwinds in
 ctor::reconstruct

---
 support/ctor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index bf016ed..d97dc34 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1598,7 +1598,7 @@ macro_rules! internal_hlist {
 /// If the object cannot be destroyed/reconstructed in place (e.g. it is a base
 /// class subobject), the behavior is undefined.
 ///
-/// If `ctor` unwinds, the process will crash.
+/// If `ctor` or the destructor of the old value unwinds, the process will crash.
 ///
 /// This is a bit more fragile than, and a lot less common than, `operator=`,
 /// but allows for taking advantage of copy/move elision more aggressively,
@@ -1624,10 +1624,10 @@ macro_rules! internal_hlist {
 /// is just the in-place Ctor version of the existing method `Pin<T>::set(T)`.)
 pub unsafe fn reconstruct<T>(p: Pin<&mut T>, ctor: impl Ctor<Output = T, Error = Infallible>) {
     let raw_ptr = unsafe { Pin::into_inner_unchecked(p) } as *mut _;
-    unsafe {
-        core::ptr::drop_in_place(raw_ptr);
-    }
     abort_on_unwind(move || {
+        unsafe {
+            core::ptr::drop_in_place(raw_ptr);
+        }
         unsafe { ctor.ctor(raw_ptr) }.unwrap();
     });
 }
-- 
2.43.0


From 2c161cef2470b3c1f3b9085502ea64687e78c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 10/45] fix: keep words apart in the names of cc_template
 instantiations

---
 rs_bindings_from_cc/collect_instantiations.rs | 35 +++++++++++++++++-
 support/cc_template/cc_template_impl.rs       | 36 +++++++++++++++++--
 2 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/rs_bindings_from_cc/collect_instantiations.rs b/rs_bindings_from_cc/collect_instantiations.rs
index fbbc2c5..c504a2f 100644
--- a/rs_bindings_from_cc/collect_instantiations.rs
+++ b/rs_bindings_from_cc/collect_instantiations.rs
@@ -5,6 +5,7 @@
 use arc_anyhow::{Context, Result};
 use ffi_types::FfiU8Slice;
 use ffi_types::FfiU8SliceBox;
+use proc_macro2::Delimiter;
 use proc_macro2::TokenStream;
 use proc_macro2::TokenTree;
 use std::collections::HashSet;
@@ -59,6 +60,38 @@ fn collect_instantiations_impl(filenames: Vec<PathBuf>) -> Result<Vec<String>> {
     Ok(result_vec)
 }
 
+/// Prints `tokens` in a way that doesn't depend on how they were spaced: without whitespace, except
+/// between words which would otherwise merge into one (e.g. `unsigned int`).
+fn tokens_to_instantiation_name(tokens: TokenStream) -> String {
+    fn print(tokens: TokenStream, result: &mut String) {
+        let mut previous_is_word = false;
+        for tt in tokens {
+            let is_word = matches!(tt, TokenTree::Ident(_) | TokenTree::Literal(_));
+            if is_word && previous_is_word {
+                result.push(' ');
+            }
+            previous_is_word = is_word;
+            match tt {
+                TokenTree::Group(group) => {
+                    let (open, close) = match group.delimiter() {
+                        Delimiter::Parenthesis => ("(", ")"),
+                        Delimiter::Brace => ("{", "}"),
+                        Delimiter::Bracket => ("[", "]"),
+                        Delimiter::None => ("", ""),
+                    };
+                    result.push_str(open);
+                    print(group.stream(), result);
+                    result.push_str(close);
+                }
+                tt => result.push_str(&tt.to_string()),
+            }
+        }
+    }
+    let mut result = String::new();
+    print(tokens, &mut result);
+    result
+}
+
 fn find_cc_template_calls(input: TokenStream, results: &mut HashSet<String>) {
     let mut iter = input.into_iter();
     while let Some(next) = iter.next() {
@@ -82,7 +115,7 @@ fn find_cc_template_calls(input: TokenStream, results: &mut HashSet<String>) {
             // TODO(lukasza, hlopko): More explicitly ensure that the same canonicalization
             // (e.g. TokenStream->String transformation) is used here and in
             // `cc_template/cc_template_impl.rs`.
-            let instantiation_name = m.tokens.to_string().replace(' ', "");
+            let instantiation_name = tokens_to_instantiation_name(m.tokens);
             results.insert(instantiation_name);
         }
         if let TokenTree::Group(group) = next {
diff --git a/support/cc_template/cc_template_impl.rs b/support/cc_template/cc_template_impl.rs
index a28bf3b..a5bd76b 100644
--- a/support/cc_template/cc_template_impl.rs
+++ b/support/cc_template/cc_template_impl.rs
@@ -2,7 +2,7 @@
 // Exceptions. See /LICENSE for license information.
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
 use quote::quote;
 use std::collections::HashMap;
 use std::env;
@@ -33,6 +33,38 @@ fn read_instantiations_map() -> Result<HashMap<String, String>, syn::Error> {
         .map_err(|err| make_syn_error(format!("Couldn't deserialize JSON from {}: {}", path, err)))
 }
 
+/// Prints `tokens` in a way that doesn't depend on how they were spaced: without whitespace, except
+/// between words which would otherwise merge into one (e.g. `unsigned int`).
+fn tokens_to_instantiation_name(tokens: TokenStream) -> String {
+    fn print(tokens: TokenStream, result: &mut String) {
+        let mut previous_is_word = false;
+        for tt in tokens {
+            let is_word = matches!(tt, TokenTree::Ident(_) | TokenTree::Literal(_));
+            if is_word && previous_is_word {
+                result.push(' ');
+            }
+            previous_is_word = is_word;
+            match tt {
+                TokenTree::Group(group) => {
+                    let (open, close) = match group.delimiter() {
+                        Delimiter::Parenthesis => ("(", ")"),
+                        Delimiter::Brace => ("{", "}"),
+                        Delimiter::Bracket => ("[", "]"),
+                        Delimiter::None => ("", ""),
+                    };
+                    result.push_str(open);
+                    print(group.stream(), result);
+                    result.push_str(close);
+                }
+                tt => result.push_str(&tt.to_string()),
+            }
+        }
+    }
+    let mut result = String::new();
+    print(tokens, &mut result);
+    result
+}
+
 fn get_instantiation_struct_name(
     input: TokenStream,
     instantiations: HashMap<String, String>,
@@ -51,7 +83,7 @@ fn get_instantiation_struct_name(
     // TODO(lukasza, hlopko): More explicitly ensure that the same canonicalization
     // (e.g. TokenStream->String transformation) is used here and in
     // `rs_bindings_from_cc/collect_instantiations.rs`.
-    let instantiation_name = input.to_string().replace(' ', "");
+    let instantiation_name = tokens_to_instantiation_name(input);
 
     match instantiations.get(&instantiation_name) {
         Some(concrete_struct_name) => {
-- 
2.43.0


From a0ef04c6f7e09439f82795481dd4c3c95d0496ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 11/45] fix: movable elements of arrays passed by value are
 moved, not duplicated

Slot<std::array<T, N>> bitwise-copied relocatable elements out of the caller's
array, which the caller then destroyed a second time, and move-assigned other
elements into uninitialized storage. Elements that C++ can move are now moved.
---
 support/internal/slot.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..120d974 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -9,7 +9,9 @@
 
 #include <array>
 #include <cstddef>
+#include <cstring>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace crubit {
@@ -146,10 +148,12 @@ class Slot<std::array<UT, S>> {
   using T = std::array<UT, S>;
   Slot() {}
   explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
+    if constexpr (std::is_move_constructible_v<UT>) {
+      // The caller still destroys the elements of `x`, so they have to be moved
+      // from rather than relocated.
+      std::construct_at(&value_, std::move(x));
     } else {
-      value_ = std::move(x);
+      memcpy(value_.data(), x.data(), sizeof(UT) * S);
     }
   }
   T* Get() { return &value_; }
-- 
2.43.0


From 1cc5bcf9e4c2fecfae9dd9edd505123fb111a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 12/45] fix: decoding a bridged value destroys what the move
 leaves in the buffer

TransmuteAbi::Decode moved the value out of its local buffer and never
destroyed the source, leaking a default value for types whose C++ move swaps
with a default, and the whole original for types that are only copyable.
---
 support/bridge.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..d4a5069 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -12,6 +12,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstring>
+#include <memory>
 #include <optional>
 #include <tuple>
 #include <utility>
@@ -252,8 +253,12 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, and destroy what the move left
+    // behind: the buffer was the owner of the value.
+    Value* owned = reinterpret_cast<Value*>(buf);
+    Value value(std::move(*owned));
+    std::destroy_at(owned);
+    return value;
   }
 };
 
-- 
2.43.0


From 17400bcf182457d739fd131d377d756cf03b90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 13/45] fix: do not bind by-value tuples whose elements C++
 cannot move

The header of a crate with such a parameter did not compile: the inline
wrapper moves the tuple (or its elements) into the thunk's storage with a
deleted move constructor.
---
 .../generate_function_thunk.rs                | 51 ++++++++++++-------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..65185fc 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -102,6 +102,38 @@ fn array_c_abi_c_type<'tcx>(tcx: TyCtxt<'tcx>, inner_ty: Ty<'tcx>) -> Result<Tok
     }
 }
 
+/// Checks that a parameter of type `ty`, which is passed to the thunk through memory, can be moved
+/// there by C++.
+fn ensure_cpp_movable<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> Result<()> {
+    let def_id = match ty.kind() {
+        // The elements of a `std::tuple` are moved one by one.
+        ty::TyKind::Tuple(element_tys) if tuple_c_abi_c_type(db, ty).is_some() => {
+            return element_tys.iter().try_for_each(|element_ty| ensure_cpp_movable(db, element_ty));
+        }
+        ty::TyKind::Tuple(_) => None,
+        ty::TyKind::Adt(adt_def, _) => {
+            // If the type is a standard template specialization (like Option or Result)
+            // from the external `core` library, passing the generic `Option` DefId causes
+            // the compiler to try to analyze the layout of `Option<T>`, which fails because `T`
+            // does not have a fixed layout. Passing `None` forces the query to fall back to
+            // a fully monomorphized typing environment to layout the concrete type (e.g., `Option<i32>`).
+            let always_specialize_generics = db
+                .crate_features(db.source_crate_num())
+                .contains(crubit_feature::CrubitFeature::AlwaysSpecializeGenericsInCppApiFromRust);
+            if always_specialize_generics && db.parse_rs_std_template_specialization(ty).is_some() {
+                None
+            } else {
+                Some(adt_def.did())
+            }
+        }
+        _ => return Ok(()),
+    };
+    db.has_move_ctor_and_assignment_operator(def_id, ty).ok_or_else(|| {
+        anyhow!("Can't pass type `{ty}` by value without a move constructor. See crubit.rs/rust/movable_types for what types are C++ movable.")
+    })?;
+    Ok(())
+}
+
 /// Formats a C++ declaration of a C-ABI-compatible-function wrapper around a Rust function.
 pub fn generate_thunk_decl<'tcx>(
     db: &BindingsGenerator<'tcx>,
@@ -155,27 +187,12 @@ pub fn generate_thunk_decl<'tcx>(
                 } else if is_c_abi_compatible_by_value(db, ty) {
                     Ok(quote! { #cpp_type })
                 } else if let Some(tuple_abi) = tuple_c_abi_c_type(db, ty) {
+                    ensure_cpp_movable(db, ty)?;
                     Ok(tuple_abi)
                 } else if let ty::TyKind::Array(inner_ty, _) = ty.kind() {
                     array_c_abi_c_type(db.tcx(), *inner_ty)
-                } else if let Some(adt_def) = ty.ty_adt_def() {
-                    // If the type is a standard template specialization (like Option or Result)
-                    // from the external `core` library, passing the generic `Option` DefId causes
-                    // the compiler to try to analyze the layout of `Option<T>`, which fails because `T`
-                    // does not have a fixed layout. Passing `None` forces the query to fall back to
-                    // a fully monomorphized typing environment to layout the concrete type (e.g., `Option<i32>`).
-                    let always_specialize_generics = db.crate_features(db.source_crate_num())
-                        .contains(crubit_feature::CrubitFeature::AlwaysSpecializeGenericsInCppApiFromRust);
-                    let def_id = if always_specialize_generics && db.parse_rs_std_template_specialization(ty).is_some() {
-                        None
-                    } else {
-                        Some(adt_def.did())
-                    };
-                    db.has_move_ctor_and_assignment_operator(def_id, ty).ok_or_else(|| {
-                        anyhow!("Can't pass type `{ty}` by value without a move constructor. See crubit.rs/rust/movable_types for what types are C++ movable.")
-                    })?;
-                    Ok(quote! { #cpp_type* })
                 } else {
+                    ensure_cpp_movable(db, ty)?;
                     Ok(quote! { #cpp_type* })
                 }
             })
-- 
2.43.0


From ca376c1a1d01e0d6f018a93cfdfbfd4daddb8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 14/45] fix: cloning an rs_std::Option writes the object and
 not its bridged form

---
 .../generate_bindings/generate_function_thunk.rs            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index 65185fc..0b76aea 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -463,7 +463,11 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
-    Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
+    Ok(if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        // The C++ constructor passes a pointer to the layout-compatible object under construction,
+        // and not to a buffer in the bridged form.
+        write_directly()?
+    } else if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
                 BridgedTypeConversionInfo::PointerLikeTransmute { .. } => write_directly()?,
-- 
2.43.0


From 002cf9a3e12b8db5bea2b6f212a7ec2f3e4ced3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 15/45] fix: fields of class type in packed structs and unions
 are declared packed, and keep their padding

Clang ignores the packed attribute of the enclosing class for fields of
non-POD type, so a repr(packed) struct with a field of a user type, char,
Option or array of these gave a header that failed its layout assertions;
with repr(C, packed(2)) the omitted padding was lost as well.
---
 .../generate_struct_and_union.rs              | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 772368b..a6b8557 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2086,6 +2086,9 @@ fn generate_variant_ctor<'tcx>(
 struct FieldTypeInfo<'tcx> {
     size: u64,
     cpp_type: CcSnippet<'tcx>,
+    /// Attribute for the field's declaration in a packed type: Clang applies the `packed` attribute
+    /// of the enclosing class only to fields of POD types.
+    packed_attribute: TokenStream,
 }
 
 struct Field<'tcx> {
@@ -2282,6 +2285,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         match self.adt_def.adt_kind() {
             ty::AdtKind::Struct => {
                 let always_omit_padding = self.repr_attrs.contains(&rustc_hir::attrs::ReprC)
+                    && !self.is_packed()
                     && variants_fields.iter().flatten().all(|field| field.type_info.is_ok());
                 let fields = variants_fields.into_iter().next().unwrap_or_default();
                 Ok(AdtLayout::Struct { fields, always_omit_padding })
@@ -2311,6 +2315,10 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         }
     }
 
+    fn is_packed(&self) -> bool {
+        self.repr_attrs.iter().any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }))
+    }
+
     /// Ensures that a given field has a valid C++ type and returns its size and C++ type, if so.
     fn prepare_field_type(&self, field_def: &ty::FieldDef) -> Result<FieldTypeInfo<'tcx>> {
         let tcx = self.db.tcx();
@@ -2337,7 +2345,14 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             .format_ty_for_cc(ty, TypeLocation::Field)?
             .resolve_feature_requirements(self.db.crate_features(self.db.source_crate_num()))?;
 
-        Ok(FieldTypeInfo { size, cpp_type })
+        let is_scalar = ty.is_primitive() || ty.is_raw_ptr() || ty.is_ref() || ty.is_fn_ptr();
+        let packed_attribute = if self.is_packed() && (!is_scalar || ty.is_char()) {
+            quote! { __attribute__((packed)) }
+        } else {
+            quote! {}
+        };
+
+        Ok(FieldTypeInfo { size, cpp_type, packed_attribute })
     }
 
     fn analyze_field(&self, index: usize, field_def: &ty::FieldDef, offset: u64) -> Field<'tcx> {
@@ -2493,9 +2508,11 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             quote! { #cc_name }
         };
 
-        let (cpp_type, size) = match field.type_info {
+        let (cpp_type, size, packed_attribute) = match field.type_info {
             Err(ref err) => return self.emit_field_err(&field, err, current_visibility),
-            Ok(FieldTypeInfo { cpp_type, size }) => (cpp_type, size),
+            Ok(FieldTypeInfo { cpp_type, size, packed_attribute }) => {
+                (cpp_type, size, packed_attribute)
+            }
         };
 
         assert!((field.offset + size) <= field.offset_of_next_field);
@@ -2526,7 +2543,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 union { __NEWLINE__
                     #doc_comment
                     #(#attributes)*
-                    #cpp_type #bracketed_cc_name;
+                    #cpp_type #bracketed_cc_name #packed_attribute;
                 };
             #padding
         };
@@ -2546,9 +2563,9 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             quote! { #cc_name }
         };
 
-        let cpp_type = match field.type_info {
+        let (cpp_type, packed_attribute) = match field.type_info {
             Err(ref err) => return self.emit_field_err(&field, err, current_visibility),
-            Ok(FieldTypeInfo { cpp_type, .. }) => cpp_type,
+            Ok(FieldTypeInfo { cpp_type, packed_attribute, .. }) => (cpp_type, packed_attribute),
         };
 
         let visibility = current_visibility.set_is_public(field.is_public);
@@ -2560,7 +2577,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             quote! {
                 #visibility __NEWLINE__
                 #doc_comment
-                #cpp_type #bracketed_cc_name;
+                #cpp_type #bracketed_cc_name #packed_attribute;
             }
         } else {
             let internal_padding = if field.offset == 0 {
@@ -2574,7 +2591,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 #doc_comment
                 struct {
                     #internal_padding
-                    #cpp_type value;
+                    #cpp_type value #packed_attribute;
                 } #bracketed_cc_name;
             }
         };
-- 
2.43.0


From d182a8bc7086a94d23a4704c401f70818c0d0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 16/45] fix: a struct with a field that is an array of tuples
 or options includes their definitions first

The element type of an array in a field was treated as if it could stay
incomplete, so its rs_std specialization was emitted after the struct, and
the header did not compile.
---
 cc_bindings_from_rs/generate_bindings/format_type.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 8eca442..56e3aef 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -452,8 +452,15 @@ pub fn format_ty_for_cc<'tcx>(
             // We need to be able to handle expressions at the type level that are not simple
             // numeric literals.
             let target_size = evaluate_const_as_u64(db.tcx(), length)?;
+            // An array stores its elements: where the array has to be complete, so do they.
+            let element_location = match location {
+                TypeLocation::Field | TypeLocation::NestedBridgeable | TypeLocation::TemplateArg => {
+                    TypeLocation::Field
+                }
+                _ => TypeLocation::Other,
+            };
             let cc_element_ty =
-                db.format_ty_for_cc(element_type, TypeLocation::Other)?.into_tokens(&mut prereqs);
+                db.format_ty_for_cc(element_type, element_location)?.into_tokens(&mut prereqs);
             let c_int = Literal::u64_unsuffixed(target_size);
             CcSnippet { prereqs, tokens: quote! { ::std::array<#cc_element_ty, #c_int> } }
         }
-- 
2.43.0


From db2961a1054a4b412c4b0a046a6df4c2335194e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 17/45] fix: fields that are zero-length arrays are omitted
 like other zero-sized fields

std::array<T, 0> takes up space in C++, so the layout assertions failed.
---
 .../generate_bindings/generate_struct_and_union.rs         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index a6b8557..e229466 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1921,6 +1921,11 @@ fn generate_variant_ctor<'tcx>(
                 bail!("Field `{}` is not movable in C++", field_def.name)
             }
 
+            if adt_def.is_struct() && get_layout(tcx, ty).is_ok_and(|layout| layout.is_zst()) {
+                // Zero-sized fields have no C++ counterpart that could be initialized.
+                bail!("Field `{}` is zero-sized", field_def.name)
+            }
+
             Ok(ty)
         })
         .collect::<Result<Vec<Ty<'tcx>>>>()?;
@@ -2326,6 +2331,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         #[rustversion::since(2026-05-13)]
         let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
         let size = get_layout(tcx, ty).map(|layout| layout.size().bytes())?;
+        // A C++ object always takes up space, even `std::array<T, 0>`.
+        ensure!(size != 0, "Zero-sized types (ZSTs) are not supported (b/258259459)");
 
         if is_bridged_type(self.db, ty).is_ok_and(|bridged_type| {
             bridged_type.is_some_and(|bridged_type| !bridged_type.is_layout_compatible())
-- 
2.43.0


From f431dd061153336d31aa2ca14f0563ea2afb8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 18/45] fix: payloads of repr(C) enums keep the alignment of
 fields without a C++ type

Blobs of bytes and omitted fields in a variant lost their alignment, so the
layout assertions failed; a repr(C, align(N)) enum made the generator panic.
---
 .../generate_struct_and_union.rs              | 71 ++++++++++++++-----
 .../generate_bindings/query_compiler.rs       | 28 ++++----
 2 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index e229466..bcc742e 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2104,6 +2104,7 @@ struct Field<'tcx> {
     index: usize,
     offset: u64,
     offset_of_next_field: u64,
+    alignment: u64,
     doc_comment: TokenStream,
     attributes: Vec<TokenStream>,
 }
@@ -2189,6 +2190,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 index: 0,
                 offset: 0,
                 offset_of_next_field: self.size_in_bytes,
+                alignment: 1,
                 doc_comment: quote! {},
                 attributes: vec![],
             }]];
@@ -2213,7 +2215,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 .map(|(variant_index, variant)| {
                     (
                         get_fields((variant_index, variant)),
-                        variant.size.bytes() - tag_size_with_padding,
+                        variant.size.bytes().saturating_sub(tag_size_with_padding),
                     )
                 })
                 .collect_vec(),
@@ -2304,7 +2306,11 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                     Variants::Multiple { tag: _, tag_encoding: _, tag_field: _, variants } => {
                         variants
                             .iter()
-                            .map(|layout| layout.size.bytes() - tag_size_with_padding)
+                            .zip(&variants_fields)
+                            .map(|(layout, fields)| match fields.is_empty() {
+                                true => 0,
+                                false => layout.size.bytes() - tag_size_with_padding,
+                            })
                             .collect_vec()
                     }
                     Variants::Single { .. } | Variants::Empty => vec![self.size_in_bytes],
@@ -2320,6 +2326,14 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         }
     }
 
+    fn field_alignment(&self, field_def: &ty::FieldDef) -> u64 {
+        let tcx = self.db.tcx();
+        let ty = field_def.ty(tcx, self.adt_generic_args);
+        #[rustversion::since(2026-05-13)]
+        let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
+        get_layout(tcx, ty).map_or(1, |layout| layout.align().abi.bytes())
+    }
+
     fn is_packed(&self) -> bool {
         self.repr_attrs.iter().any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }))
     }
@@ -2405,6 +2419,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             index,
             offset,
             offset_of_next_field,
+            alignment: self.field_alignment(field_def),
             doc_comment: generate_doc_comment(self.db, field_def.did),
             attributes,
         }
@@ -2483,6 +2498,18 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         field: &Field<'tcx>,
         err: &arc_anyhow::Error,
         current_visibility: &mut CcFieldVisState,
+    ) -> CcSnippet<'tcx> {
+        self.emit_field_err_with_alignment(field, err, current_visibility, 1)
+    }
+
+    /// Like `emit_field_err`, for blobs of bytes whose position is not determined by preceding
+    /// fields and padding.
+    fn emit_field_err_with_alignment(
+        &self,
+        field: &Field<'tcx>,
+        err: &arc_anyhow::Error,
+        current_visibility: &mut CcFieldVisState,
+        alignment: u64,
     ) -> CcSnippet<'tcx> {
         let cc_name = &field.cc_name;
         let size = field.size();
@@ -2494,10 +2521,14 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         }
         let visibility = current_visibility.set_is_public(false);
         let size = Literal::u64_unsuffixed(size);
+        let alignas = (alignment > 1).then(|| {
+            let alignment = Literal::u64_unsuffixed(alignment);
+            quote! { alignas(#alignment) }
+        });
         let tokens = quote! {
             #visibility __NEWLINE__
                 __COMMENT__ #msg
-                ::std::array<unsigned char, #size> #cc_name;
+                #alignas ::std::array<unsigned char, #size> #cc_name;
         };
         CcSnippet::with_include(tokens, CcInclude::array())
     }
@@ -2613,7 +2644,14 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let cc_name = &field.cc_name;
 
         let cpp_type = match &field.type_info {
-            Err(err) => return self.emit_field_err(field, err, current_visibility),
+            Err(err) => {
+                return self.emit_field_err_with_alignment(
+                    field,
+                    err,
+                    current_visibility,
+                    field.alignment,
+                )
+            }
             Ok(FieldTypeInfo { cpp_type, .. }) => cpp_type,
         };
 
@@ -2826,20 +2864,19 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 })
                 .collect();
 
-            let layout = &self.layout;
+            // C++ derives the alignment of a variant's struct from its fields, and `alignas(0)` has
+            // no effect.  Only omitted fields have to be accounted for explicitly.
             let variant_alignments = match layout_variants {
-                Variants::Multiple { variants: layout_vars, .. } => {
-                    #[rustversion::before(2026-05-18)]
-                    let get_align =
-                        |(_, layout): (VariantIdx, &LayoutData<FieldIdx, VariantIdx>)| {
-                            layout.align.abi.bytes() - tag_size_with_padding
-                        };
-                    #[rustversion::since(2026-05-18)]
-                    let get_align = |(i, _): (VariantIdx, &VariantLayout<FieldIdx>)| {
-                        LayoutData::for_variant(layout, i).align.abi.bytes() - tag_size_with_padding
-                    };
-                    layout_vars.iter_enumerated().map(get_align).collect_vec()
-                }
+                Variants::Multiple { .. } => variants
+                    .iter()
+                    .map(|variant_layout| {
+                        let fields = &variant_layout.fields;
+                        if fields.iter().all(|field| field.size() != 0) {
+                            return 0;
+                        }
+                        fields.iter().map(|field| field.alignment).max().unwrap_or(0)
+                    })
+                    .collect_vec(),
                 Variants::Single { .. } | Variants::Empty => {
                     vec![self.alignment_in_bytes]
                 }
diff --git a/cc_bindings_from_rs/generate_bindings/query_compiler.rs b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
index 823b5ae..341bf20 100644
--- a/cc_bindings_from_rs/generate_bindings/query_compiler.rs
+++ b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
@@ -22,7 +22,7 @@ use error_report::anyhow;
 #[rustversion::before(2026-05-18)]
 use rustc_abi::FieldsShape;
 use rustc_abi::IntegerType;
-use rustc_abi::{FieldIdx, Integer, Layout, Primitive, Scalar, Variants};
+use rustc_abi::{Integer, Layout, Primitive, Scalar, Variants};
 use rustc_ast::ast::{IntTy as IntT, UintTy as UintT};
 use rustc_hir::attrs::IntType;
 use rustc_infer::infer::TyCtxtInferExt;
@@ -343,27 +343,21 @@ pub fn get_tag_size_with_padding(layout: Layout<'_>) -> u64 {
     match layout.variants() {
         Variants::Single { .. } | Variants::Empty => 0,
         Variants::Multiple { tag: _, tag_encoding: _, tag_field: _, variants } => {
+            // No fields => variant is just the tag (and padding at the end, if the enum is
+            // `repr(align(...))`).
             #[rustversion::before(2026-05-18)]
-            let mut variant_offsets = variants.iter().map(|variant| match &variant.fields {
+            let mut variant_offsets = variants.iter().filter_map(|variant| match &variant.fields {
                 FieldsShape::Arbitrary { offsets, .. } => {
-                    if offsets.is_empty() {
-                        variant.size.bytes() // No fields => variant is just the
-                                             // tag.
-                    } else {
-                        offsets[FieldIdx::from_usize(0)].bytes()
-                    }
+                    offsets.iter().next().map(|offset| offset.bytes())
                 }
                 _ => panic!("Internal Error - Detected an enum with non-arbitrary field"),
             });
 
             #[rustversion::since(2026-05-18)]
-            let mut variant_offsets = variants.iter().map(|variant| {
-                if variant.field_offsets.is_empty() {
-                    variant.size.bytes()
-                } else {
-                    variant.field_offsets[FieldIdx::from_usize(0)].bytes()
-                }
-            });
+            let mut variant_offsets = variants
+                .iter()
+                .filter_map(|variant| variant.field_offsets.iter().next())
+                .map(|offset| offset.bytes());
 
             // There are two equivalent ways to express a rust enum:
             // 1. A struct that contains the discriminant and a union of the variants
@@ -375,7 +369,9 @@ pub fn get_tag_size_with_padding(layout: Layout<'_>) -> u64 {
             //
             // See https://doc.rust-lang.org/beta/nightly-rustc/rustc_abi/enum.FieldsShape.html#variant.Arbitrary
             // and https://doc.rust-lang.org/reference/type-layout.html#reprc-enums-with-fields
-            let expected_offset = variant_offsets.next().expect("At least one variant is required");
+            let Some(expected_offset) = variant_offsets.next() else {
+                return variants.iter().next().expect("At least one variant is required").size.bytes();
+            };
             for variant_offset in variant_offsets {
                 if variant_offset != expected_offset {
                     panic!("Internal Error - Detected an enum with different tag offsets.")
-- 
2.43.0


From 61f0c51300ea2d658b93bd9624ea1887bffd49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 19/45] fix: mutable references to zero-sized types are not
 checked for aliasing

std::array<T, 0> has a non-zero size in C++, so a call passing a
&mut [T; 0] aborted although it cannot overlap anything.
---
 .../generate_bindings/generate_function.rs        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index e871b11..3d33219 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -537,10 +537,12 @@ pub(crate) struct Param<'tcx> {
     pub(crate) ty: Ty<'tcx>,
 }
 
+fn is_zero_sized<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> bool {
+    query_compiler::get_layout(tcx, ty).map(|layout| layout.is_zst()).unwrap_or(false)
+}
+
 fn can_shared_refs_to_ty_alias_mut_refs<'tcx>(tcx: TyCtxt<'tcx>, target_ty: Ty<'tcx>) -> bool {
-    let is_zero_sized =
-        query_compiler::get_layout(tcx, target_ty).map(|layout| layout.is_zst()).unwrap_or(false);
-    if is_zero_sized {
+    if is_zero_sized(tcx, target_ty) {
         return true;
     }
 
@@ -577,7 +579,12 @@ fn refs_to_check_for_aliasing<'tcx, 'a>(
     for param in params {
         if let ty::TyKind::Ref(_region, target_ty, mutability) = param.ty.kind() {
             if mutability.is_mut() {
-                refs.mutable.push(param);
+                // References to zero-sized types refer to no memory, so they cannot overlap with
+                // anything, even though their C++ counterpart (e.g. `std::array<T, 0>`) may have a
+                // non-zero size.
+                if !is_zero_sized(tcx, *target_ty) {
+                    refs.mutable.push(param);
+                }
             } else if !can_shared_refs_to_ty_alias_mut_refs(tcx, *target_ty) {
                 refs.shared.push(param);
             }
-- 
2.43.0


From 550eec5f4a55cd705b1cac51cb049fa2af5220b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 20/45] fix: floating point constants keep their value in C++

Whole numbers were written without a decimal point, which is invalid with
the f suffix and loses the sign of a negative zero; infinities and NaNs
were written as text that is not C++.
---
 .../generate_struct_and_union.rs              | 28 +++++++++++++++++--
 cc_bindings_from_rs/generate_bindings/lib.rs  | 10 +++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index bcc742e..679c062 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -108,6 +108,24 @@ pub(crate) fn cpp_enum_cpp_underlying_type<'tcx>(
     db.format_ty_for_cc(field_type, TypeLocation::Field)
 }
 
+/// Formats a floating point value as a C++ expression, given its decimal representation.
+///
+/// The expression for values that are not finite requires the `<limits>` header.
+fn format_cc_float_value(value: f64, decimal: String, cc_type: &str, suffix: &str) -> String {
+    if value.is_nan() {
+        format!("::std::numeric_limits<{cc_type}>::quiet_NaN()")
+    } else if value.is_infinite() {
+        let sign = if value < 0.0 { "-" } else { "" };
+        format!("{sign}::std::numeric_limits<{cc_type}>::infinity()")
+    } else if decimal.contains(['.', 'E', 'e']) {
+        format!("{decimal}{suffix}")
+    } else {
+        // Without a decimal point, the C++ literal would be an integer: it cannot have the `f`
+        // suffix, and `-0` is not a negative zero.
+        format!("{decimal}.0{suffix}")
+    }
+}
+
 /// Returns a string representation of the value of a given numeric Scalar having a given TyKind.
 pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Result<String> {
     let scalar = match scalar {
@@ -138,8 +156,14 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Uint(U16) => format!("UINT16_C({})", scalar.to_u16()),
         TyKind::Uint(U32) => format!("UINT32_C({})", scalar.to_u32()),
         TyKind::Uint(U64) => format!("UINT64_C({})", scalar.to_u64()),
-        TyKind::Float(F32) => format!("{}f", scalar.to_f32()),
-        TyKind::Float(F64) => format!("{}L", scalar.to_f64()),
+        TyKind::Float(F32) => {
+            let value = f32::from_bits(scalar.to_u32());
+            format_cc_float_value(value.into(), scalar.to_f32().to_string(), "float", "f")
+        }
+        TyKind::Float(F64) => {
+            let value = f64::from_bits(scalar.to_u64());
+            format_cc_float_value(value, scalar.to_f64().to_string(), "double", "L")
+        }
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
         // Signed integer minimums cannot be expressed with literals, as `-<int>` parses as a unary
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index a79a701..b692ca5 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1128,7 +1128,7 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
     }
     let ty = normalize_ty(tcx, tcx.param_env(def_id), tcx.type_of(def_id).instantiate_identity());
     let rust_type = ty;
-    let cc_type_snippet = db.format_ty_for_cc(rust_type, TypeLocation::Const)?;
+    let mut cc_type_snippet = db.format_ty_for_cc(rust_type, TypeLocation::Const)?;
 
     let cc_type = cc_type_snippet.tokens;
     let cc_name = format_cc_ident(db, tcx.item_name(def_id).as_str())?;
@@ -1137,7 +1137,13 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
     // `ConstValue::Indirect`.
     let const_value: ConstValue = tcx.const_eval_poly(def_id).unwrap();
     let cc_value = match const_value {
-        ConstValue::Scalar(scalar) => scalar_value_to_string(tcx, scalar, *ty.kind()),
+        ConstValue::Scalar(scalar) => {
+            let cc_value = scalar_value_to_string(tcx, scalar, *ty.kind());
+            if cc_value.as_ref().is_ok_and(|value| value.contains("::std::numeric_limits")) {
+                cc_type_snippet.prereqs.includes.insert(CcInclude::SystemHeader("limits".into()));
+            }
+            cc_value
+        }
         ConstValue::ZeroSized => bail!("const of type `{rust_type}` cannot be generated as zero-sized consts are not supported in C++."),
         ConstValue::Slice { .. } | ConstValue::Indirect { .. } => {
             let string_literal = match ty.kind() {
-- 
2.43.0


From f66a806b5b0ec44430b03bfbb95ccb664066a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 21/45] fix: string constants keep NUL characters

The constant was built from a C string, so it ended at the first NUL, and
the escape of a NUL included the digits after it.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index b692ca5..c67a697 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1155,7 +1155,15 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
                     }
                     if let Some(slice) = const_value.try_get_slice_bytes_for_diagnostics(tcx) {
                         let str_data = std::str::from_utf8(slice).unwrap();
-                        Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        if str_data.contains('\0') {
+                            // A C string would end at the first NUL. Each NUL gets a literal of its
+                            // own, so that its escape sequence does not include what follows.
+                            let len = proc_macro2::Literal::usize_unsuffixed(str_data.len());
+                            let pieces = itertools::Itertools::intersperse(str_data.split('\0'), "\0");
+                            Some(quote! { rs_std::StrRef(::std::string_view(#(#pieces)*, #len)) }.to_string())
+                        } else {
+                            Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        }
                     } else { None }
                 }
                 _ => None
-- 
2.43.0


From 507e5fd60ae59093104d16bd55c4a396928b7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 22/45] fix: copying a SliceRef does not need the definition of
 its elements

A struct with a slice of arrays of itself, or a slice of options, did not compile: overload
resolution among SliceRef's converting constructors instantiated the element type.
---
 support/rs_std/slice_ref.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 7e2b5b7..a1a0e0d 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -65,10 +65,10 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   //
   // Style waiver for implicit conversions granted in cl/662479273.
   template <typename S>
-    requires(internal::ByteSliceTarget<T> &&
+    requires(!std::same_as<std::remove_cvref_t<S>, SliceRef> &&
+             internal::ByteSliceTarget<T> &&
              std::convertible_to<S, std::string_view> &&
-             std::is_trivially_copyable_v<std::remove_cvref_t<S>> &&
-             !std::same_as<std::remove_cvref_t<S>, SliceRef>)
+             std::is_trivially_copyable_v<std::remove_cvref_t<S>>)
   // Non-owning views (pointers, string views, and literals) are trivially
   // copyable. These do not need lifetime annotation.
   // NOLINTNEXTLINE(google-explicit-constructor)
@@ -77,10 +77,10 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
                  std::string_view(str).size()) {}
 
   template <typename S>
-    requires(internal::ByteSliceTarget<T> &&
+    requires(!std::same_as<std::remove_cvref_t<S>, SliceRef> &&
+             internal::ByteSliceTarget<T> &&
              std::convertible_to<const S&, std::string_view> &&
-             !std::is_trivially_copyable_v<std::remove_cvref_t<S>> &&
-             !std::same_as<std::remove_cvref_t<S>, SliceRef>)
+             !std::is_trivially_copyable_v<std::remove_cvref_t<S>>)
   // Owning containers (like std::string) are not trivially copyable. These are
   // marked with CRUBIT_LIFETIME_BOUND to prevent temporaries from outliving the
   // SliceRef.
@@ -92,7 +92,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // Implicit conversion from views.
   template <typename View>
   // NOLINTNEXTLINE(build/c++20)
-    requires(std::ranges::view<std::decay_t<View>> &&
+    requires(!std::same_as<std::remove_cvref_t<View>, SliceRef> &&
+             std::ranges::view<std::decay_t<View>> &&
              std::convertible_to<View &&, std::span<T>> &&
              !std::is_same_v<std::decay_t<View>, std::span<T>>)
   // NOLINTNEXTLINE(google-explicit-constructor)
@@ -103,7 +104,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // std::span).
   template <typename View>
   // NOLINTNEXTLINE(build/c++20)
-    requires(std::ranges::view<std::decay_t<View>> &&
+    requires(!std::same_as<std::remove_cvref_t<View>, SliceRef> &&
+             std::ranges::view<std::decay_t<View>> &&
              std::constructible_from<std::span<T>, View &&> &&
              !std::convertible_to<View &&, std::span<T>> &&
              !std::is_same_v<std::decay_t<View>, std::span<T>>)
@@ -113,7 +115,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // Implicit conversion from non-view containers (only allowed if T is const).
   template <typename Container>
   // NOLINTNEXTLINE(build/c++20)
-    requires(!std::ranges::view<std::decay_t<Container>> &&
+    requires(!std::same_as<std::remove_cvref_t<Container>, SliceRef> &&
+             !std::ranges::view<std::decay_t<Container>> &&
              std::is_const_v<T> &&
              std::convertible_to<Container &&, std::span<T>>)
   // NOLINTNEXTLINE(google-explicit-constructor)
@@ -127,7 +130,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // convertible to std::span.
   template <typename Container>
   // NOLINTNEXTLINE(build/c++20)
-    requires(!std::ranges::view<std::decay_t<Container>> &&
+    requires(!std::same_as<std::remove_cvref_t<Container>, SliceRef> &&
+             !std::ranges::view<std::decay_t<Container>> &&
              ((!std::is_const_v<T> &&
                std::constructible_from<std::span<T>, Container &&>) ||
               (std::is_const_v<T> &&
-- 
2.43.0


From f8905a7fdfc69b5f1fae59781971e44113733216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 23/45] fix: slice fields do not make types depend on each
 other in a cycle

The generator panicked for struct A with a field of type B when B has a field of type &'static [A].
---
 .../generate_struct_and_union.rs              | 67 ++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 679c062..6a1f8fc 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -108,6 +108,70 @@ pub(crate) fn cpp_enum_cpp_underlying_type<'tcx>(
     db.format_ty_for_cc(field_type, TypeLocation::Field)
 }
 
+/// Returns whether the C++ definition of `adt` has to come before a use of `ty` by value.
+///
+/// Elements of slices count only if `in_slices` is true.
+fn requires_definition_of<'tcx>(
+    tcx: TyCtxt<'tcx>,
+    ty: Ty<'tcx>,
+    adt: DefId,
+    in_slices: bool,
+    visited: &mut HashSet<Ty<'tcx>>,
+) -> bool {
+    if !visited.insert(ty) {
+        return false;
+    }
+    let mut recurse = |ty| requires_definition_of(tcx, ty, adt, in_slices, visited);
+    match ty.kind() {
+        TyKind::Adt(adt_def, args) => {
+            adt_def.did() == adt
+                || args.types().any(&mut recurse)
+                || (adt_def.did().krate == adt.krate
+                    && args.types().next().is_none()
+                    && adt_def.all_fields().any(|field_def| {
+                        let field_ty = field_def.ty(tcx, args);
+                        #[rustversion::since(2026-05-13)]
+                        let field_ty =
+                            crate::normalize_ty(tcx, tcx.param_env(field_def.did), field_ty);
+                        recurse(field_ty)
+                    }))
+        }
+        TyKind::Tuple(elements) => elements.iter().any(recurse),
+        TyKind::Array(element, _) => recurse(*element),
+        TyKind::Ref(_, pointee, _) | TyKind::RawPtr(pointee, _) => match pointee.kind() {
+            TyKind::Slice(element) => in_slices && recurse(*element),
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
+/// Given the `prereqs` of a field of type `ty` in `self_adt`, turns the definitions of the elements
+/// of slices that themselves need the definition of `self_adt` into forward declarations.
+///
+/// `SliceRef` only points at its elements: their definitions may come first, but don't have to.
+fn forward_declare_slice_elements<'tcx>(
+    tcx: TyCtxt<'tcx>,
+    ty: Ty<'tcx>,
+    self_adt: DefId,
+    prereqs: &mut CcPrerequisites<'tcx>,
+) {
+    for slice in ty.walk().filter_map(|arg| arg.as_type()) {
+        let TyKind::Slice(element) = slice.kind() else { continue };
+        if !requires_definition_of(tcx, *element, self_adt, true, &mut HashSet::new()) {
+            continue;
+        }
+        let is_needed_by_value = element.walk().filter_map(|arg| arg.as_type()).any(|inner| {
+            inner.ty_adt_def().is_some_and(|adt_def| {
+                requires_definition_of(tcx, ty, adt_def.did(), false, &mut HashSet::new())
+            })
+        });
+        if !is_needed_by_value {
+            prereqs.forward_declare_type(*element);
+        }
+    }
+}
+
 /// Formats a floating point value as a C++ expression, given its decimal representation.
 ///
 /// The expression for values that are not finite requires the `<limits>` header.
@@ -2385,10 +2449,11 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             );
         }
 
-        let cpp_type = self
+        let mut cpp_type = self
             .db
             .format_ty_for_cc(ty, TypeLocation::Field)?
             .resolve_feature_requirements(self.db.crate_features(self.db.source_crate_num()))?;
+        forward_declare_slice_elements(tcx, ty, self.adt_def.did(), &mut cpp_type.prereqs);
 
         let is_scalar = ty.is_primitive() || ty.is_raw_ptr() || ty.is_ref() || ty.is_fn_ptr();
         let packed_attribute = if self.is_packed() && (!is_scalar || ty.is_char()) {
-- 
2.43.0


From 34a561aef2a15ac6995194a4e65f21d9ef0c9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 24/45] fix: moving a Slot constructs its value instead of
 assigning to uninitialized storage

---
 support/internal/slot.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 120d974..e4c6359 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -107,7 +107,9 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) {
+    std::construct_at(&value_, std::move(other.value_));
+  }
 
   // Does not destroy the contained value.
   //
@@ -167,7 +169,9 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) {
+    std::construct_at(&value_, std::move(other.value_));
+  }
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From b09c52b7db8461fd26931d7398bb7bee1f5d5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 25/45] fix: movable.h names ::std, as rs::std may be declared

---
 support/movable.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/support/movable.h b/support/movable.h
index dbd728a..00a96fe 100644
--- a/support/movable.h
+++ b/support/movable.h
@@ -17,12 +17,12 @@ namespace internal {
 template <typename T>
 void Relocate(T* dest, T* src) {
   if constexpr (requires(T x) {
-                  T(crubit::UnsafeRelocateTag{}, std::move(x));
+                  T(crubit::UnsafeRelocateTag{}, ::std::move(x));
                 }) {
-    new (dest) T(crubit::UnsafeRelocateTag{}, std::move(*src));
+    new (dest) T(crubit::UnsafeRelocateTag{}, ::std::move(*src));
   } else {
-    new (dest) T(std::move(*src));
-    std::destroy_at(src);
+    new (dest) T(::std::move(*src));
+    ::std::destroy_at(src);
   }
 }
 }  // namespace internal
@@ -34,7 +34,7 @@ class Movable {
  public:
   // Default constructor: constructs contained T if T is default constructible.
   Movable()
-    requires(std::is_default_constructible_v<T>)
+    requires(::std::is_default_constructible_v<T>)
   {
     new (&value_) T();
     valueless_after_move_ = false;
@@ -44,24 +44,24 @@ class Movable {
   // Only allowed if T is C++ move constructible, to ensure temporary
   // destruction is safe.
   template <typename U = T>
-    requires(!std::is_same_v<std::remove_cvref_t<U>, Movable> &&
-             std::is_move_constructible_v<T> &&
-             std::is_constructible_v<T, U &&>)
+    requires(!::std::is_same_v<::std::remove_cvref_t<U>, Movable> &&
+             ::std::is_move_constructible_v<T> &&
+             ::std::is_constructible_v<T, U &&>)
   explicit Movable(U&& x) {
-    new (&value_) T(std::forward<U>(x));
+    new (&value_) T(::std::forward<U>(x));
     valueless_after_move_ = false;
   }
 
   // Construct T in-place.
   template <typename... Args>
-  explicit Movable(std::in_place_t, Args&&... args) {
-    new (&value_) T(std::forward<Args>(args)...);
+  explicit Movable(::std::in_place_t, Args&&... args) {
+    new (&value_) T(::std::forward<Args>(args)...);
     valueless_after_move_ = false;
   }
 
   // Take ownership of a value stored in a Slot<T>.
   static Movable TakeFromSlot(crubit::Slot<T>&& slot) {
-    return Movable(std::move(slot));
+    return Movable(::std::move(slot));
   }
 
   ~Movable() {
@@ -96,7 +96,7 @@ class Movable {
 
   // Copy constructor (only available if T is copy constructible)
   Movable(const Movable& other)
-    requires(std::is_copy_constructible_v<T>)
+    requires(::std::is_copy_constructible_v<T>)
   {
     if (!other.valueless_after_move_) {
       new (&value_) T(other.value_);
@@ -107,13 +107,13 @@ class Movable {
   }
 
   Movable(const Movable&)
-    requires(!std::is_copy_constructible_v<T>)
+    requires(!::std::is_copy_constructible_v<T>)
   = delete;
 
   // Copy assignment (only available if T is copy constructible and
   // copy assignable)
   Movable& operator=(const Movable& other)
-    requires(std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>)
+    requires(::std::is_copy_constructible_v<T> && ::std::is_copy_assignable_v<T>)
   {
     if (this == &other) return *this;
     if (!valueless_after_move_ && !other.valueless_after_move_) {
@@ -129,13 +129,13 @@ class Movable {
   }
 
   Movable& operator=(const Movable&)
-    requires(!std::is_copy_constructible_v<T> || !std::is_copy_assignable_v<T>)
+    requires(!::std::is_copy_constructible_v<T> || !::std::is_copy_assignable_v<T>)
   = delete;
 
   T& operator*() & { return value_; }
   const T& operator*() const& { return value_; }
-  T&& operator*() && { return std::move(value_); }
-  const T&& operator*() const&& { return std::move(value_); }
+  T&& operator*() && { return ::std::move(value_); }
+  const T&& operator*() const&& { return ::std::move(value_); }
 
   T* operator->() { return &value_; }
   const T* operator->() const { return &value_; }
-- 
2.43.0


From 48c2ed939745df69f863565942d3046632a0d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 26/45] fix: slices can be compared whatever the constness of
 their elements

---
 support/rs_std/slice_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index a1a0e0d..868c497 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -184,25 +184,25 @@ constexpr bool EqualImpl(SliceRef<const T> a, SliceRef<const T> b) {
 
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<const T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<const T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(const U& a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(SliceRef<T> a, const U& b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 
 template <typename T>
-- 
2.43.0


From 1b31206a278987fe1a105988cc87e70cbbcef94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 27/45] fix: converting std::optional<bool> to Option<bool>
 converts the value

---
 support/rs_std/option.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/support/rs_std/option.h b/support/rs_std/option.h
index a8d59a3..61b4156 100644
--- a/support/rs_std/option.h
+++ b/support/rs_std/option.h
@@ -18,10 +18,19 @@
 
 namespace rs_std {
 
+template <typename T>
+struct IsStdOptional : std::false_type {};
+template <typename T>
+struct IsStdOptional<::std::optional<T>> : std::true_type {};
+
 template <typename OptionType, typename T, typename U>
 inline constexpr bool OptionForwardConstructible = std::negation_v<
     std::disjunction<std::is_base_of<OptionType, std::decay_t<U>>,
                      std::is_same<std::decay_t<U>, std::nullopt_t>,
+                     std::is_same<std::decay_t<U>, ::std::optional<T>>,
+                     // As in std::optional, `has_value()` is not the value.
+                     std::conjunction<std::is_same<T, bool>,
+                                      IsStdOptional<std::decay_t<U>>>,
                      std::is_same<std::decay_t<U>, std::in_place_t>,
                      std::negation<std::is_constructible<T, U>>>>;
 
-- 
2.43.0


From f5ac44655ab4b8dadb82a4743ea95a13f43cbe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 28/45] fix: crubit::TupleAbi moves the elements into the
 encoder

The elements were passed as lvalues, so a tuple with a move-only element could
not be encoded, and copies were encoded of the others.
---
 support/bridge.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/bridge.h b/support/bridge.h
index d4a5069..adbcd7d 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -272,7 +272,9 @@ struct TupleAbi {
         [&](auto&&... args) {
           return std::apply(
               [&](auto&&... abis) {
-                (std::move(abis).Encode(args, encoder), ...);
+                (std::move(abis).Encode(std::forward<decltype(args)>(args),
+                                        encoder),
+                 ...);
               },
               std::move(abis));
         },
-- 
2.43.0


From 281f2bc5c777b9a2d2611ef27d673e1026106f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 29/45] fix: crubit::PairAbi can decode

std::pair is not an aggregate, so it has no designated initializers.
---
 support/bridge.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index adbcd7d..8799d2c 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -303,9 +303,9 @@ struct PairAbi {
     std::move(abis.second).Encode(std::move(value.second), encoder);
   }
   Value Decode(Decoder& decoder) && {
-    return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
+    return Value{
+        std::move(abis.first).Decode(decoder),
+        std::move(abis.second).Decode(decoder),
     };
   }
 
-- 
2.43.0


From d8474846a6eddba62c4ae19d2dbc6050477a23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 30/45] fix: move-assigning a DynCallable to itself leaves it
 empty

The disposed state was relocated onto itself with the old manager, against the
manager's contract: Rust's checks of unsafe preconditions abort there.
---
 support/rs_std/dyn_callable.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 8ae7d89..5a203fb 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -57,8 +57,10 @@ class ManagedCallable {
   }
 
   ManagedCallable& operator=(ManagedCallable&& other) {
-    // Dispose this.
+    // Dispose this. It is empty from here on, which matters if `other` is
+    // `*this`.
     manager_(FunctionToCall::dispose, &this->storage_, &this->storage_);
+    manager_ = EmptyManager;
 
     // Move other into this.
     other.manager_(FunctionToCall::relocate_from_to, /*from=*/&other.storage_,
-- 
2.43.0


From c0f151e19b165a54b62326607fdaa568f55c017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 31/45] fix: a consumed DynCallable is empty

After a call through &&, the callable claimed to hold a value, so it was encoded
as present although its state is not relocated any more: Rust received a Box
made of whatever the storage held.
---
 support/rs_std/dyn_callable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 5a203fb..fc7205b 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -135,7 +135,10 @@ inline ReturnType InvokedAfterMove(TypeErasedState*,
       }                                                                        \
     }                                                                          \
                                                                                \
-    bool HasValue() const { return invoker_ != nullptr; }                      \
+    bool HasValue() const {                                                    \
+      return invoker_ != nullptr &&                                            \
+             invoker_ != InvokedAfterMove<ReturnType, P...>;                   \
+    }                                                                          \
                                                                                \
    protected:                                                                  \
     InvokerType* invoker_ = nullptr;                                           \
-- 
2.43.0


From 6e12c34d22e503de102511668a45ad63248c6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 32/45] fix: the output of an async function has the layout
 that its future writes

---
 .../generate_bindings/generate_function.rs      | 17 +++++++++++++++--
 .../generate_function_thunk.rs                  | 11 ++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index 3d33219..fa28ae4 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -717,7 +717,7 @@ pub(crate) fn generate_thunk_call<'tcx>(
 
     let return_body = if is_async {
         let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
-            db.format_ty_for_cc(rs_return_type, TypeLocation::FnReturn { is_constructor: false })?;
+            db.format_ty_for_cc(rs_return_type, async_output_location(rs_return_type))?;
         prereqs += ret_prereqs;
         let local_name = expect_format_cc_ident("__return_value_ret_val_holder");
         prereqs.includes.insert(CcInclude::utility()); // for `std::move`
@@ -947,7 +947,7 @@ pub fn generate_function<'tcx>(
     let main_api_ret_type = if is_async {
         let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } = db.format_ty_for_cc(
             actual_rs_return_type,
-            TypeLocation::FnReturn { is_constructor: false },
+            async_output_location(actual_rs_return_type),
         )?;
         main_api_prereqs += ret_prereqs;
         main_api_prereqs.includes.insert(db.support_header("rs_std/dyn_erased_future.h"));
@@ -1253,6 +1253,19 @@ pub fn check_fn_sig(sig: &ty::FnSig) -> Result<()> {
     Ok(())
 }
 
+/// Returns the location to use when formatting the output type `ty` of an async function.
+///
+/// `DynErasedFuture<T>::Poll` writes the output into memory behind a `T*`, so `T` has to be an object
+/// type with the same layout as the Rust type, unlike the type of a value returned from a function:
+/// `std::tuple` and C++ references don't qualify.
+pub(crate) fn async_output_location(ty: Ty) -> TypeLocation {
+    match ty.kind() {
+        ty::TyKind::Tuple(types) if !types.is_empty() => TypeLocation::Other,
+        ty::TyKind::Ref(..) | ty::TyKind::FnPtr(..) => TypeLocation::Other,
+        _ => TypeLocation::FnReturn { is_constructor: false },
+    }
+}
+
 /// If `rs_return_type` represents an async future desugared type, extracts and returns its `Output` type.
 pub fn get_async_future_output_ty<'tcx>(
     tcx: TyCtxt<'tcx>,
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index 0b76aea..24a9aa7 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -2,7 +2,9 @@
 // Exceptions. See /LICENSE for license information.
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
-use crate::generate_function::{fn_arg_idents, get_async_future_output_ty};
+use crate::generate_function::{
+    async_output_location, fn_arg_idents, get_async_future_output_ty,
+};
 use crate::{
     does_type_implement_trait, format_cc_ident, format_param_types_for_cc_thunk, is_bridged_type,
     is_c_abi_compatible_by_value, liberate_and_deanonymize_late_bound_regions, BridgedBuiltin,
@@ -153,7 +155,7 @@ pub fn generate_thunk_decl<'tcx>(
     };
     let main_api_ret_type = if is_async {
         let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
-            db.format_ty_for_cc(actual_output_ty, TypeLocation::FnReturn { is_constructor })?;
+            db.format_ty_for_cc(actual_output_ty, async_output_location(actual_output_ty))?;
         prereqs += ret_prereqs;
         prereqs.includes.insert(db.support_header("rs_std/dyn_erased_future.h"));
         quote! { ::crubit::DynErasedFuture<#cc_ret_ty> }
@@ -204,9 +206,8 @@ pub fn generate_thunk_decl<'tcx>(
     // We should centralize this logic so that the order exists in a singular location used by both
     // places.
     let thunk_ret_type = if is_async {
-        let cc_ret_ty = db
-            .format_ty_for_cc(actual_output_ty, TypeLocation::FnReturn { is_constructor })?
-            .tokens;
+        let cc_ret_ty =
+            db.format_ty_for_cc(actual_output_ty, async_output_location(actual_output_ty))?.tokens;
         thunk_params.push(quote! { ::crubit::DynErasedFuture<#cc_ret_ty>* __ret_ptr });
         quote! { void }
     } else if is_constructor && is_bridged_layout_compat_type(db, sig_mid.output()) {
-- 
2.43.0


From 3ffb4edee9fe55eb3d14212c5801308faa2002a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 33/45] fix: a field named by a Rust keyword is spelled without
 r# in C++

---
 .../generate_bindings/generate_struct_and_union.rs           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 6a1f8fc..769f213 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2468,7 +2468,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
     fn analyze_field(&self, index: usize, field_def: &ty::FieldDef, offset: u64) -> Field<'tcx> {
         let tcx = self.db.tcx();
         let type_info = self.prepare_field_type(field_def);
-        let name = field_def.ident(tcx).to_string();
+        // Not `Ident::to_string`, which would spell Rust keywords as `r#keyword`.
+        let name = field_def.name.to_string();
         let features = self.db.crate_features(self.db.source_crate_num());
         let cc_name = code_gen_utils::unkeyword_cpp_ident(&name, features).to_string();
         let cc_name = if self.member_function_names.contains(&cc_name) {
@@ -2832,7 +2833,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                         .enumerate()
                         .flat_map(|(variant_index, variant_layout)| {
                             let variant_def = self.adt_def.variant(VariantIdx::from_usize(variant_index));
-                            let cc_variant = variant_def.ident(tcx);
+                            let cc_variant = variant_def.name;
                             let qualified_struct_name =
                                 format_nonportable_cc_type_name(&format!("{}::__crubit_{}_struct", adt_cc_name, cc_variant)).expect("generated invalid C++ identifier");
                             if variant_def.fields.is_empty() {
-- 
2.43.0


From 15bc0c6584733581e8030cc8aaa89a94993e3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 34/45] fix: a constant is generated under its public name or
 its cpp_name

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index c67a697..43f7611 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1131,7 +1131,11 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
     let mut cc_type_snippet = db.format_ty_for_cc(rust_type, TypeLocation::Const)?;
 
     let cc_type = cc_type_snippet.tokens;
-    let cc_name = format_cc_ident(db, tcx.item_name(def_id).as_str())?;
+    // The name under which the constant is public, or its `cpp_name`.
+    let cc_name = match db.symbol_unqualified_name(def_id) {
+        Some(name) => format_cc_ident(db, name.cpp_name.as_str())?,
+        None => format_cc_ident(db, tcx.item_name(def_id).as_str())?,
+    };
 
     // Note that `&str` constants may appear as either `ConstValue::Slice` or
     // `ConstValue::Indirect`.
-- 
2.43.0


From 54ed0536a22a7fc144a015f17b214e5d10c22cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 35/45] fix: two methods whose C++ names coincide do not end
 the generator

---
 .../generate_bindings/generate_struct_and_union.rs  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 769f213..4ea8465 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -437,17 +437,18 @@ pub(crate) fn generate_associated_item<'tcx>(
     crate::error_scope!(db, def_id);
     let result = match assoc_item.kind {
         ty::AssocKind::Fn { .. } => {
-            db.generate_function(def_id, method_name_override, static_method_mode).inspect(|_binding| {
+            db.generate_function(def_id, method_name_override, static_method_mode).and_then(|binding| {
                 // If `generate_function` succeeds, record the method in `member_function_names`.
                 let Some(unqualified_name) = db.symbol_unqualified_name(def_id) else {
                     panic!("Associated item should have an unqualified name: {}", tcx.def_path_str(def_id));
                 };
+                // Different Rust names may get the same C++ name: `new` is spelled `new_` in C++.
                 let cpp_name = unqualified_name.cpp_name.to_string();
-                let was_inserted = member_function_names.insert(cpp_name.clone());
-                assert!(
-                    was_inserted, // Bindings for Rust/user-named items are given priority.
-                    "Unexpected (user-named 'members' are handled first) naming conflict: {cpp_name}",
-            );
+                ensure!(
+                    member_function_names.insert(cpp_name.clone()),
+                    "Another method already has the C++ name `{cpp_name}`",
+                );
+                Ok(binding)
             })
         }
         ty::AssocKind::Const { .. } => generate_const(db, def_id),
-- 
2.43.0


From add9c1801e6991fdc9ade82e28441b0c31cb4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 36/45] fix: the canonical path of an item does not depend on
 the order of the source

---
 .../generate_bindings/database/fully_qualified_name.rs      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs b/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
index ae490d7..e641ef4 100644
--- a/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
+++ b/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
@@ -245,7 +245,11 @@ impl Ord for ExportedPath {
                 _ => Ordering::Equal,
             })
             // Failing all else, choose the lexicographically smallest path.
-            .then_with(|| self.path.cmp(&other.path))
+            // (`Symbol`s compare in the order in which the compiler first saw them.)
+            .then_with(|| {
+                let segments = self.path.iter().map(Symbol::as_str);
+                segments.cmp(other.path.iter().map(Symbol::as_str))
+            })
             .then_with(|| self.name.as_str().cmp(other.name.as_str()))
     }
 }
-- 
2.43.0


From ce2aecbdba4cf80d05dd4b37f7f2ca307648dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 37/45] fix: items whose C++ names coincide are reported
 instead of declared twice

---
 .../generate_struct_and_union.rs              |  35 ++++--
 cc_bindings_from_rs/generate_bindings/lib.rs  | 106 +++++++++++++++++-
 2 files changed, 124 insertions(+), 17 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 4ea8465..d83b51c 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -422,6 +422,25 @@ fn is_trait_method_of_impl_lookup_stable<'tcx>(tcx: TyCtxt<'tcx>, impl_assoc_id:
         .expect("Associated trait item should be defined on it's trait")
 }
 
+/// Records the C++ name of a member whose bindings were generated.
+///
+/// Different Rust names may have the same C++ name: `new` is spelled `new_` in C++.
+fn record_member_name(
+    db: &BindingsGenerator,
+    def_id: DefId,
+    member_names: &mut HashSet<String>,
+) -> Result<()> {
+    let Some(unqualified_name) = db.symbol_unqualified_name(def_id) else {
+        panic!("Associated item should have an unqualified name: {}", db.tcx().def_path_str(def_id));
+    };
+    let cpp_name = unqualified_name.cpp_name.to_string();
+    ensure!(
+        member_names.insert(cpp_name.clone()),
+        "Another member already has the C++ name `{cpp_name}`",
+    );
+    Ok(())
+}
+
 pub(crate) fn generate_associated_item<'tcx>(
     db: &BindingsGenerator<'tcx>,
     assoc_item: &ty::AssocItem,
@@ -438,20 +457,14 @@ pub(crate) fn generate_associated_item<'tcx>(
     let result = match assoc_item.kind {
         ty::AssocKind::Fn { .. } => {
             db.generate_function(def_id, method_name_override, static_method_mode).and_then(|binding| {
-                // If `generate_function` succeeds, record the method in `member_function_names`.
-                let Some(unqualified_name) = db.symbol_unqualified_name(def_id) else {
-                    panic!("Associated item should have an unqualified name: {}", tcx.def_path_str(def_id));
-                };
-                // Different Rust names may get the same C++ name: `new` is spelled `new_` in C++.
-                let cpp_name = unqualified_name.cpp_name.to_string();
-                ensure!(
-                    member_function_names.insert(cpp_name.clone()),
-                    "Another method already has the C++ name `{cpp_name}`",
-                );
+                record_member_name(db, def_id, member_function_names)?;
                 Ok(binding)
             })
         }
-        ty::AssocKind::Const { .. } => generate_const(db, def_id),
+        ty::AssocKind::Const { .. } => generate_const(db, def_id).and_then(|binding| {
+            record_member_name(db, def_id, member_function_names)?;
+            Ok(binding)
+        }),
         // TODO: b/405132277 - Rust does not support inherent associated types, but should support
         // associated types when adding traits.
         ty::AssocKind::Type { .. } => {
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 43f7611..7ce28dc 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -52,7 +52,7 @@ use database::{
 pub use database::{
     BindingsGenerator, CopyCtorStyle, CppTypeSpecialization, IncludeGuard, MoveCtorStyle,
 };
-use error_report::{anyhow, bail, ErrorReporting, ReportFatalError};
+use error_report::{anyhow, bail, ensure, ErrorReporting, ReportFatalError};
 use itertools::Itertools;
 use proc_macro2::{Ident, TokenStream};
 use query_compiler::{
@@ -2115,9 +2115,88 @@ impl<T: Iterator + Sized> SortedByDef for T {}
 struct FormattedItem<'tcx> {
     def_id: DefId,
     snippets: Option<ApiSnippets<'tcx>>,
+    /// The path of the definition, if the bindings contain one.
+    canonical_path: Option<ExportedPath>,
     aliases: Vec<ExportedPath>,
 }
 
+/// The C++ names in use, with the Rust modules that they are in.
+///
+/// Functions and constants have a namespace of their own in Rust, but not in C++: `fn parse` cannot
+/// be declared next to `mod parse`. Types and modules keep the name, because other items use them.
+#[derive(Default)]
+struct CcNames(HashSet<(Vec<Symbol>, String)>);
+
+impl CcNames {
+    fn new(db: &BindingsGenerator, items: &[FormattedItem]) -> Self {
+        let mut names = Self::default();
+        for item in items {
+            for path in item.canonical_path.iter().chain(&item.aliases) {
+                for (i, &module) in path.path.iter().enumerate() {
+                    names.0.insert((path.path[..i].to_vec(), Self::alias_name(db, module)));
+                }
+            }
+            if !Self::is_value(db, item.def_id) {
+                for path in &item.canonical_path {
+                    names.0.extend(Self::definition(db, item.def_id, path));
+                }
+                for path in &item.aliases {
+                    names.0.insert((path.path.clone(), Self::alias_name(db, path.name)));
+                }
+            }
+        }
+        names
+    }
+
+    fn is_value(db: &BindingsGenerator, def_id: DefId) -> bool {
+        matches!(db.tcx().def_kind(def_id), DefKind::Fn | DefKind::Const { .. })
+    }
+
+    fn alias_name(db: &BindingsGenerator, name: Symbol) -> String {
+        let features = db.crate_features(db.source_crate_num());
+        code_gen_utils::unkeyword_cpp_ident(name.as_str(), features).to_string()
+    }
+
+    fn definition(
+        db: &BindingsGenerator,
+        def_id: DefId,
+        path: &ExportedPath,
+    ) -> Option<(Vec<Symbol>, String)> {
+        let name = db.symbol_unqualified_name(def_id)?.cpp_name;
+        Some((path.path.clone(), name.to_string()))
+    }
+
+    fn claim_definition(
+        &mut self,
+        db: &BindingsGenerator,
+        def_id: DefId,
+        path: &ExportedPath,
+    ) -> Result<()> {
+        match Self::definition(db, def_id, path) {
+            Some(name) if Self::is_value(db, def_id) => self.claim(name),
+            _ => Ok(()),
+        }
+    }
+
+    fn claim_alias(
+        &mut self,
+        db: &BindingsGenerator,
+        def_id: DefId,
+        path: &ExportedPath,
+    ) -> Result<()> {
+        if !Self::is_value(db, def_id) {
+            return Ok(());
+        }
+        self.claim((path.path.clone(), Self::alias_name(db, path.name)))
+    }
+
+    fn claim(&mut self, name: (Vec<Symbol>, String)) -> Result<()> {
+        let cc_name = name.1.clone();
+        ensure!(self.0.insert(name), "Another item already has the C++ name `{cc_name}`");
+        Ok(())
+    }
+}
+
 struct GeneratedSpecializations<'tcx> {
     specializations: HashMap<TemplateSpecialization<'tcx>, CcSnippet<'tcx>>,
     impls_cc_details: Vec<TokenStream>,
@@ -2197,6 +2276,7 @@ fn formatted_items_in_crate<'tcx>(
                 return None;
             }
             let mut snippets = None;
+            let mut canonical_path = None;
             let canonical_name = db.symbol_canonical_name(def_id)?;
             let aliases = if canonical_name.krate_num == db.source_crate_num() {
                 // We only want to call `generate_item` on DefIds from our source crate. External
@@ -2208,7 +2288,8 @@ fn formatted_items_in_crate<'tcx>(
                     |err| (generate_unsupported_def(db, def_id, err).into_main_api(), vec![]),
                     |api_snippets| {
                         // Only generate aliases if we generate a definition.
-                        let (_, aliases) = paths.into_canonical_and_aliases();
+                        let (canonical, aliases) = paths.into_canonical_and_aliases();
+                        canonical_path = Some(canonical);
                         (api_snippets, aliases)
                     },
                 );
@@ -2217,7 +2298,7 @@ fn formatted_items_in_crate<'tcx>(
             } else {
                 paths.into_extern_aliases()
             };
-            Some(FormattedItem { def_id, snippets, aliases })
+            Some(FormattedItem { def_id, snippets, canonical_path, aliases })
         })
         .sorted_by_def_with(tcx, |item| item.def_id)
 }
@@ -2314,14 +2395,28 @@ fn generate_crate(db: &BindingsGenerator) -> Result<BindingsTokens> {
     let mut cc_api_impl = TokenStream::default();
     let mut extern_c_decls = BTreeSet::new();
     let mut main_apis = HashMap::<DefId, CcSnippet>::new();
-    for item in formatted_items_in_crate(db) {
+    let tcx = db.tcx();
+    let items = formatted_items_in_crate(db).collect::<Vec<_>>();
+    let mut cc_names = CcNames::new(db, &items);
+    for mut item in items {
         let def_id = item.def_id;
         error_scope!(db, def_id);
+        if let Some(path) = &item.canonical_path {
+            if let Err(err) = cc_names.claim_definition(db, def_id, path) {
+                if crubit_attr::get_attrs(tcx, def_id).unwrap().must_bind {
+                    report_must_bind_error(db, def_id, &err);
+                }
+                item.snippets = Some(generate_unsupported_def(db, def_id, err).into_main_api());
+                item.aliases.clear();
+            }
+        }
         // We delay handling aliases until after sorting by def id to ensure they are emitted in a
         // deterministic order, same as the main api definitions. This is important for caching and
         // testing.
         for alias in item.aliases.iter() {
-            let using_snippets = generate_using(db, &alias.name, def_id)
+            let using_snippets = cc_names
+                .claim_alias(db, def_id, alias)
+                .and_then(|()| generate_using(db, &alias.name, def_id))
                 .unwrap_or_else(|err| generate_unsupported_def(db, def_id, err));
             cc_details.push(CcDetails::new(
                 // `def_id` gets used for coalescing namespaces in
@@ -2386,7 +2481,6 @@ fn generate_crate(db: &BindingsGenerator) -> Result<BindingsTokens> {
     // Find the order of `main_apis` that 1) meets the requirements of
     // `CcPrerequisites::defs` and 2) makes a best effort attempt to keep the
     // `main_apis` in the same order as the source order of the Rust APIs.
-    let tcx = db.tcx();
 
     #[derive(Debug, Clone, PartialEq, Eq, Hash)]
     enum Node<'tcx> {
-- 
2.43.0


From fb0524da8873cf2534136b50c59313a2d74c843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:14 +0000
Subject: [PATCH 38/45] fix: parameters get C++ names that the generated
 function does not use otherwise

---
 .../generate_bindings/generate_function.rs    | 58 ++++++++++++++-----
 .../generate_function_thunk.rs                |  6 +-
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index fa28ae4..33f1a04 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -145,6 +145,46 @@ fn thunk_name(
     }
 }
 
+/// The names of the parameters of a C++ function: the names that they have in Rust, where possible.
+///
+/// A parameter without a name that is valid in C++ is called `__param_<index>`. So is one whose name
+/// is the C++ name of an earlier parameter, or could be the name of a local of the generated function
+/// (`x_slot` and `x_0` are names of locals that belong to a parameter `x`).
+fn cc_param_names(db: &BindingsGenerator, names: Vec<Option<rustc_span::Ident>>) -> Vec<Ident> {
+    // TODO(jeanpierreda): deduplicate this with thunk_param_names.
+    let cc_names = names
+        .into_iter()
+        .map(|name| name.filter(|ident| ident.name.as_str() != "_"))
+        .map(|name| format_cc_ident(db, name?.name.as_str()).ok())
+        .collect_vec();
+    let is_local_of = |name: &str, param: &str| {
+        let Some(suffix) = name.strip_prefix(param).and_then(|rest| rest.strip_prefix('_')) else {
+            return false;
+        };
+        let first = suffix.split('_').next().unwrap_or_default();
+        matches!(first, "slot" | "buffer" | "cabi")
+            || (!first.is_empty() && first.bytes().all(|b| b.is_ascii_digit()))
+    };
+    cc_names
+        .iter()
+        .enumerate()
+        .map(|(i, name)| match name {
+            Some(ident)
+                if {
+                    let name = ident.to_string();
+                    !name.starts_with("__return_value")
+                        && !name.starts_with("__param_")
+                        && !cc_names[..i].contains(&Some(ident.clone()))
+                        && !cc_names.iter().flatten().any(|p| is_local_of(&name, &p.to_string()))
+                } =>
+            {
+                ident.clone()
+            }
+            _ => expect_format_cc_ident(&format!("__param_{i}")),
+        })
+        .collect()
+}
+
 /// Returns a vector of identifiers `{prefix}_{i}` for `i` in `[0, n)`.
 fn ident_for_each(prefix: &str, n: usize) -> Vec<Ident> {
     (0..n).map(|i| expect_format_cc_ident(&format!("{prefix}_{i}"))).collect()
@@ -960,25 +1000,11 @@ pub fn generate_function<'tcx>(
         let names = fn_arg_idents(tcx, def_id);
         let cpp_types =
             format_param_types_for_cc_api(db, &sig_mid, function_kind.has_self_param())?;
-        names
+        cc_param_names(db, names)
             .into_iter()
-            .enumerate()
             .zip(sig_mid.inputs())
             .zip(cpp_types)
-            .map(|(((i, name), ty), cpp_type)| {
-                // TODO(jeanpierreda): deduplicate this with thunk_param_names.
-                let mut cc_name = None;
-                if let Some(ident) = name.as_ref()
-                    && ident.name.as_str() != "_"
-                    && let Ok(name) = format_cc_ident(db, ident.name.as_str())
-                {
-                    cc_name = Some(name);
-                }
-                let cc_name = if let Some(cc_name) = cc_name {
-                    cc_name
-                } else {
-                    expect_format_cc_ident(&format!("__param_{i}"))
-                };
+            .map(|((cc_name, ty), cpp_type)| {
                 Param { cc_name, cpp_type, ty: *ty }
             })
             .collect_vec()
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index 24a9aa7..9ae69f7 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -409,7 +409,11 @@ fn thunk_param_names(tcx: TyCtxt<'_>, fn_def_id: DefId) -> impl Iterator<Item =
             return format_ident!("__param_{i}");
         };
         // TODO(jeanpierreda): Deduplicate the logic after the next rustc rollout.
-        if ident.name == kw::Underscore || ident.name.is_empty() {
+        if ident.name == kw::Underscore
+            || ident.name.is_empty()
+            // The thunk has names of its own that start like this.
+            || ident.as_str().starts_with("__")
+        {
             format_ident!("__param_{i}")
         } else if ident.name == kw::SelfLower {
             format_ident!("__self")
-- 
2.43.0


From e11583b36b808442fe7bf0a5e661cd03b5f44be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:37 +0000
Subject: [PATCH 39/45] fix: a name escaped for C++ is not the name of another
 item or field

---
 .../generate_struct_and_union.rs              | 39 ++++++++++++++-----
 cc_bindings_from_rs/generate_bindings/lib.rs  | 21 ++++++++++
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index d83b51c..366f29b 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2346,8 +2346,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                     .iter()
                     .zip(offsets)
                     .enumerate()
-                    .map(|(index, (field_def, offset))| {
-                        self.analyze_field(index, field_def, offset)
+                    .map(|(index, (_, offset))| {
+                        self.analyze_field(index, &variant.fields.raw, offset)
                     })
                     .collect_vec();
 
@@ -2479,18 +2479,37 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         Ok(FieldTypeInfo { size, cpp_type, packed_attribute })
     }
 
-    fn analyze_field(&self, index: usize, field_def: &ty::FieldDef, offset: u64) -> Field<'tcx> {
+    /// The C++ names of the fields of a struct, a union or a variant: an underscore follows names
+    /// that are reserved in C++ or taken by another member.
+    fn cc_field_names(&self, fields: &[ty::FieldDef]) -> Vec<String> {
+        let features = self.db.crate_features(self.db.source_crate_num());
+        let mut cc_names = Vec::<String>::with_capacity(fields.len());
+        for field in fields {
+            let name = field.name.as_str();
+            let mut cc_name = code_gen_utils::unkeyword_cpp_ident(name, features).to_string();
+            while self.member_function_names.contains(&cc_name)
+                || cc_names.contains(&cc_name)
+                || (cc_name != name && fields.iter().any(|other| other.name.as_str() == cc_name))
+            {
+                cc_name.push('_');
+            }
+            cc_names.push(cc_name);
+        }
+        cc_names
+    }
+
+    fn analyze_field(
+        &self,
+        index: usize,
+        fields: &[ty::FieldDef],
+        offset: u64,
+    ) -> Field<'tcx> {
+        let field_def = &fields[index];
         let tcx = self.db.tcx();
         let type_info = self.prepare_field_type(field_def);
         // Not `Ident::to_string`, which would spell Rust keywords as `r#keyword`.
         let name = field_def.name.to_string();
-        let features = self.db.crate_features(self.db.source_crate_num());
-        let cc_name = code_gen_utils::unkeyword_cpp_ident(&name, features).to_string();
-        let cc_name = if self.member_function_names.contains(&cc_name) {
-            format!("{cc_name}_")
-        } else {
-            cc_name
-        };
+        let cc_name = self.cc_field_names(fields).swap_remove(index);
         let cc_name = format_cc_ident(self.db, cc_name.as_str())
             .unwrap_or_else(|_err| anonymous_field_ident(index));
         let rs_name = {
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 7ce28dc..8b37593 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -488,6 +488,7 @@ fn public_paths_by_def_id(
     let crate_name = tcx.crate_name(crate_num);
     let mut visible_parent_map = HashMap::default();
 
+    let features = db.crate_features(crate_num);
     let bfs_queue = &mut VecDeque::new();
     let mut module_seen_set = HashSet::new();
 
@@ -628,6 +629,26 @@ fn public_paths_by_def_id(
         let module_children = module_children(tcx, mod_like.def_id);
         let is_doc_hidden = mod_like.is_doc_hidden || tcx.is_doc_hidden(mod_like.def_id);
         for child in module_children.iter() {
+            // A Rust keyword may be escaped to a name that another item has already: `class` to `class_`.
+            let cc_name = code_gen_utils::unkeyword_cpp_ident(child.ident.as_str(), features);
+            if cc_name != child.ident.as_str()
+                && module_children
+                    .iter()
+                    .any(|other| other.vis.is_public() && other.ident.as_str() == cc_name)
+            {
+                if let Some(def_id) = child.res.opt_def_id()
+                    && child.vis.is_public()
+                    && crate_num == db.source_crate_num()
+                {
+                    error_scope!(db, def_id);
+                    let err = anyhow!("Another item already has the C++ name `{cc_name}`");
+                    db.errors().report(&err);
+                    if crubit_attr::get_attrs(tcx, def_id).unwrap().must_bind {
+                        report_must_bind_error(db, def_id, &err);
+                    }
+                }
+                continue;
+            }
             add_child(bfs_queue, child, mod_like.path_so_far.clone(), is_doc_hidden);
         }
     }
-- 
2.43.0


From d84abc9a89b4d71d60eacb3ab2b0e61762878a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 40/45] fix: members named like their class, and variants of
 repr(C) enums named like it or its tag

---
 .../generate_struct_and_union.rs              | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 366f29b..6369214 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1608,6 +1608,21 @@ pub fn generate_adt<'tcx>(
     );
 
     let mut member_function_names = HashSet::<String>::new();
+    // Names that the definition of the class itself needs.
+    member_function_names.insert(core.common.cc_short_name.to_string());
+    if let ty::TyKind::Adt(adt_def, _) = core.common.self_ty.kind()
+        && get_enum_kind(db, *adt_def) == Some(EnumKind::ReprC)
+    {
+        member_function_names.extend(["tag".to_string(), "Tag".to_string()]);
+        member_function_names.extend(
+            adt_def
+                .variants()
+                .iter()
+                .filter(|variant| !variant.fields.is_empty())
+                .map(|variant| repr_c_variant_cc_name(db, variant, &core.common.cc_short_name))
+                .map(|name| name.to_string()),
+        );
+    }
     let impl_items_snippets = core
         .def_id
         .map(|id| tcx.inherent_impls(id))
@@ -1976,6 +1991,21 @@ fn get_enum_kind<'tcx>(
     }
 }
 
+/// The C++ name of the field that holds the payload of a variant of a `#[repr(C)]` enum.
+fn repr_c_variant_cc_name(
+    db: &BindingsGenerator,
+    variant: &ty::VariantDef,
+    enum_cc_name: &Ident,
+) -> Ident {
+    let name =
+        format_cc_ident(db, variant.name.as_str()).unwrap_or_else(|_err| format_ident!("err_field"));
+    if name == *enum_cc_name || name == "tag" || name == "Tag" {
+        format_ident!("{name}_")
+    } else {
+        name
+    }
+}
+
 fn generate_variant_ctor<'tcx>(
     db: &BindingsGenerator<'tcx>,
     core: Rc<AdtCoreBindings<'tcx>>,
@@ -2855,8 +2885,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                             if variant.size == 0 {
                                 quote! {}
                             } else {
-                                let cc_variant_struct_name = format_cc_ident(self.db, variant_def.ident(tcx).as_str())
-                                    .unwrap_or_else(|_err| format_ident!("err_field"));
+                                let cc_variant_struct_name = repr_c_variant_cc_name(self.db, variant_def, adt_cc_name);
                                 let tag_unsuffixed = Literal::u64_unsuffixed(tag_size_with_padding);
                                 quote! { static_assert(#tag_unsuffixed == offsetof(#adt_cc_name, #cc_variant_struct_name)); }
                             }
@@ -3046,8 +3075,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 .variants()
                 .iter_enumerated()
                 .map(|(variant_index, variant_def)| {
-                    let cc_variant_name = format_cc_ident(self.db, variant_def.name.as_str())
-                        .unwrap_or_else(|_err| format_ident!("err_field"));
+                    let cc_variant_name =
+                        repr_c_variant_cc_name(self.db, variant_def, self.cc_short_name);
                     let cc_variant_struct_type = format_cc_ident(
                         self.db,
                         format!("__crubit_{}_struct", variant_def.ident(tcx).as_str()).as_ref(),
-- 
2.43.0


From 1fa5a8b599070714fb2699c06408eb1aef7436e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 41/45] fix: a type alias has its cpp_name or its public name
 in C++

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 28 +++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 8b37593..6d9c06a 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1970,8 +1970,14 @@ fn generate_item_impl<'tcx>(
             db.adt_needs_bindings(def_id).map(|core| Some(generate_adt(db, core)))
         }
         DefKind::Fn => db.generate_function(def_id, None, StaticMethodMode::Infer).map(Some),
-        DefKind::TyAlias => generate_type_alias(db, def_id, tcx.item_name(def_id).as_str())
-            .map(|snippets| Some(snippets.into_main_api())),
+        DefKind::TyAlias => {
+            // The name under which the alias is public, or its `cpp_name`.
+            let cc_name = db
+                .symbol_unqualified_name(def_id)
+                .map_or_else(|| tcx.item_name(def_id), |name| name.cpp_name);
+            generate_type_alias(db, def_id, cc_name.as_str())
+                .map(|snippets| Some(snippets.into_main_api()))
+        }
         DefKind::Const { .. } => generate_const(db, def_id).map(Some),
         DefKind::Trait => generate_trait(db, def_id).map(Some),
         DefKind::Impl { .. } => Ok(None), // Handled by `generate_adt`
@@ -2141,6 +2147,13 @@ struct FormattedItem<'tcx> {
     aliases: Vec<ExportedPath>,
 }
 
+/// The name of an alias: that of the path, or the `cpp_name` of the type alias behind it.
+fn alias_name(db: &BindingsGenerator, path: &ExportedPath) -> Symbol {
+    path.type_alias_def_id
+        .and_then(|def_id| crubit_attr::get_attrs(db.tcx(), def_id).unwrap().cpp_name)
+        .map_or(path.name, |cpp_name| Symbol::intern(cpp_name.as_str()))
+}
+
 /// The C++ names in use, with the Rust modules that they are in.
 ///
 /// Functions and constants have a namespace of their own in Rust, but not in C++: `fn parse` cannot
@@ -2154,7 +2167,7 @@ impl CcNames {
         for item in items {
             for path in item.canonical_path.iter().chain(&item.aliases) {
                 for (i, &module) in path.path.iter().enumerate() {
-                    names.0.insert((path.path[..i].to_vec(), Self::alias_name(db, module)));
+                    names.0.insert((path.path[..i].to_vec(), Self::escaped_name(db, module)));
                 }
             }
             if !Self::is_value(db, item.def_id) {
@@ -2162,7 +2175,8 @@ impl CcNames {
                     names.0.extend(Self::definition(db, item.def_id, path));
                 }
                 for path in &item.aliases {
-                    names.0.insert((path.path.clone(), Self::alias_name(db, path.name)));
+                    let name = alias_name(db, path);
+                    names.0.insert((path.path.clone(), Self::escaped_name(db, name)));
                 }
             }
         }
@@ -2173,7 +2187,7 @@ impl CcNames {
         matches!(db.tcx().def_kind(def_id), DefKind::Fn | DefKind::Const { .. })
     }
 
-    fn alias_name(db: &BindingsGenerator, name: Symbol) -> String {
+    fn escaped_name(db: &BindingsGenerator, name: Symbol) -> String {
         let features = db.crate_features(db.source_crate_num());
         code_gen_utils::unkeyword_cpp_ident(name.as_str(), features).to_string()
     }
@@ -2208,7 +2222,7 @@ impl CcNames {
         if !Self::is_value(db, def_id) {
             return Ok(());
         }
-        self.claim((path.path.clone(), Self::alias_name(db, path.name)))
+        self.claim((path.path.clone(), Self::escaped_name(db, alias_name(db, path))))
     }
 
     fn claim(&mut self, name: (Vec<Symbol>, String)) -> Result<()> {
@@ -2437,7 +2451,7 @@ fn generate_crate(db: &BindingsGenerator) -> Result<BindingsTokens> {
         for alias in item.aliases.iter() {
             let using_snippets = cc_names
                 .claim_alias(db, def_id, alias)
-                .and_then(|()| generate_using(db, &alias.name, def_id))
+                .and_then(|()| generate_using(db, &alias_name(db, alias), def_id))
                 .unwrap_or_else(|err| generate_unsupported_def(db, def_id, err));
             cc_details.push(CcDetails::new(
                 // `def_id` gets used for coalescing namespaces in
-- 
2.43.0


From ea9b344bd2c678bbaaf951c958693256ab65ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 42/45] fix: traits named impl, their members, and repr(C)
 enums named tag or Tag

---
 .../generate_bindings/generate_struct_and_union.rs         | 7 +++++++
 .../generate_bindings/generate_template_specialization.rs  | 4 +++-
 cc_bindings_from_rs/generate_bindings/lib.rs               | 6 ++++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 6369214..10c9fdd 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1870,6 +1870,13 @@ pub fn generate_adt_core<'tcx>(
     })?;
 
     let adt_def = self_ty.ty_adt_def().expect("`def_id` needs to identify an ADT");
+    if get_enum_kind(db, adt_def) == Some(EnumKind::ReprC) {
+        ensure!(
+            cpp_name != "tag" && cpp_name != "Tag",
+            "The bindings of a `#[repr(C)]` enum have members `tag` and `Tag`, \
+             which their class cannot be named after"
+        );
+    }
     let crubit_attrs = crubit_attr::get_attrs(tcx, def_id).unwrap_or_default();
 
     let keyword = match adt_def.adt_kind() {
diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 6fbbad6..c375369 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -1805,7 +1805,9 @@ fn generate_trait_impl_specialization<'tcx>(
         add_specialization_prereqs(db, &mut prereqs, adt.did())?;
     }
 
-    let mut member_function_names = HashSet::new();
+    // Names that `rs_std::impl` itself has.
+    let mut member_function_names =
+        HashSet::from(["impl".to_string(), "kIsImplemented".to_string()]);
     let assoc_items: ApiSnippets = tcx
         .associated_items(impl_def_id)
         .in_definition_order()
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 6d9c06a..ac6bb98 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1219,8 +1219,10 @@ fn supported_traits(db: &BindingsGenerator<'_>) -> Rc<[DefId]> {
     let traits = tcx
         .visible_traits()
         .filter(|trait_id| {
-            // Does the trait get bindings?
-            db.symbol_canonical_name(*trait_id).is_some()
+            // Does the trait get bindings? They have a member `impl`, which their class cannot be
+            // named after.
+            db.symbol_canonical_name(*trait_id)
+                .is_some_and(|name| name.unqualified.cpp_name.as_str() != "impl")
         })
         .filter(|trait_id| {
             // Traits do not support const generics.
-- 
2.43.0


From e07571defa10fadfba736dbdc850973365126835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 43/45] fix: crates named like any function of the C standard
 library get a namespace of their own

---
 .../database/fully_qualified_name.rs          | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs b/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
index e641ef4..cb0fc3c 100644
--- a/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
+++ b/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
@@ -191,17 +191,48 @@ pub fn rename_c_stdlib_functions(ns: Rc<str>) -> Rc<str> {
         "strcpy" | "strncpy" | "strcat" | "strncat" | "strcmp" | "strncmp" |
         "strlen" | "strchr" | "strrchr" | "strstr" | "strtok" | "strerror" |
         "memchr" |
+        "memcmp" | "strcoll" | "strxfrm" | "strcspn" | "strspn" | "strpbrk" | "aligned_alloc" |
         // Math & Utility
         "abs" | "labs" | "llabs" | "div" | "ldiv" | "lldiv" | "rand" | "srand" |
         "bsearch" | "qsort" | "getenv" | "sin" | "cos" | "tan" | "asin" | "acos" |
         "atan" | "atan2" | "sinh" | "cosh" | "tanh" | "exp" | "log" | "log10" |
         "pow" | "sqrt" | "ceil" | "floor" | "fabs" | "frexp" | "ldexp" | "modf" |
+        "acosh" | "asinh" | "atanh" | "exp2" | "expm1" | "ilogb" | "log1p" | "log2" | "logb" |
+        "scalbn" | "scalbln" | "cbrt" | "hypot" | "erf" | "erfc" | "lgamma" | "tgamma" |
+        "nearbyint" | "rint" | "lrint" | "llrint" | "round" | "lround" | "llround" | "trunc" |
+        "fmod" | "remainder" | "remquo" | "copysign" | "nan" | "nextafter" | "nexttoward" |
+        "fdim" | "fmax" | "fmin" | "fma" | "atof" | "atoi" | "atol" | "atoll" | "strtod" |
+        "strtof" | "strtold" | "strtol" | "strtoll" | "strtoul" | "strtoull" |
+        // Characters
+        "isalnum" | "isalpha" | "isblank" | "iscntrl" | "isdigit" | "isgraph" | "islower" |
+        "isprint" | "ispunct" | "isspace" | "isupper" | "isxdigit" | "tolower" | "toupper" |
+        // Processes, signals & locales
+        "atexit" | "at_quick_exit" | "quick_exit" | "raise" | "longjmp" | "setlocale" |
+        "localeconv" |
+        // Multibyte & wide characters
+        "mblen" | "mbtowc" | "wctomb" | "mbstowcs" | "wcstombs" | "btowc" | "wctob" | "mbsinit" |
+        "mbrlen" | "mbrtowc" | "wcrtomb" | "mbsrtowcs" | "wcsrtombs" | "mbrtoc16" | "c16rtomb" |
+        "mbrtoc32" | "c32rtomb" | "fwide" | "fwprintf" | "fwscanf" | "swprintf" | "swscanf" |
+        "vfwprintf" | "vfwscanf" | "vswprintf" | "vswscanf" | "vwprintf" | "vwscanf" | "wprintf" |
+        "wscanf" | "fgetwc" | "fgetws" | "fputwc" | "fputws" | "getwc" | "getwchar" | "putwc" |
+        "putwchar" | "ungetwc" | "wcstod" | "wcstof" | "wcstold" | "wcstol" | "wcstoll" |
+        "wcstoul" | "wcstoull" | "wcscpy" | "wcsncpy" | "wmemcpy" | "wmemmove" | "wcscat" |
+        "wcsncat" | "wcscmp" | "wcscoll" | "wcsncmp" | "wcsxfrm" | "wmemcmp" | "wcschr" |
+        "wcscspn" | "wcspbrk" | "wcsrchr" | "wcsspn" | "wcsstr" | "wcstok" | "wmemchr" | "wcslen" |
+        "wmemset" | "wcsftime" | "iswalnum" | "iswalpha" | "iswblank" | "iswcntrl" | "iswdigit" |
+        "iswgraph" | "iswlower" | "iswprint" | "iswpunct" | "iswspace" | "iswupper" | "iswxdigit" |
+        "iswctype" | "wctype" | "towlower" | "towupper" | "towctrans" | "wctrans" |
         // Time & Date
         "clock" | "difftime" | "mktime" | "time" | "asctime" | "ctime" |
         "gmtime" | "localtime" | "strftime" |
+        "timespec_get" |
         // I/O
         "printf" | "scanf" | "puts" | "fopen" | "fclose" | "fread" | "fwrite" |
-        "fseek" | "ftell" | "rewind" | "perror" | "tmpfile" | "tmpnam"
+        "fseek" | "ftell" | "rewind" | "perror" | "tmpfile" | "tmpnam" |
+        "fflush" | "freopen" | "setbuf" | "setvbuf" | "fprintf" | "fscanf" | "snprintf" |
+        "sprintf" | "sscanf" | "vfprintf" | "vfscanf" | "vprintf" | "vscanf" | "vsnprintf" |
+        "vsprintf" | "vsscanf" | "fgetc" | "fgets" | "fputc" | "fputs" | "getc" | "getchar" |
+        "putc" | "putchar" | "ungetc" | "fgetpos" | "fsetpos" | "clearerr" | "feof" | "ferror"
     ) {
         return Rc::from(format!("rs_{}", ns.as_ref()));
     }
-- 
2.43.0


From 5900a5437eaa820c93e11e2aa1a3313136c53d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 44/45] fix: variants and enumerators named by a C++ keyword,
 where keywords are not escaped

---
 .../generate_struct_and_union.rs              | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 10c9fdd..75d914c 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -331,7 +331,16 @@ fn generate_cpp_enum<'tcx>(
                 ));
                 return None;
             };
-            let enumerator_name = format_cc_ident(db, name.as_str()).unwrap();
+            let enumerator_name = match format_cc_ident(db, name.as_str()) {
+                Ok(enumerator_name) => enumerator_name,
+                Err(err) => {
+                    let err = err.context("Error formatting the name of an enumerator");
+                    return Some(
+                        generate_unsupported_def(db, assoc_item.def_id, err)
+                            .into_tokens(&mut main_api_prereqs),
+                    );
+                }
+            };
             let (opt_doc_comment, bracketed_enumerator_name) = if db.kythe_annotations() {
                 (
                     generate_doc_comment(db, assoc_item.def_id),
@@ -1998,14 +2007,22 @@ fn get_enum_kind<'tcx>(
     }
 }
 
+/// The C++ name of a variant of a `#[repr(C)]` enum.
+///
+/// Like the names of fields, it is escaped whatever the features are: the enum needs all of them.
+fn variant_cc_name(db: &BindingsGenerator, variant: &ty::VariantDef) -> Ident {
+    let features = db.crate_features(db.source_crate_num());
+    let name = code_gen_utils::unkeyword_cpp_ident(variant.name.as_str(), features);
+    format_cc_ident(db, &name).unwrap_or_else(|_err| format_ident!("err_field"))
+}
+
 /// The C++ name of the field that holds the payload of a variant of a `#[repr(C)]` enum.
 fn repr_c_variant_cc_name(
     db: &BindingsGenerator,
     variant: &ty::VariantDef,
     enum_cc_name: &Ident,
 ) -> Ident {
-    let name =
-        format_cc_ident(db, variant.name.as_str()).unwrap_or_else(|_err| format_ident!("err_field"));
+    let name = variant_cc_name(db, variant);
     if name == *enum_cc_name || name == "tag" || name == "Tag" {
         format_ident!("{name}_")
     } else {
@@ -2979,9 +2996,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                         .variants()
                         .iter_enumerated()
                         .map(|(variant_index, variant_def)| {
-                            let cc_variant_name =
-                                format_cc_ident(self.db, variant_def.name.as_str())
-                                    .unwrap_or_else(|_err| format_ident!("err_field"));
+                            let cc_variant_name = variant_cc_name(self.db, variant_def);
                             let (tag_size, _signed) = tag_ty.int_size_and_signed(tcx);
                             let (scalar_int, _) = ty::ScalarInt::truncate_from_uint(
                                 self.adt_def.discriminant_for_variant(tcx, variant_index).val,
@@ -3058,8 +3073,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                         Literal::u64_unsuffixed(variant_alignments[variant_index.index()]);
 
                     if variants[variant_index.index()].size == 0 {
-                        let cc_variant_name = format_cc_ident(self.db, variant_def.name.as_str())
-                            .unwrap_or_else(|_err| format_ident!("err_field"));
+                        let cc_variant_name = variant_cc_name(self.db, variant_def);
                         let msg = format!(
                             "Variant {} has no size, so no struct is generated.",
                             cc_variant_name
-- 
2.43.0


From 69f5e12cf7689c26ef811d1ab2bbb72d6033f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 45/45] fix: items of a module whose name cannot be spelled in
 C++ are reported

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index ac6bb98..c334af4 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1957,6 +1957,14 @@ macro_rules! error_scope {
     };
 }
 
+/// Checks that the names of all modules in `ns` can be spelled in C++.
+fn check_namespace(db: &BindingsGenerator, ns: &NamespaceQualifier) -> Result<()> {
+    for module in ns.parts() {
+        format_cc_ident(db, module).context("Error formatting the namespace of the item")?;
+    }
+    Ok(())
+}
+
 // A helper for `generate_item`.
 // The wrapper is used to ensure that the `must_bind` annotation is enforced.
 fn generate_item_impl<'tcx>(
@@ -1964,9 +1972,10 @@ fn generate_item_impl<'tcx>(
     def_id: DefId,
 ) -> Result<Option<ApiSnippets<'tcx>>> {
     let tcx = db.tcx();
-    if db.symbol_canonical_name(def_id).is_none() {
+    let Some(canonical_name) = db.symbol_canonical_name(def_id) else {
         return Ok(None);
     };
+    check_namespace(db, &canonical_name.cpp_ns_path)?;
     let item = match tcx.def_kind(def_id) {
         DefKind::Struct | DefKind::Enum | DefKind::Union => {
             db.adt_needs_bindings(def_id).map(|core| Some(generate_adt(db, core)))
@@ -2451,8 +2460,8 @@ fn generate_crate(db: &BindingsGenerator) -> Result<BindingsTokens> {
         // deterministic order, same as the main api definitions. This is important for caching and
         // testing.
         for alias in item.aliases.iter() {
-            let using_snippets = cc_names
-                .claim_alias(db, def_id, alias)
+            let using_snippets = check_namespace(db, &alias.to_namespace_qualifier(db))
+                .and_then(|()| cc_names.claim_alias(db, def_id, alias))
                 .and_then(|()| generate_using(db, &alias_name(db, alias), def_id))
                 .unwrap_or_else(|err| generate_unsupported_def(db, def_id, err));
             cc_details.push(CcDetails::new(
-- 
2.43.0

