From 09be1d4ece9438f4e02d593be85a7d72f551af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:20 +0000
Subject: [PATCH 01/15] fix: keep struct fields in declaration order

A struct whose fields refer to other structs had its fields reordered.
Fields whose types were already resolved came first, the others last.
Which types were resolved depended on hash map iteration order.
Two compilations of one schema could therefore disagree on the wire format.
---
 src/lib/check.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..eebd77e 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -283,6 +283,7 @@ fn resolve_one_second_pass<'a>(
         // store any field (+ its type) which could not be resolved
         let mut not_resolved = Vec::new();
         let mut fields = Vec::new();
+        let declared = s.0.clone();
         for (field_name, field_type) in s.0.into_iter() {
             if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
                 fields.push(field);
@@ -311,20 +312,16 @@ fn resolve_one_second_pass<'a>(
                 }
             }
             // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
+            // placed in the cache so finish resolving our fields, in the order in which
+            // they were declared: it is the order in which they are serialized
             let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
+            for (fname, fty) in declared.into_iter() {
                 now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
             }
             // and we have a complete type
             cache.insert(
                 name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
+                Ptr::new((name, ResolvedType::Struct(Struct { fields: now_resolved }))),
             );
         }
     } else {
-- 
2.43.0


From a2a50a639e0a72bd759f164e71b3130c851d4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:20 +0000
Subject: [PATCH 02/15] fix: find duplicate fields after a field of a declared
 type

The duplicate field check stopped at the first field whose type is not
built in. A duplicate after that field was accepted, and the generated
class did not compile.
---
 src/lib/check.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index eebd77e..46be2e0 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -226,10 +226,10 @@ fn resolve_one_first_pass<'a>(
                     return Err(format!("Duplicate field '{}' on struct '{}'", fname, name));
                 }
                 field_names.insert(fname);
+                // fields of other types are left for the second pass, but every field
+                // has to be visited here, because only this pass finds duplicates
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From 4c00ff08fb3a2de10293c8d5c796ee8dfbef1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:20 +0000
Subject: [PATCH 03/15] fix: report a cycle behind another type as a cycle

A type that refers to a cycle without being part of it could be resolved
first. The checker then claimed that a declared type does not exist.
---
 src/lib/check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 46be2e0..f191623 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -305,6 +305,12 @@ fn resolve_one_second_pass<'a>(
 
                     // it may fail, so propagate the error out
                     resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+                } else if visited.contains(&ftype_name) && !cache.contains_key(&ftype_name) {
+                    // if it's still being resolved further up, it's a cycle
+                    return Err(format!(
+                        "Found a cycle between two or more top level definitions in type '{}'",
+                        ftype_name
+                    ));
                 } else if !cache.contains_key(&ftype_name) {
                     //  if the field's typename is unresolved and not in the cache (resolved), it
                     // doesn't exist.
-- 
2.43.0


From 6e3ac5e948fe63073536ce515b15c3c7aaa1c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:20 +0000
Subject: [PATCH 04/15] fix: support the 32nd variant of an enum

The upper bound of the check on a received enum value was computed as a
signed number, so it was negative for an enum with 32 variants, and every
value was rejected. The declared value of the 32nd variant was negative
too, so it never equaled the value that was received.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..2649b76 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // `<<` yields a signed value, but the value on the wire is unsigned
+        let unsigned = if variant.value == 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From 7040048a761816e028ab86d26bc22b89bbde9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:43 +0000
Subject: [PATCH 05/15] fix: allow identifiers which start with a keyword

Names such as `floats` or `string_scalar` were rejected, because a keyword
was matched without checking that the identifier ends after it.
A type whose name starts with `export` was parsed as an export statement
for the same reason.
---
 src/lib/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..40ed291 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -35,7 +35,7 @@ peg::parser!(pub grammar pkt() for str {
     rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }
     /// Parses an entire identifier, ensuring no reserved keywords are used
     rule ident() -> &'input str
-        = i:quiet!{ $(!reserved() ident_start() ident_chars()*) } { i }
+        = i:quiet!{ $(!(reserved() !ident_chars()) ident_start() ident_chars()*) } { i }
 
     rule enum_variant() -> &'input str
         = s:ident() ___ ","? ___ { s }
@@ -70,7 +70,7 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule export() -> Node<'input>
-        = "export" _ s:string() {
+        = "export" !ident_chars() _ s:string() {
             Node::Export(s)
         }
 
-- 
2.43.0


From 0d13f09ba394975a6f2788f76b85446793dc3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:43 +0000
Subject: [PATCH 06/15] fix: accept blank lines which contain spaces or tabs

A line with only whitespace was a syntax error at the start of a schema,
after a comment and after an export. It was accepted everywhere else.
---
 src/lib/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 40ed291..9e63445 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
-        / _ s:(decl()) __ { Some(s) }
+        = _ comment() ___ { None }
+        / _ e:(export()) ___ { Some(e) }
+        / _ s:(decl()) ___ { Some(s) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0


From 00a0b7d177e021e61307f7af119f6cd8ff644d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:43 +0000
Subject: [PATCH 07/15] fix: name the offending token after non-ASCII text

The offset of a syntax error counts bytes, but it was used to count
characters. After a non-ASCII comment the message named a wrong token.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From ca6c90a9752f977bb73b2aeaddc8e6673e9d1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:43 +0000
Subject: [PATCH 08/15] fix: fail when the input does not exist

The compiler exited successfully without writing anything when the input
path could not be read.
---
 src/main.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..21cb505 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,17 +123,15 @@ fn main() -> Result<()> {
     let opts = Opts::parse();
     let base_dir = PathBuf::from(opts.path.clone());
     let out_dir = PathBuf::from(opts.out.clone());
-    if let Ok(meta) = fs::metadata(&opts.path) {
-        if meta.is_dir() {
-            for result in run_all(opts.path.clone(), opts.lang)? {
-                let out = result.path.clone();
-                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
-            }
-        } else {
-            let result = run_one(opts.path.clone(), opts.lang)?;
+    if fs::metadata(&opts.path)?.is_dir() {
+        for result in run_all(opts.path.clone(), opts.lang)? {
             let out = result.path.clone();
-            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
+            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
         }
+    } else {
+        let result = run_one(opts.path.clone(), opts.lang)?;
+        let out = result.path.clone();
+        save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
     }
 
     Ok(())
-- 
2.43.0


From c7b057cd6c2fb1f2b76fffe2ce741592c6f57065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:43 +0000
Subject: [PATCH 09/15] fix: keep dots in the name of a single input file

The last extension was removed twice when compiling a single file, so that
both `a.b.pkt` and `a.c.pkt` were written to `a.ts`.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21cb505..106f181 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From da2e15eddcc97870d003a24cfde276a2ba5de0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:36 +0000
Subject: [PATCH 10/15] fix: give colliding local variables different names

Local variables of the generated code are named after the path of a field,
joined by underscores. Different paths could give the same name, such as
field `b` of field `a` and field `a_b`. The generated code then declared
one variable twice and did not compile.
---
 src/lib/gen/gen_ctx.rs | 13 +++++++++++++
 src/lib/gen/ts.rs      | 19 ++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..492e65d 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    pub declared: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,7 +13,17 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            declared: HashSet::new(),
+        }
+    }
+
+    /// Declares a local variable, renaming it if its name is already taken.
+    /// `$` can't appear in a schema, so it never causes another conflict.
+    pub fn declare(&mut self, mut name: String) -> String {
+        while !self.declared.insert(name.clone()) {
+            name.push('$');
         }
+        name
     }
 
     #[inline]
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 2649b76..f6ffc82 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -23,7 +23,7 @@ fn fname(stack: &[String]) -> String { stack.join(".") }
 
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = ctx.declare(bindname(&ctx.stack));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +48,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = ctx.declare(varname(&ctx.stack, "item"));
+    let index = ctx.declare(varname(&ctx.stack, "index"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +128,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = ctx.declare(varname(&ctx.stack, "len"));
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = ctx.declare(varname(&ctx.stack, "index"));
+    let item_var = ctx.declare(varname(&ctx.stack, "item"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +156,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = ctx.declare(varname(&ctx.stack, "len"));
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +179,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = ctx.declare(self::varname(&ctx.stack, "temp"));
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
@@ -187,8 +187,9 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let mut bind_var = bindname(&ctx.stack);
     let old_stack = if init {
+        bind_var = ctx.declare(bind_var);
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
         ctx.push_fname(bind_var.clone());
-- 
2.43.0


From a779981d1b6a45129740be6cf720e827c397caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:06 +0000
Subject: [PATCH 11/15] Add a hook to choose the iteration order of hash maps

Building with `--cfg packetc_mc` replaces the hash containers of the type
checker by ones which iterate in a chosen order. Verification uses this to
explore every order. Nothing changes without the flag.
---
 src/lib/check.rs   |   3 ++
 src/lib/lib.rs     |   3 ++
 src/lib/mc_hash.rs | 123 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 129 insertions(+)
 create mode 100644 src/lib/mc_hash.rs

diff --git a/src/lib/check.rs b/src/lib/check.rs
index f191623..ff071a4 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -2,10 +2,13 @@
 //!
 //! Type-checking is done in two passes, so that it's possible to have lexical
 //! scoping.
+#[cfg(not(packetc_mc))]
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 use std::{cell::RefCell, fmt, fmt::Display, fmt::Formatter};
 
+#[cfg(packetc_mc)]
+use super::mc_hash::{HashMap, HashSet};
 use super::*;
 
 // TODO: real error type + report in a nice way
diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 2977a9d..5839196 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::upper_case_acronyms)]
+#![allow(unexpected_cfgs)]
 
 extern crate chrono;
 extern crate peg;
@@ -11,6 +12,8 @@ use peg::str::LineCol;
 pub mod ast;
 pub mod check;
 pub mod gen;
+#[cfg(packetc_mc)]
+pub mod mc_hash;
 pub mod parser;
 
 #[derive(Error, Debug)]
diff --git a/src/lib/mc_hash.rs b/src/lib/mc_hash.rs
new file mode 100644
index 0000000..e1e2c21
--- /dev/null
+++ b/src/lib/mc_hash.rs
@@ -0,0 +1,123 @@
+//! Hash containers with a chosen iteration order, for verification only
+//!
+//! They stand in for the containers of `std` when the crate is built with
+//! `--cfg packetc_mc`. Their contents behave the same, but the iteration order,
+//! which is random in `std`, follows the order set with `set_order`.
+use std::cell::RefCell;
+use std::hash::{BuildHasher, Hash, Hasher};
+use std::iter::FromIterator;
+use std::ops::{Deref, DerefMut};
+
+thread_local! {
+    static ORDER: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
+}
+
+/// Sets the order in which keys are iterated over in the current thread
+///
+/// Keys which are not listed come after the ones which are.
+pub fn set_order(keys: &[&str]) {
+    ORDER.with(|order| *order.borrow_mut() = keys.iter().map(|key| key.as_bytes().to_vec()).collect());
+}
+
+#[derive(Clone, Copy, Debug, Default)]
+pub struct ChosenState;
+impl BuildHasher for ChosenState {
+    type Hasher = ChosenHasher;
+    fn build_hasher(&self) -> Self::Hasher { ChosenHasher(Vec::new()) }
+}
+
+#[derive(Clone, Debug, Default)]
+pub struct ChosenHasher(Vec<u8>);
+impl Hasher for ChosenHasher {
+    fn write(&mut self, bytes: &[u8]) { self.0.extend_from_slice(bytes); }
+    // The containers of `std` iterate over their buckets in order, and start
+    // looking for a bucket at the one with the number of the hash
+    fn finish(&self) -> u64 {
+        let key = self.0.strip_suffix(&[0xff]).unwrap_or(&self.0);
+        ORDER.with(|order| {
+            let order = order.borrow();
+            order.iter().position(|k| k.as_slice() == key).unwrap_or(order.len()) as u64
+        })
+    }
+}
+
+type Map<K, V> = std::collections::HashMap<K, V, ChosenState>;
+
+#[derive(Clone, Debug)]
+pub struct HashMap<K, V>(Map<K, V>);
+impl<K, V> HashMap<K, V> {
+    pub fn new() -> Self { Self::default() }
+    pub fn with_capacity(capacity: usize) -> Self { HashMap(Map::with_capacity_and_hasher(capacity, ChosenState)) }
+}
+impl<K, V> Default for HashMap<K, V> {
+    fn default() -> Self { HashMap(Map::default()) }
+}
+impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
+    fn eq(&self, other: &Self) -> bool { self.0 == other.0 }
+}
+impl<K, V> Deref for HashMap<K, V> {
+    type Target = Map<K, V>;
+    fn deref(&self) -> &Self::Target { &self.0 }
+}
+impl<K, V> DerefMut for HashMap<K, V> {
+    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+}
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::collections::hash_map::IntoIter<K, V>;
+    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
+}
+impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = std::collections::hash_map::Iter<'a, K, V>;
+    fn into_iter(self) -> Self::IntoIter { self.0.iter() }
+}
+impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
+    type Item = (&'a K, &'a mut V);
+    type IntoIter = std::collections::hash_map::IterMut<'a, K, V>;
+    fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() }
+}
+impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self { HashMap(iter.into_iter().collect()) }
+}
+impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) { self.0.extend(iter) }
+}
+
+type Set<T> = std::collections::HashSet<T, ChosenState>;
+
+#[derive(Clone, Debug)]
+pub struct HashSet<T>(Set<T>);
+impl<T> HashSet<T> {
+    pub fn new() -> Self { Self::default() }
+    pub fn with_capacity(capacity: usize) -> Self { HashSet(Set::with_capacity_and_hasher(capacity, ChosenState)) }
+}
+impl<T> Default for HashSet<T> {
+    fn default() -> Self { HashSet(Set::default()) }
+}
+impl<T: Eq + Hash> PartialEq for HashSet<T> {
+    fn eq(&self, other: &Self) -> bool { self.0 == other.0 }
+}
+impl<T> Deref for HashSet<T> {
+    type Target = Set<T>;
+    fn deref(&self) -> &Self::Target { &self.0 }
+}
+impl<T> DerefMut for HashSet<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+}
+impl<T> IntoIterator for HashSet<T> {
+    type Item = T;
+    type IntoIter = std::collections::hash_set::IntoIter<T>;
+    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
+}
+impl<'a, T> IntoIterator for &'a HashSet<T> {
+    type Item = &'a T;
+    type IntoIter = std::collections::hash_set::Iter<'a, T>;
+    fn into_iter(self) -> Self::IntoIter { self.0.iter() }
+}
+impl<T: Eq + Hash> FromIterator<T> for HashSet<T> {
+    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self { HashSet(iter.into_iter().collect()) }
+}
+impl<T: Eq + Hash> Extend<T> for HashSet<T> {
+    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) { self.0.extend(iter) }
+}
-- 
2.43.0


From eb111391337e0eba55464fa895eab2d52e249437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:30 +0000
Subject: [PATCH 12/15] fix: reject enum values between the declared ones

The reader checked only the range of an enum value. For an enum with three or more
variants this accepted combinations of bits, which no variant has.
---
 src/lib/gen/ts.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index f6ffc82..be09daa 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -181,7 +181,12 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
     let fname = self::fname(&ctx.stack);
     let temp = ctx.declare(self::varname(&ctx.stack, "temp"));
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
-    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
+    // each variant is a single bit, so up to two variants there is nothing in between
+    let single_bit = match type_info.variants.len() {
+        n if n <= 2 => String::new(),
+        _ => format_f!(" && ({temp} & ({temp} - 1)) === 0"),
+    };
+    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}{single_bit}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
 }
 
-- 
2.43.0


From 5a167c61786b5d8de4764657cd1f4545688e2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:43 +0000
Subject: [PATCH 13/15] fix: fail when a directory entry cannot be examined

An error while looking at a directory entry made the compiler treat it as
a file that is not a schema. All schemas in such a directory were skipped,
and the command still reported success.
---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 106f181..0b60dbe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -4,7 +4,7 @@ extern crate fstrings;
 extern crate packetc_lib as pkt;
 
 use std::path::PathBuf;
-use std::{fs, path::Component, path::Path};
+use std::{fs, io::ErrorKind, path::Component, path::Path};
 
 use anyhow::Result;
 use clap::Clap;
@@ -49,7 +49,13 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
             let path = entry.path();
-            if path.is_dir() {
+            let is_dir = match fs::metadata(&path) {
+                Ok(metadata) => metadata.is_dir(),
+                // a link to nothing is not a directory
+                Err(err) if err.kind() == ErrorKind::NotFound => false,
+                Err(err) => return Err(err.into()),
+            };
+            if is_dir {
                 visit_files(path.to_str().unwrap(), cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
-- 
2.43.0


From 5b5ebef904a1287957a1709060d0477444ea739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:09 +0000
Subject: [PATCH 14/15] fix: accept file names which are not valid UTF-8

A schema in a directory whose name is not valid UTF-8 made the compiler
panic. A schema file with such a name was an error.
---
 src/main.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0b60dbe..759b6c1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,7 +44,7 @@ fn extension(lang: Lang) -> &'static str {
     }
 }
 
-fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Result<()> {
+fn visit_files(dir: &Path, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Result<()> {
     if fs::metadata(dir)?.is_dir() {
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
@@ -56,7 +56,7 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
                 Err(err) => return Err(err.into()),
             };
             if is_dir {
-                visit_files(path.to_str().unwrap(), cb)?;
+                visit_files(&path, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
             }
@@ -71,9 +71,9 @@ struct Schema {
     generated: String,
 }
 
-fn run_one(path: String, lang: Lang) -> Result<Schema> {
+fn run_one(path: PathBuf, lang: Lang) -> Result<Schema> {
     Ok(Schema {
-        path: PathBuf::from(path.clone()),
+        path: path.clone(),
         generated: match lang {
             /* Lang::Rust => pkt::compile::<pkt::gen::rust::Rust>(&fs::read_to_string(path)?)?, */
             Lang::TypeScript => pkt::compile::<pkt::gen::ts::TypeScript>(&fs::read_to_string(path)?)?,
@@ -82,17 +82,10 @@ fn run_one(path: String, lang: Lang) -> Result<Schema> {
     })
 }
 
-fn run_all(dir: String, lang: Lang) -> Result<Vec<Schema>> {
+fn run_all(dir: &Path, lang: Lang) -> Result<Vec<Schema>> {
     let mut out = Vec::new();
-    visit_files(&dir, &mut |entry| {
-        out.push(run_one(
-            entry
-                .path()
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("invalid path"))?
-                .into(),
-            lang,
-        )?);
+    visit_files(dir, &mut |entry| {
+        out.push(run_one(entry.path(), lang)?);
         Ok(())
     })?;
     Ok(out)
@@ -130,12 +123,12 @@ fn main() -> Result<()> {
     let base_dir = PathBuf::from(opts.path.clone());
     let out_dir = PathBuf::from(opts.out.clone());
     if fs::metadata(&opts.path)?.is_dir() {
-        for result in run_all(opts.path.clone(), opts.lang)? {
+        for result in run_all(&base_dir, opts.lang)? {
             let out = result.path.clone();
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
         }
     } else {
-        let result = run_one(opts.path.clone(), opts.lang)?;
+        let result = run_one(base_dir.clone(), opts.lang)?;
         let out = result.path.clone();
         save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
     }
-- 
2.43.0


From 568263adc729ff4f6ba4baa860b4a716a930cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:55:08 +0000
Subject: [PATCH 15/15] fix: write the module of a schema named ..pkt

The path of the module was derived with Path::with_extension.
It takes the stem of ..pkt for the current directory, so the write failed.
---
 src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 759b6c1..4a1b3fe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate clap;
 extern crate fstrings;
 extern crate packetc_lib as pkt;
 
+use std::ffi::OsString;
 use std::path::PathBuf;
 use std::{fs, io::ErrorKind, path::Component, path::Path};
 
@@ -100,13 +101,21 @@ fn save_one(schema: Schema, out: &Path) -> Result<()> {
     Ok(())
 }
 
+// `Path::with_extension` takes the stem of `..pkt` for the current directory
+fn module_name(file: &Path, lang: Lang) -> OsString {
+    let mut name = file.file_stem().unwrap_or_default().to_os_string();
+    name.push(".");
+    name.push(extension(lang));
+    name
+}
+
 fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserve_dir: bool) -> Result<PathBuf> {
     if preserve_dir {
         Ok(out_dir
             .components()
             .chain(file.strip_prefix(base_dir)?.components())
             .collect::<PathBuf>()
-            .with_extension(extension(lang)))
+            .with_file_name(module_name(file, lang)))
     } else {
         println!("{}", out_dir.display());
         Ok(out_dir
@@ -114,7 +123,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
             // This should never panic
             .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
-            .with_extension(extension(lang)))
+            .with_file_name(module_name(file, lang)))
     }
 }
 
-- 
2.43.0

