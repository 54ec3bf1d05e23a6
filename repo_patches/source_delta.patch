From 698c297d9acce48412778bc9baaf7b5ca8ec6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:02 +0000
Subject: [PATCH 01/20] fix: emit the type a constant's value is cast to

The value of a constant is written as '(T)value', but T was not collected as
a dependency, so the bindings could refer to a type that is not declared.
---
 src/bindgen/ir/constant.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index f96b2da..080f483 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -134,6 +134,9 @@ impl Literal {
                 } => {
                     out.add(library, path);
                 }
+                Literal::Cast { ref ty, .. } => {
+                    ty.add_dependencies(library, out);
+                }
                 _ => {}
             }
             true
-- 
2.43.0


From f88f6e91299dfb473e3968982ae15a2f9df29154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 02/20] fix: instantiate generic types used by statics

A static whose type is an instance of a generic type was skipped when
instances are collected and mangled, so C output contained a C++ style
template reference to a type that was never declared.
---
 src/bindgen/ir/global.rs | 9 +++++++++
 src/bindgen/library.rs   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/bindgen/ir/global.rs b/src/bindgen/ir/global.rs
index 7816a29..75c165a 100644
--- a/src/bindgen/ir/global.rs
+++ b/src/bindgen/ir/global.rs
@@ -9,6 +9,7 @@ use crate::bindgen::ir::{
     AnnotationSet, Cfg, Documentation, GenericParams, Item, ItemContainer, Path, Type,
 };
 use crate::bindgen::library::Library;
+use crate::bindgen::monomorph::Monomorphs;
 
 #[derive(Debug, Clone)]
 pub struct Static {
@@ -66,6 +67,14 @@ impl Static {
     pub fn simplify_standard_types(&mut self, config: &Config) {
         self.ty.simplify_standard_types(config);
     }
+
+    pub fn add_monomorphs(&self, library: &Library, out: &mut Monomorphs) {
+        self.ty.add_monomorphs(library, out);
+    }
+
+    pub fn mangle_paths(&mut self, monomorphs: &Monomorphs) {
+        self.ty.mangle_paths(monomorphs);
+    }
 }
 
 impl Item for Static {
diff --git a/src/bindgen/library.rs b/src/bindgen/library.rs
index 9bccceb..f9e76cc 100644
--- a/src/bindgen/library.rs
+++ b/src/bindgen/library.rs
@@ -402,6 +402,9 @@ impl Library {
         self.typedefs.for_all_items(|x| {
             x.add_monomorphs(self, &mut monomorphs);
         });
+        self.globals.for_all_items(|x| {
+            x.add_monomorphs(self, &mut monomorphs);
+        });
         for x in &self.functions {
             x.add_monomorphs(self, &mut monomorphs);
         }
@@ -439,6 +442,8 @@ impl Library {
             .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
         self.typedefs
             .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
+        self.globals
+            .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
         for x in &mut self.functions {
             x.mangle_paths(&monomorphs);
         }
-- 
2.43.0


From 1be505ebd064bd8aea70bd307711df7b89d76f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:41 +0000
Subject: [PATCH 03/20] fix: rename and emit types used as defaults of generic
 parameters

The default in 'template<typename T = Foo>' was neither renamed with the
configured prefix nor collected as a dependency.
---
 src/bindgen/ir/enumeration.rs  |  2 ++
 src/bindgen/ir/generic_path.rs | 21 +++++++++++++++++++++
 src/bindgen/ir/opaque.rs       |  5 ++++-
 src/bindgen/ir/structure.rs    |  4 ++++
 src/bindgen/ir/typedef.rs      |  2 ++
 src/bindgen/ir/union.rs        |  2 ++
 6 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index aa83a78..94e9480 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -510,6 +510,7 @@ impl Item for Enum {
 
     fn rename_for_config(&mut self, config: &Config) {
         config.export.rename(&mut self.export_name);
+        self.generic_params.rename_for_config(config);
 
         if config.language != Language::Cxx && self.tag.is_some() {
             // it makes sense to always prefix Tag with type name in C
@@ -642,6 +643,7 @@ impl Item for Enum {
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
+        self.generic_params.add_dependencies(library, out);
         for variant in &self.variants {
             variant.add_dependencies(library, out);
         }
diff --git a/src/bindgen/ir/generic_path.rs b/src/bindgen/ir/generic_path.rs
index 1b93a24..6a74e03 100644
--- a/src/bindgen/ir/generic_path.rs
+++ b/src/bindgen/ir/generic_path.rs
@@ -6,8 +6,10 @@ use syn::ext::IdentExt;
 use crate::bindgen::cdecl;
 use crate::bindgen::config::{Config, Language};
 use crate::bindgen::declarationtyperesolver::{DeclarationType, DeclarationTypeResolver};
+use crate::bindgen::dependencies::Dependencies;
 use crate::bindgen::ir::{ConstExpr, Path, PrimitiveType, Type};
 use crate::bindgen::language_backend::LanguageBackend;
+use crate::bindgen::library::Library;
 use crate::bindgen::utilities::IterHelpers;
 use crate::bindgen::writer::SourceWriter;
 
@@ -138,6 +140,25 @@ impl GenericParams {
             .collect()
     }
 
+    /// Apply renaming to the types and constants used as default values.
+    pub fn rename_for_config(&mut self, config: &Config) {
+        let scope = self.clone();
+        for param in &mut self.0 {
+            if let Some(ref mut default) = param.default {
+                default.rename_for_config(config, &scope);
+            }
+        }
+    }
+
+    /// Collect the types used as default values.
+    pub fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
+        for param in &self.0 {
+            if let Some(GenericArgument::Type(ref ty)) = param.default {
+                ty.add_dependencies_ignoring_generics(self, library, out);
+            }
+        }
+    }
+
     pub(crate) fn write_internal<F: Write, LB: LanguageBackend>(
         &self,
         language_backend: &mut LB,
diff --git a/src/bindgen/ir/opaque.rs b/src/bindgen/ir/opaque.rs
index 4527e3c..3337079 100644
--- a/src/bindgen/ir/opaque.rs
+++ b/src/bindgen/ir/opaque.rs
@@ -96,9 +96,12 @@ impl Item for OpaqueItem {
 
     fn rename_for_config(&mut self, config: &Config) {
         config.export.rename(&mut self.export_name);
+        self.generic_params.rename_for_config(config);
     }
 
-    fn add_dependencies(&self, _: &Library, _: &mut Dependencies) {}
+    fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
+        self.generic_params.add_dependencies(library, out);
+    }
 
     fn instantiate_monomorph(
         &self,
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index b481096..4c49598 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -318,6 +318,9 @@ impl Item for Struct {
             config.export.rename(&mut self.export_name);
         }
 
+        // Rename the types used as defaults of generic parameters
+        self.generic_params.rename_for_config(config);
+
         // Rename the types used in fields
         {
             let fields = self.fields.iter_mut().skip(self.has_tag_field as usize);
@@ -373,6 +376,7 @@ impl Item for Struct {
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
+        self.generic_params.add_dependencies(library, out);
         let mut fields = self.fields.iter();
 
         // If there is a tag field, skip it
diff --git a/src/bindgen/ir/typedef.rs b/src/bindgen/ir/typedef.rs
index e775a4e..8c83d05 100644
--- a/src/bindgen/ir/typedef.rs
+++ b/src/bindgen/ir/typedef.rs
@@ -158,10 +158,12 @@ impl Item for Typedef {
 
     fn rename_for_config(&mut self, config: &Config) {
         config.export.rename(&mut self.export_name);
+        self.generic_params.rename_for_config(config);
         self.aliased.rename_for_config(config, &self.generic_params);
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
+        self.generic_params.add_dependencies(library, out);
         self.aliased
             .add_dependencies_ignoring_generics(&self.generic_params, library, out);
     }
diff --git a/src/bindgen/ir/union.rs b/src/bindgen/ir/union.rs
index 9c42583..f5de5b6 100644
--- a/src/bindgen/ir/union.rs
+++ b/src/bindgen/ir/union.rs
@@ -164,6 +164,7 @@ impl Item for Union {
 
     fn rename_for_config(&mut self, config: &Config) {
         config.export.rename(&mut self.export_name);
+        self.generic_params.rename_for_config(config);
         for field in &mut self.fields {
             field.ty.rename_for_config(config, &self.generic_params);
         }
@@ -213,6 +214,7 @@ impl Item for Union {
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
+        self.generic_params.add_dependencies(library, out);
         for field in &self.fields {
             field
                 .ty
-- 
2.43.0


From 25d78d62a1b5d83e01d26756d8b07fb767e193c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 04/20] fix: keep the field order of struct literals in
 constants

Struct literals were kept in a randomly seeded hash map, whose iteration order
decided the order in which the types they mention are emitted and which field
of a transparent struct provides the value of a constant.
---
 src/bindgen/ir/constant.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 080f483..969afbf 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -3,9 +3,9 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
 use std::borrow::Cow;
-use std::collections::HashMap;
 use std::io::Write;
 
+use indexmap::IndexMap;
 use syn::ext::IdentExt;
 use syn::UnOp;
 
@@ -108,7 +108,7 @@ pub enum Literal {
     Struct {
         path: Path,
         export_name: String,
-        fields: HashMap<String, LiteralStructField>,
+        fields: IndexMap<String, LiteralStructField>,
     },
     Cast {
         ty: Type,
@@ -440,7 +440,7 @@ impl Literal {
                     } => name,
                     _ => return Err(format!("Unsupported call expression. {:?}", *expr)),
                 };
-                let mut fields = HashMap::<String, LiteralStructField>::default();
+                let mut fields = IndexMap::<String, LiteralStructField>::default();
                 for (index, arg) in args.iter().enumerate() {
                     let ident =
                         member_to_ident(&syn::Member::Unnamed(syn::Index::from(index))).to_string();
@@ -461,7 +461,7 @@ impl Literal {
                 ..
             }) => {
                 let struct_name = path.segments[0].ident.unraw().to_string();
-                let mut field_map = HashMap::<String, LiteralStructField>::default();
+                let mut field_map = IndexMap::<String, LiteralStructField>::default();
                 for field in fields {
                     let ident = member_to_ident(&field.member).to_string();
                     let cfg = Cfg::load(&field.attrs);
-- 
2.43.0


From 358516e18ea9fe29bbffd27b389a3cf932ff82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:59 +0000
Subject: [PATCH 05/20] fix: pick the define for a condition independently of
 hash order

Several keys of [defines] can spell the same condition; which one was used
depended on the iteration order of a randomly seeded hash map.
---
 src/bindgen/ir/cfg.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/ir/cfg.rs b/src/bindgen/ir/cfg.rs
index 9bf632c..9e0c00e 100644
--- a/src/bindgen/ir/cfg.rs
+++ b/src/bindgen/ir/cfg.rs
@@ -209,7 +209,8 @@ impl ToCondition for Cfg {
                 let define = config
                     .defines
                     .iter()
-                    .find(|(key, ..)| DefineKey::Boolean(cfg_name) == DefineKey::load(key));
+                    .filter(|(key, ..)| DefineKey::Boolean(cfg_name) == DefineKey::load(key))
+                    .min();
                 if let Some((_, define)) = define {
                     Some(Condition::Define(define.to_owned()))
                 } else {
@@ -218,9 +219,13 @@ impl ToCondition for Cfg {
                 }
             }
             Cfg::Named(ref cfg_name, ref cfg_value) => {
-                let define = config.defines.iter().find(|(key, ..)| {
-                    DefineKey::Named(cfg_name, cfg_value) == DefineKey::load(key)
-                });
+                let define = config
+                    .defines
+                    .iter()
+                    .filter(|(key, ..)| {
+                        DefineKey::Named(cfg_name, cfg_value) == DefineKey::load(key)
+                    })
+                    .min();
                 if let Some((_, define)) = define {
                     Some(Condition::Define(define.to_owned()))
                 } else {
-- 
2.43.0


From d2eebaaf43983b352e33601b03a2ea6cd14dafe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:16 +0000
Subject: [PATCH 06/20] fix: choose between packages of the same name
 independently of hash order

---
 src/bindgen/cargo/cargo.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index c8f820c..d2ae268 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -198,10 +198,12 @@ impl Cargo {
             }
         }
 
-        // If we could not verify the manifest path but we found candidates return the first one if
+        // If we could not verify the manifest path but we found candidates return one of them if
         // any, this is the old behavior which did not check for manifest path, kept for backwards
-        // compatibility
-        candidates.into_iter().next()
+        // compatibility. The packages are not ordered, so choose by version.
+        candidates
+            .into_iter()
+            .min_by(|a, b| a.version.cmp(&b.version))
     }
 
     /// Finds the directory for a specified package reference.
-- 
2.43.0


From c933e9b5998b8f183580305432e5149e66c8e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 07/20] fix: report a failure to flush the symbol file

---
 src/bindgen/bindings.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index dbd0b7d..8a37939 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -193,6 +193,7 @@ impl Bindings {
             writeln!(&mut writer, "{symbol};").expect("writing symbol failed");
         }
         write!(&mut writer, "}};").expect("writing symbol file footer failed");
+        writer.flush().expect("writing symbol file failed");
     }
 
     pub fn generate_depfile<P: AsRef<path::Path>>(&self, header_path: P, depfile_path: P) {
-- 
2.43.0


From 3f6f919d64fde8aa2b5b947069d9f807da70ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 08/20] fix: write no dependency or symbol file in a recursive
 run

---
 src/bindgen/bindings.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index 8a37939..fa5a1a5 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -184,6 +184,10 @@ impl Bindings {
     }
 
     pub fn generate_symfile<P: AsRef<path::Path>>(&self, symfile_path: P) {
+        if self.noop {
+            return;
+        }
+
         if let Some(dir) = symfile_path.as_ref().parent() {
             std::fs::create_dir_all(dir).unwrap();
         }
@@ -197,6 +201,10 @@ impl Bindings {
     }
 
     pub fn generate_depfile<P: AsRef<path::Path>>(&self, header_path: P, depfile_path: P) {
+        if self.noop {
+            return;
+        }
+
         if let Some(dir) = depfile_path.as_ref().parent() {
             if !dir.exists() {
                 std::fs::create_dir_all(dir).unwrap()
-- 
2.43.0


From 62f8d081712a95eba83c4e90dadcaa5aeb313812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 09/20] fix: keep the temporary target directory until
 expansion has finished

---
 src/bindgen/cargo/cargo_expand.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/cargo/cargo_expand.rs b/src/bindgen/cargo/cargo_expand.rs
index ed46a58..6b9ee74 100644
--- a/src/bindgen/cargo/cargo_expand.rs
+++ b/src/bindgen/cargo/cargo_expand.rs
@@ -79,8 +79,9 @@ pub fn expand(
 
     let mut _temp_dir = None; // drop guard
     if use_tempdir {
-        _temp_dir = Some(Builder::new().prefix("cbindgen-expand").tempdir()?);
-        set_target_dir(&mut cmd, _temp_dir.unwrap().path());
+        let temp_dir = Builder::new().prefix("cbindgen-expand").tempdir()?;
+        set_target_dir(&mut cmd, temp_dir.path());
+        _temp_dir = Some(temp_dir);
     } else if let Ok(ref path) = env::var("CARGO_EXPAND_TARGET_DIR") {
         set_target_dir(&mut cmd, Path::new(path));
     } else if let Ok(ref path) = env::var("OUT_DIR") {
-- 
2.43.0


From ef36891d1a29f090ccb78176e507130061e0f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 10/20] fix: a private associated constant does not hide the
 ones after it

---
 src/bindgen/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 7f004d1..9268e0f 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -792,7 +792,7 @@ impl Parse {
             if let syn::Visibility::Public(_) = item.vis {
             } else {
                 warn!("Skip {}::{} - (not `pub`).", crate_name, item.ident);
-                return;
+                continue;
             }
 
             let path = Path::new(item.ident.unraw().to_string() + impl_path.name());
-- 
2.43.0


From 8c3967431a1307547111386256362067d6ea17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 11/20] fix: report every skipped function of an extern block

---
 src/bindgen/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 9268e0f..a701d7e 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -625,7 +625,7 @@ impl Parse {
                         "Skip {}::{} - (fn's outside of the binding crate are not used).",
                         crate_name, function.sig.ident
                     );
-                    return;
+                    continue;
                 }
                 let path = Path::new(function.sig.ident.unraw().to_string());
                 match Function::load(
-- 
2.43.0


From be6898e008f6cddcddbf752ba12af095a1069387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 12/20] fix: report conflicting names of statics

---
 src/bindgen/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index a701d7e..ebcd088 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -894,7 +894,10 @@ impl Parse {
             match Static::load(path, item, mod_cfg) {
                 Ok(constant) => {
                     info!("Take {}::{}.", crate_name, item.ident);
-                    self.globals.try_insert(constant);
+                    let full_name = constant.path.clone();
+                    if !self.globals.try_insert(constant) {
+                        error!("Conflicting name for static {full_name}");
+                    }
                 }
                 Err(msg) => {
                     warn!("Skip {}::{} - ({})", crate_name, item.ident, msg);
-- 
2.43.0


From 4f69c2a52e0b4f55b785dd687e4c58a23a4bb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 13/20] fix: recognise the unsafe spelling of export_name on
 statics

---
 src/bindgen/utilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindgen/utilities.rs b/src/bindgen/utilities.rs
index 6c58b6d..b5d4450 100644
--- a/src/bindgen/utilities.rs
+++ b/src/bindgen/utilities.rs
@@ -65,6 +65,7 @@ impl SynItemHelpers for syn::ItemStatic {
     fn exported_name(&self) -> Option<String> {
         self.attrs
             .attr_name_value_lookup("export_name")
+            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
             .or_else(|| {
                 if self.is_no_mangle() {
                     Some(self.ident.unraw().to_string())
-- 
2.43.0


From 646b4ba67f6a39dd3fef78339907510c63d8e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 14/20] fix: honour ignore marks on functions of extern blocks

---
 src/bindgen/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index ebcd088..01e081b 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -617,6 +617,9 @@ impl Parse {
         let mod_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
         for foreign_item in &item.items {
             if let syn::ForeignItem::Fn(ref function) = *foreign_item {
+                if function.attrs.should_skip_parsing() {
+                    continue;
+                }
                 if !config
                     .parse
                     .should_generate_top_level_item(crate_name, binding_crate_name)
-- 
2.43.0


From 550267f01b94f86d274e7a858babb1b3c63c12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 15/20] fix: items of an impl block carry the condition of the
 block

---
 src/bindgen/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 01e081b..2b467d7 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -541,6 +541,7 @@ impl Parse {
                         impls_with_assoc_consts.push(item_impl);
                     }
 
+                    let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
                     if let syn::Type::Path(ref path) = *item_impl.self_ty {
                         if let Some(type_name) = path.path.get_ident() {
                             for method in item_impl.items.iter().filter_map(|item| match item {
@@ -553,7 +554,7 @@ impl Parse {
                                     config,
                                     binding_crate_name,
                                     crate_name,
-                                    mod_cfg,
+                                    impl_cfg.as_ref(),
                                     &Path::new(type_name.unraw().to_string()),
                                     method,
                                 )
@@ -592,9 +593,10 @@ impl Parse {
             }
             _ => None,
         });
+        let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
         self.load_syn_assoc_consts(
             crate_name,
-            mod_cfg,
+            impl_cfg.as_ref(),
             &item_impl.self_ty,
             associated_constants,
         );
-- 
2.43.0


From 2d72533dc7267a85951b613d5013cac1ae8b8555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:14 +0000
Subject: [PATCH 16/20] fix: items of a bitflags invocation carry its condition

---
 src/bindgen/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 2b467d7..245e3c2 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -1034,6 +1034,8 @@ impl Parse {
             transparent
         };
 
+        let macro_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
+        let mod_cfg = macro_cfg.as_ref();
         let (struct_, impl_) = bitflags.expand(out_of_line_transparent);
         if let Some(struct_) = struct_ {
             self.load_syn_struct(config, crate_name, mod_cfg, &struct_);
-- 
2.43.0


From 9430fbcbd11956cba8963daed4945a769d9eaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 17/20] fix: guard the ostream cases of conditional enum
 variants

---
 src/bindgen/ir/enumeration.rs | 53 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 94e9480..f9d5664 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1041,21 +1041,20 @@ impl Enum {
             }
             write!(out, "switch ({instance})");
             out.open_brace();
-            let vec: Vec<_> = self
-                .variants
-                .iter()
-                .map(|x| {
-                    format!(
-                        "case {}::{}: {} << \"{}\"; break;",
-                        tag_name, x.export_name, stream, x.export_name
-                    )
-                })
-                .collect();
             out.write_vertical_source_list(
                 language_backend,
-                &vec[..],
+                &self.variants,
                 ListType::Join(""),
-                |_, out, s| write!(out, "{s}"),
+                |_, out, x| {
+                    let condition = x.cfg.to_condition(config);
+                    condition.write_before(config, out);
+                    write!(
+                        out,
+                        "case {}::{}: {} << \"{}\"; break;",
+                        tag_name, x.export_name, stream, x.export_name
+                    );
+                    condition.write_after(config, out);
+                },
             );
             out.close_brace(false);
             out.new_line();
@@ -1090,16 +1089,20 @@ impl Enum {
 
                 write!(out, "switch ({instance}.tag)");
                 out.open_brace();
-                let vec: Vec<_> = self
-                    .variants
-                    .iter()
-                    .map(|x| {
+                out.write_vertical_source_list(
+                    language_backend,
+                    &self.variants,
+                    ListType::Join(""),
+                    |_, out, x| {
+                        let condition = x.cfg.to_condition(config);
+                        condition.write_before(config, out);
                         let tag_str = format!("\"{}\"", x.export_name);
                         if let VariantBody::Body {
                             ref name, ref body, ..
                         } = x.body
                         {
-                            format!(
+                            write!(
+                                out,
                                 "case {}::{}: {} << {}{}{}.{}; break;",
                                 tag_name,
                                 x.export_name,
@@ -1108,20 +1111,16 @@ impl Enum {
                                 if body.has_tag_field { "" } else { " << " },
                                 instance,
                                 name,
-                            )
+                            );
                         } else {
-                            format!(
+                            write!(
+                                out,
                                 "case {}::{}: {} << {}; break;",
                                 tag_name, x.export_name, stream, tag_str,
-                            )
+                            );
                         }
-                    })
-                    .collect();
-                out.write_vertical_source_list(
-                    language_backend,
-                    &vec[..],
-                    ListType::Join(""),
-                    |_, out, s| write!(out, "{s}"),
+                        condition.write_after(config, out);
+                    },
                 );
                 out.close_brace(false);
                 out.new_line();
-- 
2.43.0


From e0c36ee0ea62f0ba062f9e782608d3573d877225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:34 +0000
Subject: [PATCH 18/20] fix: honour cbindgen:no-export on constants

---
 src/bindgen/ir/constant.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 969afbf..e51ec11 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -691,6 +691,10 @@ impl Constant {
         debug_assert!(config.structure.associated_constants_in_body);
         debug_assert!(config.constant.allow_static_const);
 
+        if !self.annotations.should_export() {
+            return;
+        }
+
         let condition = self.cfg.to_condition(config);
         condition.write_before(config, out);
         if let Type::Ptr { is_const: true, .. } = self.ty {
@@ -722,6 +726,10 @@ impl Constant {
             }
         }
 
+        if !self.annotations.should_export() {
+            return;
+        }
+
         if !self.value.is_valid(out.bindings()) {
             return;
         }
-- 
2.43.0


From ad465276b2a01d82388629bb3dea5bfd56026b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:36 +0000
Subject: [PATCH 19/20] fix: honour parse.clean of the configuration file on
 the command line

The clean setting was taken from the command line only, so a cbindgen.toml
with parse.clean = true was ignored by the executable.
---
 src/bindgen/cargo/cargo.rs | 6 ++++++
 src/main.rs                | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index d2ae268..d033a53 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -82,6 +82,12 @@ impl Cargo {
         })
     }
 
+    /// Whether macros are expanded in a new temporary target directory.
+    #[allow(unused)]
+    pub(crate) fn set_clean(&mut self, clean: bool) {
+        self.clean = clean;
+    }
+
     pub(crate) fn binding_crate_name(&self) -> &str {
         &self.binding_crate_name
     }
diff --git a/src/main.rs b/src/main.rs
index e0c9cbd..094607b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -78,6 +78,10 @@ fn apply_config_overrides(config: &mut Config, matches: &ArgMatches) {
     if matches.get_flag("d") {
         config.parse.parse_deps = true;
     }
+
+    if matches.get_flag("clean") {
+        config.parse.clean = true;
+    }
 }
 
 fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error> {
@@ -102,7 +106,7 @@ fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error>
     }
 
     // We have to load a whole crate, so we use cargo to gather metadata
-    let lib = Cargo::load(
+    let mut lib = Cargo::load(
         input,
         matches.get_one::<PathBuf>("lockfile").map(|s| s.as_path()),
         matches.get_one::<String>("crate").map(|s| s.as_str()),
@@ -128,6 +132,7 @@ fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error>
     };
 
     apply_config_overrides(&mut config, matches);
+    lib.set_clean(config.parse.clean);
 
     Builder::new()
         .with_config(config)
-- 
2.43.0


From c7d26231274845542e1252afa7371d8d59aee9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:16 +0000
Subject: [PATCH 20/20] fix: treat #[repr(transparent)] enums as opaque

A transparent enum has the layout of its only field, but it was emitted as
a tagged union (with an undeclared tag type).
---
 src/bindgen/ir/enumeration.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index f9d5664..c7711ba 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -361,6 +361,10 @@ impl Enum {
         if repr.style == ReprStyle::Rust && repr.ty.is_none() {
             return Err("Enum is not marked with a valid #[repr(prim)] or #[repr(C)].".to_owned());
         }
+        // The layout of a transparent enum is that of its field, not that of a tagged union.
+        if repr.style == ReprStyle::Transparent {
+            return Err("Enum is marked with #[repr(transparent)].".to_owned());
+        }
         // TODO: Implement translation of aligned enums.
         if repr.align.is_some() {
             return Err("Enum is marked with #[repr(align(...))] or #[repr(packed)].".to_owned());
-- 
2.43.0

