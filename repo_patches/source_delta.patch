From 16ec7e0caaecc8d7b48f47a40e2b59915c040da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 01/43] fix: a target whose import fails to load fails the
 build

Verifying one module (or an open file) whose dependency does not
elaborate logged the indirect error but left the build status good, so
the tool reported success for a module it had not verified at all.
---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 210b4fe..af3fc23 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1694,6 +1694,8 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
+                        // The module could not be verified, so the build has not succeeded.
+                        self.status = BuildStatus::Error;
                         if self.log_secondary_errors {
                             self.log_global(e.to_string());
                         }
@@ -3339,6 +3341,8 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
+                        // The module could not be verified, so the build has not succeeded.
+                        self.status = BuildStatus::Error;
                         if self.log_secondary_errors {
                             self.log_global(e.to_string());
                         }
@@ -3585,6 +3589,8 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
+                        // The module could not be verified, so the build has not succeeded.
+                        self.status = BuildStatus::Error;
                         if self.log_secondary_errors {
                             // The real problem is in a different module.
                             // So we don't want to locate the error in this module.
-- 
2.43.0


From cc49fc1faf77398a3289278427df9ba9c8f7c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 02/43] fix: skip an unchanged module only if it was checked
 against its dependencies' current contents

---
 src/build_cache.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 src/builder.rs     | 11 ++++++++++-
 src/manifest.rs    | 24 +++++++++++++++++++++++-
 3 files changed, 75 insertions(+), 3 deletions(-)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index 47569ab..938d9bb 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -239,6 +239,22 @@ impl BuildCache {
         }
     }
 
+    /// One hash for the contents of everything a module depends on.
+    fn dependencies_hash(dependencies: &[(ModuleDescriptor, blake3::Hash)]) -> blake3::Hash {
+        let mut entries = dependencies
+            .iter()
+            .map(|(descriptor, hash)| (descriptor.to_string(), *hash))
+            .collect::<Vec<_>>();
+        entries.sort_by(|(left, _), (right, _)| left.cmp(right));
+        let mut hasher = blake3::Hasher::new();
+        for (name, hash) in entries {
+            hasher.update(name.as_bytes());
+            hasher.update(&[0]);
+            hasher.update(hash.as_bytes());
+        }
+        hasher.finalize()
+    }
+
     fn record_package_state(
         &mut self,
         descriptor: &ModuleDescriptor,
@@ -269,7 +285,7 @@ impl BuildCache {
         } else if let Some(key) =
             Self::implementation_key_for_source_path(&package_root, &source_path)
         {
-            manifest.record_implementation(key, hash);
+            manifest.record_implementation(key, hash, Self::dependencies_hash(dependencies));
         }
 
         for (key, dependency_hash) in dependency_entries {
@@ -352,6 +368,9 @@ impl BuildCache {
             for (path, hash) in manifest.implementation {
                 entry.implementation.insert(path, hash);
             }
+            for (path, hash) in manifest.checked_against {
+                entry.checked_against.insert(path, hash);
+            }
             for (name, hash) in manifest.dependencies {
                 entry.dependencies.insert(name, hash);
             }
@@ -387,6 +406,28 @@ impl BuildCache {
         }
     }
 
+    /// Whether the manifest records that this module was checked against exactly these
+    /// dependency contents. A partial build can record a changed dependency without rechecking
+    /// the modules that use it, so matching every module's own hash is not enough.
+    pub fn manifest_matches_dependencies(
+        &self,
+        descriptor: &ModuleDescriptor,
+        dependencies: &[(ModuleDescriptor, blake3::Hash)],
+    ) -> bool {
+        let Some(source_path) = self.source_path_for_descriptor(descriptor) else {
+            return false;
+        };
+        let Some(package_root) = self.package_root_for_source_path(&source_path) else {
+            return false;
+        };
+        let Some(manifest) = self.manifests.get(&package_root) else {
+            return false;
+        };
+        Self::implementation_key_for_source_path(&package_root, &source_path).is_some_and(|key| {
+            manifest.matches_checked_against(&key, Self::dependencies_hash(dependencies))
+        })
+    }
+
     pub fn dependency_manifests_needing_update(
         &self,
         old_cache: &BuildCache,
diff --git a/src/builder.rs b/src/builder.rs
index af3fc23..1a8e306 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3765,6 +3765,16 @@ impl<'a> Builder<'a> {
             return false;
         }
 
+        // The module must have been checked against the current contents of its dependencies.
+        let dependency_hashes = self.dependency_hashes_for_module(module_id);
+        if !self
+            .project()
+            .build_cache()
+            .manifest_matches_dependencies(descriptor, &dependency_hashes)
+        {
+            return false;
+        }
+
         // Check all dependencies recursively
         for dep_id in self.project().all_dependencies(module_id) {
             let Some(dep_descriptor) = self.project().get_module_descriptor(dep_id) else {
@@ -3793,7 +3803,6 @@ impl<'a> Builder<'a> {
         // We verified that certificates exist, but we don't copy them to the new cache.
         // They'll be handled during the merge in update_build_cache. We still need to record
         // the package manifest entry for full builds, where old manifest entries are not merged.
-        let dependency_hashes = self.dependency_hashes_for_module(module_id);
         self.build_cache.as_mut().unwrap().record_unchanged(
             target,
             current_hash,
diff --git a/src/manifest.rs b/src/manifest.rs
index d613c20..e1d3131 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -123,6 +123,10 @@ pub struct PackageManifest {
     #[serde(default)]
     pub implementation: BTreeMap<String, HexHash>,
 
+    /// For each implementation file, a hash of the dependency contents it was checked against.
+    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
+    pub checked_against: BTreeMap<String, HexHash>,
+
     /// Hashes of external public APIs this package was checked against.
     #[serde(default)]
     pub dependencies: BTreeMap<String, HexHash>,
@@ -133,7 +137,14 @@ impl PackageManifest {
         self.interface = Some(HexHash::new(hash));
     }
 
-    pub fn record_implementation(&mut self, path: String, hash: blake3::Hash) {
+    pub fn record_implementation(
+        &mut self,
+        path: String,
+        hash: blake3::Hash,
+        dependencies_hash: blake3::Hash,
+    ) {
+        self.checked_against
+            .insert(path.clone(), HexHash::new(dependencies_hash));
         self.implementation.insert(path, HexHash::new(hash));
     }
 
@@ -151,10 +162,21 @@ impl PackageManifest {
             .is_some_and(|stored| stored == &HexHash::new(hash))
     }
 
+    pub fn matches_checked_against(&self, path: &str, dependencies_hash: blake3::Hash) -> bool {
+        self.checked_against
+            .get(path)
+            .is_some_and(|stored| stored == &HexHash::new(dependencies_hash))
+    }
+
     pub fn merge_missing_from(&mut self, old: &PackageManifest) {
         if self.interface.is_none() {
             self.interface = old.interface.clone();
         }
+        for (path, hash) in &old.checked_against {
+            if !self.implementation.contains_key(path) {
+                self.checked_against.insert(path.clone(), hash.clone());
+            }
+        }
         for (path, hash) in &old.implementation {
             self.implementation
                 .entry(path.clone())
-- 
2.43.0


From e4fcbfb26d203b5eb318233fbe8cda5b0832908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 03/43] fix: a fail-fast build does not start modules after its
 first warning

---
 src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 1a8e306..f66806d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1370,6 +1370,10 @@ impl<'a> Builder<'a> {
         if modules.is_empty() || self.status.is_error() {
             return;
         }
+        // A module started now would stop after its first item and still count as good.
+        if self.exit_on_warning && !self.status.is_good() {
+            return;
+        }
 
         let verification_start = std::time::Instant::now();
         if self.can_build_modules_in_parallel(modules.len()) {
-- 
2.43.0


From b16f54e263c527e18538c2b61f342ed8031785a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 04/43] fix: importing a module whose own import was rejected
 is an error, not a panic

---
 src/elaborator/environment/mod.rs | 15 +++++++++++++++
 src/loader/module_loader.rs       |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/elaborator/environment/mod.rs b/src/elaborator/environment/mod.rs
index 69ea67f..31920f4 100644
--- a/src/elaborator/environment/mod.rs
+++ b/src/elaborator/environment/mod.rs
@@ -801,6 +801,21 @@ impl Environment {
         }
     }
 
+    /// A dependency, possibly transitive, that is not usable. A package interface can load and
+    /// later be rejected, after other modules have already imported it.
+    pub fn find_unusable_dependency(&self, project: &dyn ProjectLookup) -> Option<ModuleId> {
+        let mut dependencies = Vec::new();
+        Self::collect_dependencies_from_bindings(
+            &self.bindings,
+            project,
+            &mut HashSet::new(),
+            &mut dependencies,
+        );
+        dependencies
+            .into_iter()
+            .find(|dep_id| project.get_module_export(*dep_id).is_none())
+    }
+
     fn merge_imported_modules(
         bindings: &BindingMap,
         project: &dyn ProjectLookup,
diff --git a/src/loader/module_loader.rs b/src/loader/module_loader.rs
index 3f7c997..aeaba55 100644
--- a/src/loader/module_loader.rs
+++ b/src/loader/module_loader.rs
@@ -6,6 +6,7 @@ use crate::elaborator::lowered_module::{LoweredModule, ModuleExport};
 use crate::loader::parsed_module::ParsedModule;
 use crate::module::ModuleId;
 use crate::project::{ProjectLookup, UsageMode};
+use crate::syntax::token::Token;
 
 pub struct LoadedModuleParts {
     pub export: Arc<ModuleExport>,
@@ -42,6 +43,14 @@ pub fn elaborate_and_lower_module(
         env.add_statement(project, &statement)?;
     }
 
+    if env.find_unusable_dependency(project).is_some() {
+        return Err(error::Error::indirect(
+            &Token::empty(),
+            &Token::empty(),
+            "error in a module that is imported indirectly",
+        ));
+    }
+
     let lowering = env.run_lowering_pass(project);
     if !usage_mode.keeps_ide_metadata() {
         env.discard_ide_metadata();
-- 
2.43.0


From 10b5677b89c1ea8557e5a3ccdc026b648a680fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 05/43] fix: report a package interface that is rejected after
 it was processed

---
 src/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f66806d..4d66a2e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1688,11 +1688,14 @@ impl<'a> Builder<'a> {
         processed: &HashSet<ModuleDescriptor>,
     ) {
         for target in targets {
-            if processed.contains(target) {
+            let project = self.project().clone();
+            let module = project.get_module(target);
+            // A package interface is validated after it loads, so it can be rejected even
+            // though it was already processed.
+            if processed.contains(target) && !matches!(module, ProjectViewModule::Error(_)) {
                 continue;
             }
-            let project = self.project().clone();
-            match project.get_module(target) {
+            match module {
                 ProjectViewModule::Ok(_) => {
                     self.log_global(format!("error: module {} has no lowered work", target));
                 }
-- 
2.43.0


From afb2a498a7ba246de792fd913fddcded1af20a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 06/43] fix: replace certificate files atomically

---
 src/atomic_file.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 src/certificate.rs | 14 ++++++--------
 src/lib.rs         |  1 +
 3 files changed, 50 insertions(+), 8 deletions(-)
 create mode 100644 src/atomic_file.rs

diff --git a/src/atomic_file.rs b/src/atomic_file.rs
new file mode 100644
index 0000000..13bdd30
--- /dev/null
+++ b/src/atomic_file.rs
@@ -0,0 +1,43 @@
+//! Replacing files without ever exposing a partial one.
+
+use std::fs::File;
+use std::io::{self, Write};
+use std::path::Path;
+use std::sync::atomic::{AtomicU64, Ordering};
+
+static NEXT_TEMP_ID: AtomicU64 = AtomicU64::new(0);
+
+/// Replaces the contents of `path`. If this fails, or the machine stops in the middle, the file
+/// still has either its old or its new contents.
+/// Files that already have these contents are left alone.
+pub fn write(path: &Path, contents: &[u8]) -> io::Result<()> {
+    if std::fs::read(path).is_ok_and(|existing| existing == contents) {
+        return Ok(());
+    }
+    let Some(name) = path.file_name() else {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("{} has no file name", path.display()),
+        ));
+    };
+    // The name is unique, since other processes may be writing the same file.
+    let temp_path = path.with_file_name(format!(
+        ".{}.{}.{}.tmp",
+        name.to_string_lossy(),
+        std::process::id(),
+        NEXT_TEMP_ID.fetch_add(1, Ordering::Relaxed)
+    ));
+    let result = write_and_rename(&temp_path, path, contents);
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temp_path);
+    }
+    result
+}
+
+fn write_and_rename(temp_path: &Path, path: &Path, contents: &[u8]) -> io::Result<()> {
+    let mut file = File::create(temp_path)?;
+    file.write_all(contents)?;
+    file.sync_all()?;
+    drop(file);
+    std::fs::rename(temp_path, path)
+}
diff --git a/src/certificate.rs b/src/certificate.rs
index 14be252..b35fa66 100644
--- a/src/certificate.rs
+++ b/src/certificate.rs
@@ -2,11 +2,12 @@ use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufRead, BufReader, BufWriter, Write};
+use std::io::{BufRead, BufReader};
 use std::path::Path;
 
 use std::borrow::Cow;
 
+use crate::atomic_file;
 use crate::certificate_trace::{CertificateTraceInput, ProofTrace};
 use crate::claim_codec::ClaimCodec;
 use crate::code_generator::{CodeGenerator, Error as CodeGenError};
@@ -2268,15 +2269,12 @@ impl CertificateStore {
 
     /// Save the certificate store to a file in JSONL format (one certificate per line)
     pub fn save(&self, filename: &Path) -> Result<(), Box<dyn Error>> {
-        let file = File::create(filename)?;
-        let mut writer = BufWriter::new(file);
-
+        let mut contents = String::new();
         for cert in &self.certs {
-            let json = serde_json::to_string(cert)?;
-            writeln!(writer, "{}", json)?;
+            contents.push_str(&serde_json::to_string(cert)?);
+            contents.push('\n');
         }
-
-        writer.flush()?;
+        atomic_file::write(filename, contents.as_bytes())?;
         Ok(())
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 5c6b7c9..aabdccc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+mod atomic_file;
 pub mod build_cache;
 pub mod builder;
 pub mod certificate;
-- 
2.43.0


From 4f53f9a8e77ff9eecae658ee34739d031fc3d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:15 +0000
Subject: [PATCH 07/43] fix: acorn.toml is only rewritten to change its
 version, and atomically

---
 src/project.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 62ee215..b8ac719 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -10,6 +10,7 @@ use toml_edit::{value, DocumentMut};
 use tower_lsp::lsp_types::{self, CompletionItem, Hover, HoverContents, MarkedString, Url};
 use walkdir::WalkDir;
 
+use crate::atomic_file;
 use crate::build_cache::BuildCache;
 use crate::certificate::{Certificate, CertificateLine};
 use crate::code_generator::{self, CodeGenerator};
@@ -1575,15 +1576,24 @@ impl Project {
         let Some(acorn_toml) = Self::acorn_toml_path_for_src_dir(src_dir) else {
             return Ok(());
         };
-        let existing = std::fs::read_to_string(&acorn_toml).unwrap_or_default();
+        let existing = match std::fs::read_to_string(&acorn_toml) {
+            Ok(existing) => existing,
+            Err(error) if error.kind() == io::ErrorKind::NotFound => String::new(),
+            Err(error) => return Err(error),
+        };
         let mut doc = existing.parse::<DocumentMut>().map_err(|error| {
             io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("Error parsing {}: {}", acorn_toml.display(), error),
             )
         })?;
-        doc["project_format_version"] = value(i64::from(Manifest::current_version()));
-        std::fs::write(acorn_toml, doc.to_string())
+        let current_version = i64::from(Manifest::current_version());
+        let recorded_version = doc.get("project_format_version");
+        if recorded_version.and_then(|version| version.as_integer()) == Some(current_version) {
+            return Ok(());
+        }
+        doc["project_format_version"] = value(current_version);
+        atomic_file::write(&acorn_toml, doc.to_string().as_bytes())
     }
 
     // Create a new project.
-- 
2.43.0


From 841778aa94c6464518e01831a848dbf42a87788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 08/43] fix: keep unused certificates in a stable order

---
 src/certificate.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/certificate.rs b/src/certificate.rs
index b35fa66..8565db6 100644
--- a/src/certificate.rs
+++ b/src/certificate.rs
@@ -2341,12 +2341,18 @@ impl CertificateWorklist {
         self.indexes_for_goal.values().map(|v| v.len()).sum()
     }
 
-    /// Iterator over unused certificates in the worklist
+    /// Iterator over unused certificates in the worklist, in the order they were stored
     pub fn iter_unused(&self) -> impl Iterator<Item = &Certificate> {
-        self.indexes_for_goal
+        let mut unused = self
+            .indexes_for_goal
             .values()
-            .flat_map(|indexes| indexes.iter())
-            .filter_map(move |&index| self.store.certs.get(index))
+            .flatten()
+            .copied()
+            .collect::<Vec<_>>();
+        unused.sort_unstable();
+        unused
+            .into_iter()
+            .filter_map(move |index| self.store.certs.get(index))
     }
 }
 
-- 
2.43.0


From c19d4004e0d646fde1effd7eaa2c26152ccaa801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 09/43] fix: a source directory that cannot be listed is an
 error, not an empty build

---
 src/project.rs  | 99 ++++++++++++++++++++++++++++++-------------------
 src/verifier.rs | 30 +++++++++++----
 2 files changed, 83 insertions(+), 46 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index b8ac719..7746bf3 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1799,7 +1799,13 @@ impl Project {
         descriptor: &ModuleDescriptor,
     ) -> Result<(), ImportError> {
         let canonical_descriptor = self.canonicalize_name_descriptor(descriptor);
-        let build_descriptors = self.build_descriptors_for_target(&canonical_descriptor);
+        let build_descriptors = match self.build_descriptors_for_target(&canonical_descriptor) {
+            Ok(build_descriptors) => build_descriptors,
+            Err(error) => {
+                self.targets.insert(canonical_descriptor);
+                return Err(error);
+            }
+        };
         let result = self.load_build_descriptors(&build_descriptors);
         self.targets.extend(build_descriptors);
         result.map(|_| ())
@@ -1810,8 +1816,12 @@ impl Project {
         descriptor: &ModuleDescriptor,
     ) -> ModuleDescriptor {
         let canonical_descriptor = self.canonicalize_name_descriptor(descriptor);
-        self.targets
-            .extend(self.build_descriptors_for_target(&canonical_descriptor));
+        match self.build_descriptors_for_target(&canonical_descriptor) {
+            Ok(build_descriptors) => self.targets.extend(build_descriptors),
+            Err(_) => {
+                self.targets.insert(canonical_descriptor.clone());
+            }
+        }
         canonical_descriptor
     }
 
@@ -1831,7 +1841,7 @@ impl Project {
         descriptor: &ModuleDescriptor,
     ) -> Result<(), ImportError> {
         let canonical_descriptor = self.canonicalize_name_descriptor(descriptor);
-        self.load_build_descriptors(&self.build_descriptors_for_target(&canonical_descriptor))
+        self.load_build_descriptors(&self.build_descriptors_for_target(&canonical_descriptor)?)
     }
 
     fn load_build_descriptors(
@@ -2099,13 +2109,20 @@ impl Project {
 
     // Adds a target for all files in the 'src' directory.
     pub fn add_src_targets(&mut self) {
+        // Ignore errors when adding all targets
+        let _ = self.try_add_src_targets();
+    }
+
+    // Like add_src_targets, but fails when the source files cannot be listed.
+    // Errors in the files themselves are reported when they are built.
+    pub fn try_add_src_targets(&mut self) -> Result<(), ImportError> {
         if !self.config.use_filesystem {
             panic!("cannot add_src_targets without filesystem access")
         }
-        for path in self.src_target_paths() {
-            // Ignore errors when adding all targets
+        for path in self.src_target_paths()? {
             let _ = self.add_target_by_path(&path);
         }
+        Ok(())
     }
 
     // Adds all files in the 'src' directory as targets without loading them.
@@ -2123,13 +2140,13 @@ impl Project {
         }
     }
 
-    pub fn src_target_paths(&mut self) -> Vec<PathBuf> {
+    // Lists the source files to build. A directory that cannot be listed is an error: silently
+    // building fewer files would report success for modules that were never checked.
+    pub fn src_target_paths(&mut self) -> Result<Vec<PathBuf>, ImportError> {
         self.register_all_modules();
         let mut paths: Vec<PathBuf> = Vec::new();
-        for entry in WalkDir::new(&self.src_dir)
-            .into_iter()
-            .filter_map(|e| e.ok())
-        {
+        for entry in WalkDir::new(&self.src_dir) {
+            let entry = entry.map_err(io::Error::from)?;
             if entry.file_type().is_file() {
                 let path = entry.path();
                 if path_has_certs_component(path) {
@@ -2141,19 +2158,19 @@ impl Project {
             }
         }
         paths.sort();
-        paths
+        Ok(paths)
     }
 
-    pub fn src_target_descriptors(&mut self) -> Vec<ModuleDescriptor> {
+    pub fn src_target_descriptors(&mut self) -> Result<Vec<ModuleDescriptor>, ImportError> {
         let mut descriptors = self
-            .src_target_paths()
+            .src_target_paths()?
             .into_iter()
             .filter_map(|path| self.descriptor_from_path(&path).ok())
             .map(|descriptor| self.canonicalize_name_descriptor(&descriptor))
             .collect::<Vec<_>>();
         descriptors.sort();
         descriptors.dedup();
-        descriptors
+        Ok(descriptors)
     }
 
     pub fn is_surface_check_path(&self, path: &Path) -> bool {
@@ -2164,25 +2181,29 @@ impl Project {
 
     // Adds a surface-check target for all files in configured surface-check directories.
     pub fn add_surface_check_dir_targets(&mut self) {
+        let _ = self.try_add_surface_check_dir_targets();
+    }
+
+    // Like add_surface_check_dir_targets, but fails when a directory cannot be listed.
+    pub fn try_add_surface_check_dir_targets(&mut self) -> Result<(), ImportError> {
         if !self.config.use_filesystem {
             panic!("cannot add_surface_check_dir_targets without filesystem access")
         }
 
-        for path in self.surface_check_target_paths() {
+        for path in self.surface_check_target_paths()? {
             let _ = self.add_surface_target_by_path(&path);
         }
+        Ok(())
     }
 
-    pub fn surface_check_target_paths(&self) -> Vec<PathBuf> {
+    pub fn surface_check_target_paths(&self) -> Result<Vec<PathBuf>, ImportError> {
         let mut paths: Vec<PathBuf> = Vec::new();
         for surface_check_dir in &self.surface_check_dirs {
             if !surface_check_dir.is_dir() {
                 continue;
             }
-            for entry in WalkDir::new(surface_check_dir)
-                .into_iter()
-                .filter_map(|e| e.ok())
-            {
+            for entry in WalkDir::new(surface_check_dir) {
+                let entry = entry.map_err(io::Error::from)?;
                 if entry.file_type().is_file() {
                     let path = entry.path();
                     if path.extension() == Some(std::ffi::OsStr::new("ac")) {
@@ -2193,15 +2214,16 @@ impl Project {
         }
         paths.sort();
         paths.dedup();
-        paths
+        Ok(paths)
     }
 
-    pub fn surface_check_target_descriptors(&self) -> Vec<ModuleDescriptor> {
-        self.surface_check_target_paths()
+    pub fn surface_check_target_descriptors(&self) -> Result<Vec<ModuleDescriptor>, ImportError> {
+        Ok(self
+            .surface_check_target_paths()?
             .into_iter()
             .filter_map(|path| self.descriptor_from_path(&path).ok())
             .map(|descriptor| self.canonicalize_name_descriptor(&descriptor))
-            .collect()
+            .collect())
     }
 
     pub fn is_surface_check_target(&self, descriptor: &ModuleDescriptor) -> bool {
@@ -2628,7 +2650,12 @@ impl Project {
     ) -> Vec<(ModuleDescriptor, LoweredModule)> {
         let mut target_set = HashSet::new();
         for target in targets {
-            target_set.extend(self.build_descriptors_for_target(target));
+            match self.build_descriptors_for_target(target) {
+                Ok(build_descriptors) => target_set.extend(build_descriptors),
+                Err(_) => {
+                    target_set.insert(target.clone());
+                }
+            }
         }
         self.take_lowered_modules_for_target_set(&target_set)
     }
@@ -3310,14 +3337,14 @@ impl Project {
     pub fn build_descriptors_for_target(
         &self,
         descriptor: &ModuleDescriptor,
-    ) -> Vec<ModuleDescriptor> {
+    ) -> Result<Vec<ModuleDescriptor>, ImportError> {
         let canonical_descriptor = self.canonicalize_name_descriptor(descriptor);
         let Ok(path) = self.path_from_descriptor(&canonical_descriptor) else {
-            return vec![canonical_descriptor];
+            return Ok(vec![canonical_descriptor]);
         };
 
         let interface_descriptor = match self.package_role_for_path(&path) {
-            PackageRole::Outside => return vec![canonical_descriptor],
+            PackageRole::Outside => return Ok(vec![canonical_descriptor]),
             PackageRole::Interface => canonical_descriptor,
             PackageRole::Implementation => self
                 .package_interface_descriptor_for_path(&path)
@@ -3325,14 +3352,10 @@ impl Project {
         };
 
         let mut descriptors = vec![interface_descriptor.clone()];
-        if let Ok(implementation_descriptors) =
-            self.package_implementation_descriptors(&interface_descriptor)
-        {
-            descriptors.extend(implementation_descriptors);
-        }
+        descriptors.extend(self.package_implementation_descriptors(&interface_descriptor)?);
         descriptors.sort();
         descriptors.dedup();
-        descriptors
+        Ok(descriptors)
     }
 
     fn package_implementation_descriptors(
@@ -3349,10 +3372,8 @@ impl Project {
 
         let mut paths = Vec::new();
         if self.config.use_filesystem {
-            for entry in WalkDir::new(package_root)
-                .into_iter()
-                .filter_map(Result::ok)
-            {
+            for entry in WalkDir::new(package_root) {
+                let entry = entry.map_err(io::Error::from)?;
                 let path = entry.path();
                 if path_has_certs_component(path) {
                     continue;
diff --git a/src/verifier.rs b/src/verifier.rs
index 085c734..25f19fa 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -467,14 +467,22 @@ impl Verifier {
 
         match target_spec {
             TargetSpec::All => {
-                for descriptor in project.src_target_descriptors() {
+                for descriptor in project
+                    .src_target_descriptors()
+                    .map_err(|e| format!("Error listing source files: {}", e))?
+                {
                     let descriptor = project.add_unloaded_target_by_descriptor(&descriptor);
-                    let build_descriptors = project.build_descriptors_for_target(&descriptor);
+                    let build_descriptors = project
+                        .build_descriptors_for_target(&descriptor)
+                        .map_err(|e| format!("Error listing source files: {}", e))?;
                     targets.extend(build_descriptors.clone());
                     load_order.extend(build_descriptors);
                 }
                 if include_surface_check_dirs {
-                    for descriptor in project.surface_check_target_descriptors() {
+                    for descriptor in project
+                        .surface_check_target_descriptors()
+                        .map_err(|e| format!("Error listing source files: {}", e))?
+                    {
                         let descriptor =
                             project.add_unloaded_surface_target_by_descriptor(&descriptor);
                         targets.push(descriptor.clone());
@@ -492,14 +500,18 @@ impl Verifier {
                     } else {
                         project.add_unloaded_target_by_descriptor(&descriptor)
                     };
-                let build_descriptors = project.build_descriptors_for_target(&descriptor);
+                let build_descriptors = project
+                    .build_descriptors_for_target(&descriptor)
+                    .map_err(|e| format!("Error listing source files: {}", e))?;
                 targets.extend(build_descriptors.clone());
                 load_order.extend(build_descriptors);
             }
             TargetSpec::Name(name) => {
                 let descriptor =
                     project.add_unloaded_target_by_descriptor(&ModuleDescriptor::name(&name));
-                let build_descriptors = project.build_descriptors_for_target(&descriptor);
+                let build_descriptors = project
+                    .build_descriptors_for_target(&descriptor)
+                    .map_err(|e| format!("Error listing source files: {}", e))?;
                 targets.extend(build_descriptors.clone());
                 load_order.extend(build_descriptors);
             }
@@ -526,9 +538,13 @@ impl Verifier {
         let project = self.project_mut();
         match target_spec {
             TargetSpec::All => {
-                project.add_src_targets();
+                project
+                    .try_add_src_targets()
+                    .map_err(|e| format!("Error listing source files: {}", e))?;
                 if include_surface_check_dirs {
-                    project.add_surface_check_dir_targets();
+                    project
+                        .try_add_surface_check_dir_targets()
+                        .map_err(|e| format!("Error listing source files: {}", e))?;
                 }
             }
             TargetSpec::Path(path) => {
-- 
2.43.0


From 2bbb145dfa8ade5d3b4aa8bd8b2b943b8965c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:40 +0000
Subject: [PATCH 10/43] fix: recording a new project format version keeps the
 comment on that line

---
 src/project.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 7746bf3..eb11b0f 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1592,7 +1592,15 @@ impl Project {
         if recorded_version.and_then(|version| version.as_integer()) == Some(current_version) {
             return Ok(());
         }
-        doc["project_format_version"] = value(current_version);
+        let mut version = value(current_version);
+        // Keep a comment the user wrote on this line.
+        if let (Some(version), Some(recorded)) = (
+            version.as_value_mut(),
+            recorded_version.and_then(|recorded| recorded.as_value()),
+        ) {
+            *version.decor_mut() = recorded.decor().clone();
+        }
+        doc["project_format_version"] = version;
         atomic_file::write(&acorn_toml, doc.to_string().as_bytes())
     }
 
-- 
2.43.0


From 1fe8ad43999b8e9ff8566b23f6946a51fc4a0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 11/43] fix: write manifests through a temporary file no other
 process shares

---
 src/manifest.rs | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index e1d3131..ce08c5d 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -3,9 +3,11 @@ use std::collections::BTreeMap;
 use std::error::Error;
 use std::fmt;
 use std::fs::File;
-use std::io::{Read, Write};
+use std::io::Read;
 use std::path::Path;
 
+use crate::atomic_file;
+
 /// Errors that can occur when loading a manifest.
 #[derive(Debug)]
 pub enum ManifestError {
@@ -199,13 +201,9 @@ impl PackageManifest {
             return Err("manifest path has no parent directory".into());
         };
         std::fs::create_dir_all(parent)?;
-        let json = serde_json::to_string_pretty(self)?;
-        let temp_path = path.with_file_name(".manifest.json.tmp");
-        let mut file = File::create(&temp_path)?;
-        file.write_all(json.as_bytes())?;
-        file.write_all(b"\n")?;
-        file.sync_all()?;
-        std::fs::rename(&temp_path, path)?;
+        let mut json = serde_json::to_string_pretty(self)?;
+        json.push('\n');
+        atomic_file::write(path, json.as_bytes())?;
         Ok(())
     }
 
@@ -274,18 +272,7 @@ impl Manifest {
     pub fn save(&self, build_dir: &Path) -> Result<(), Box<dyn Error>> {
         let path = build_dir.join("manifest.json");
         let json = serde_json::to_string_pretty(&self)?;
-
-        // Create a temporary file in the same directory as the target
-        let temp_path = build_dir.join(".manifest.json.tmp");
-
-        // Write to the temporary file
-        let mut file = File::create(&temp_path)?;
-        file.write_all(json.as_bytes())?;
-        file.sync_all()?; // Ensure data is flushed to disk
-
-        // Atomically rename the temp file to the target path
-        std::fs::rename(&temp_path, path)?;
-
+        atomic_file::write(&path, json.as_bytes())?;
         Ok(())
     }
 
-- 
2.43.0


From e4deabec93d826b4e660b319d02f1bd6541aeb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 12/43] fix: simplify replaces the source file atomically

---
 src/simplifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplifier.rs b/src/simplifier.rs
index 39f06fa..e4514ce 100644
--- a/src/simplifier.rs
+++ b/src/simplifier.rs
@@ -135,7 +135,7 @@ pub fn simplify_file(
             if options.dry_run {
                 working_source = Some(edited);
             } else {
-                std::fs::write(&loaded.target_path, &edited).map_err(|e| {
+                crate::atomic_file::write(&loaded.target_path, edited.as_bytes()).map_err(|e| {
                     format!("error writing {}: {}", loaded.target_path.display(), e)
                 })?;
                 working_source = None;
-- 
2.43.0


From 0fa7671fc413d4b8773b79acb3e4f0f129675310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 13/43] fix: a target whose file cannot be read fails the build

---
 src/builder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 4d66a2e..497a293 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1687,6 +1687,8 @@ impl<'a> Builder<'a> {
         targets: &[ModuleDescriptor],
         processed: &HashSet<ModuleDescriptor>,
     ) {
+        let stopped_early =
+            self.status.is_error() || (self.exit_on_warning && !self.status.is_good());
         for target in targets {
             let project = self.project().clone();
             let module = project.get_module(target);
@@ -1698,6 +1700,9 @@ impl<'a> Builder<'a> {
             match module {
                 ProjectViewModule::Ok(_) => {
                     self.log_global(format!("error: module {} has no lowered work", target));
+                    if !stopped_early {
+                        self.status = BuildStatus::Error;
+                    }
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
@@ -1712,8 +1717,18 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::None => {
                     self.log_global(format!("error: module {} is not loaded", target));
+                    if !stopped_early {
+                        self.status = BuildStatus::Error;
+                    }
+                }
+                ProjectViewModule::Loading | ProjectViewModule::Registered => {
+                    // Unless the build stopped before it got to this module, loading it failed,
+                    // for instance because its file could not be read.
+                    if !stopped_early {
+                        self.log_global(format!("error: module {} could not be loaded", target));
+                        self.status = BuildStatus::Error;
+                    }
                 }
-                ProjectViewModule::Loading | ProjectViewModule::Registered => {}
             }
         }
     }
-- 
2.43.0


From 2090e3f61112669964b0cb11286656b1bd754e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 14/43] fix: do not panic on a completion request past the end
 of the document

---
 src/server/live_document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/live_document.rs b/src/server/live_document.rs
index d157a9f..e1389a5 100644
--- a/src/server/live_document.rs
+++ b/src/server/live_document.rs
@@ -171,7 +171,9 @@ impl LiveDocument {
     // we don't have an evaluated environment for the modified file. So we find a nearby point
     // in the last environment we evaluated, and use that environment.
     pub fn get_env_line(&self, current_line: u32) -> u32 {
-        for line in self.lines.take(current_line as usize + 1).iter().rev() {
+        // A client can ask about a position that is past the end of the document.
+        let num_lines = self.lines.len().min(current_line as usize + 1);
+        for line in self.lines.take(num_lines).iter().rev() {
             if let Some(saved_index) = line.saved_index {
                 // This line is unchanged from the saved version.
                 return saved_index;
-- 
2.43.0


From e2aed48f5d79fa86b0b62cc5c2939c18f4de682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:31 +0000
Subject: [PATCH 15/43] fix: do not hold a document map entry across an await
 in the language server

---
 src/server.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index b324cf4..3bf5b6d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -406,6 +406,13 @@ impl AcornLanguageServer {
         self.project_manager.clone()
     }
 
+    // Gets the live document, without keeping the map locked.
+    // A map entry must not be held across an await: opening or closing any document that shares
+    // its shard would then block the thread that has to release it.
+    fn document(&self, url: &Url) -> Option<Arc<RwLock<LiveDocument>>> {
+        self.documents.get(url).map(|doc| doc.value().clone())
+    }
+
     // Updates the live document state, then reloads and builds in the background.
     async fn build(&self, path: PathBuf, text: &str, version: i32) {
         log("building...");
@@ -689,7 +696,7 @@ impl LanguageServer for AcornLanguageServer {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let url = params.text_document.uri;
         let version = params.text_document.version;
-        if let Some(doc) = self.documents.get(&url) {
+        if let Some(doc) = self.document(&url) {
             let mut doc = doc.write().await;
             for change in params.content_changes {
                 if let Err(e) = doc.change(change.range, &change.text, version) {
@@ -715,7 +722,7 @@ impl LanguageServer for AcornLanguageServer {
 
         // Update the live document's saved version
         let version = {
-            let doc = match self.documents.get(&url) {
+            let doc = match self.document(&url) {
                 Some(doc) => doc,
                 None => {
                     log(&format!("no document available for {}", url));
@@ -753,7 +760,7 @@ impl LanguageServer for AcornLanguageServer {
 
     async fn did_close(&self, params: DidCloseTextDocumentParams) {
         let uri = params.text_document.uri;
-        if let Some(old_doc) = self.documents.get(&uri) {
+        if let Some(old_doc) = self.document(&uri) {
             log_with_url(&uri, old_doc.read().await.saved_version(), "closed");
         }
         self.documents.remove(&uri);
@@ -786,7 +793,7 @@ impl LanguageServer for AcornLanguageServer {
         let uri = params.text_document_position.text_document.uri;
         let path = to_path(&uri);
         let pos = params.text_document_position.position;
-        let doc = match self.documents.get(&uri) {
+        let doc = match self.document(&uri) {
             Some(doc) => doc,
             None => {
                 log("no document available for completion");
-- 
2.43.0


From 30cb52d72f9fd833c2ac8e6c440fccc820d861b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:25 +0000
Subject: [PATCH 16/43] fix: keep the editor's diagnostics in step with what a
 build covers

---
 src/server.rs | 59 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 3bf5b6d..09e2ed7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,7 +2,7 @@
 mod live_document;
 mod project_manager;
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -172,17 +172,25 @@ impl BuildInfo {
         }
     }
 
-    fn queued(generation: u64) -> BuildInfo {
-        BuildInfo {
+    // Called when a build has been queued, to clear the progress of the previous one.
+    // Keeps the per-document information: clients are still showing those diagnostics.
+    fn queue(&mut self, generation: u64) {
+        let docs = std::mem::take(&mut self.docs);
+        *self = BuildInfo {
             generation: Some(generation),
+            docs,
             ..BuildInfo::none()
-        }
+        };
     }
 
     // Turn the known build information into a progress response.
     fn progress(&self) -> ProgressResponse {
         let mut docs = HashMap::new();
         for (url, doc) in &self.docs {
+            if self.id.is_none() {
+                // What we have for this document comes from a previous build.
+                break;
+            }
             // No need to report verified lines for files that aren't open.
             if let Some(version) = doc.version {
                 docs.insert(
@@ -225,7 +233,8 @@ impl BuildInfo {
         doc
     }
 
-    // Clears everything in preparation for a new build.
+    // Clears everything that a new build is going to report again.
+    // Documents that are not among its targets keep what is known about them.
     // Then sets docs for the open documents.
     async fn reset(
         &mut self,
@@ -237,21 +246,39 @@ impl BuildInfo {
             return false;
         }
 
-        // Clear the diagnostics for all the open documents.
+        let targets: HashSet<Url> = project
+            .targets()
+            .iter()
+            .filter_map(|descriptor| project.url_from_descriptor(descriptor))
+            .collect();
+
+        // Clear the diagnostics for the open documents.
         let mut new_docs = HashMap::new();
         for (url, version) in project.open_urls() {
-            client
-                .publish_diagnostics(url.clone(), vec![], Some(version))
-                .await;
-            new_docs.insert(url, DocumentBuildInfo::new(Some(version)));
+            let doc = match self.docs.remove(&url) {
+                Some(doc) if !targets.contains(&url) => DocumentBuildInfo {
+                    version: Some(version),
+                    ..doc
+                },
+                _ => {
+                    client
+                        .publish_diagnostics(url.clone(), vec![], Some(version))
+                        .await;
+                    DocumentBuildInfo::new(Some(version))
+                }
+            };
+            new_docs.insert(url, doc);
         }
-        // Clear the diagnostics for any closed documents.
-        for url in self.docs.keys() {
-            if !new_docs.contains_key(url) {
-                client.publish_diagnostics(url.clone(), vec![], None).await;
+        // Clear the diagnostics for the closed documents.
+        for (url, doc) in self.docs.drain() {
+            if targets.contains(&url) {
+                client.publish_diagnostics(url, vec![], None).await;
+            } else {
+                let version = None;
+                new_docs.insert(url, DocumentBuildInfo { version, ..doc });
             }
         }
-        *self = BuildInfo::queued(generation);
+        self.queue(generation);
         self.docs = new_docs;
         true
     }
@@ -438,7 +465,7 @@ impl AcornLanguageServer {
 
         // Clear previous progress immediately so clients do not mistake the last
         // completed build for this newly queued one.
-        *self.build.write().await = BuildInfo::queued(update_epoch);
+        self.build.write().await.queue(update_epoch);
 
         let start_time = chrono::Local::now();
 
-- 
2.43.0


From f9378dc154d050b289223cbedcde6e362fafe1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 17/43] fix: build what canceled and overtaken builds left in
 the language server

---
 src/project.rs                | 50 ++++++++++++++++++++++++++++++-----
 src/server.rs                 | 28 +++++++++++++++-----
 src/server/project_manager.rs | 10 +------
 3 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index eb11b0f..fbde309 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -109,6 +109,14 @@ pub struct Project {
     // A flag for whether something is using the project to build right now.
     // Only used in the parallel server code.
     pub building: bool,
+
+    // Paths that were saved in the IDE and have not been reloaded since, so that we do not know
+    // yet which targets they affect.
+    pub unloaded_saves: HashSet<PathBuf>,
+
+    // Targets affected by saves in the IDE that no build has finished with.
+    // A build that is canceled leaves its targets here, for the next build to include.
+    unbuilt_targets: HashSet<ModuleDescriptor>,
 }
 
 struct ParallelModuleLoadJob {
@@ -1660,6 +1668,8 @@ impl Project {
             cache_load_time,
             build_dir,
             building: false,
+            unloaded_saves: HashSet::new(),
+            unbuilt_targets: HashSet::new(),
         })
     }
 
@@ -2003,17 +2013,30 @@ impl Project {
         sorted
     }
 
-    pub fn reload_dependent_targets_by_path(
+    // Reloads all targets that the saves in the IDE have affected since they were last built.
+    // Returns them.
+    pub fn reload_unbuilt_targets(
         &mut self,
-        path: &Path,
         jobs: usize,
     ) -> Result<HashSet<ModuleDescriptor>, ImportError> {
         self.register_all_modules();
-        let descriptor = self.descriptor_from_path(path)?;
-        let canonical_descriptor = self.add_unloaded_target_by_descriptor(&descriptor);
-        let roots = HashSet::from([canonical_descriptor]);
+        let mut roots = HashSet::new();
+        let mut bad_path = None;
+        for path in std::mem::take(&mut self.unloaded_saves) {
+            match self.descriptor_from_path(&path) {
+                Ok(descriptor) => {
+                    roots.insert(self.add_unloaded_target_by_descriptor(&descriptor));
+                }
+                Err(error) => bad_path = Some(error),
+            }
+        }
         let mut dependency_cache = HashMap::new();
-        let targets = self.dependent_target_closure(roots, &mut dependency_cache);
+        let affected = self.dependent_target_closure(roots, &mut dependency_cache);
+        self.unbuilt_targets.extend(affected);
+        let targets = self.unbuilt_targets.clone();
+        if let Some(error) = bad_path.filter(|_| targets.is_empty()) {
+            return Err(error);
+        }
         let load_targets = self.target_dependency_closure(&targets, &mut dependency_cache);
         let load_order = self.sorted_by_cached_work(&load_targets);
         let load_target_list = load_targets.iter().cloned().collect::<Vec<_>>();
@@ -2031,6 +2054,21 @@ impl Project {
         Ok(targets)
     }
 
+    pub fn has_unbuilt_targets(&self) -> bool {
+        !self.unloaded_saves.is_empty() || !self.unbuilt_targets.is_empty()
+    }
+
+    // Called when a build of the unbuilt targets has ended without being canceled.
+    // When a module does not load, nothing is verified. That module is only built again once it
+    // is affected by another save, but the modules that were held up by it are left to build.
+    pub fn finish_unbuilt_targets(&mut self, verified: bool) {
+        let mut targets = std::mem::take(&mut self.unbuilt_targets);
+        if !verified {
+            targets.retain(|target| matches!(self.get_module(target), LoadState::Ok(_)));
+            self.unbuilt_targets = targets;
+        }
+    }
+
     // Returns Ok(()) if the module loaded successfully, or an ImportError if not.
     pub fn add_target_by_name(&mut self, module_name: &str) -> Result<(), ImportError> {
         self.register_all_modules();
diff --git a/src/server.rs b/src/server.rs
index 09e2ed7..7569d9b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -443,7 +443,6 @@ impl AcornLanguageServer {
     // Updates the live document state, then reloads and builds in the background.
     async fn build(&self, path: PathBuf, text: &str, version: i32) {
         log("building...");
-        let build_path = path.clone();
         let Some(project_manager) = self.project_manager() else {
             log("build skipped because project initialization failed");
             return;
@@ -454,6 +453,7 @@ impl AcornLanguageServer {
         let (result, update_epoch) = project_manager
             .mutate_with_epoch(|project| {
                 project.building = true;
+                project.unloaded_saves.insert(path.clone());
                 project.update_file_for_ide(path, &text, version)
             })
             .await;
@@ -463,6 +463,11 @@ impl AcornLanguageServer {
             Err(e) => log(&format!("update failed: {:?}", e)),
         }
 
+        self.start_build(project_manager, update_epoch).await;
+    }
+
+    // Reloads and builds, in the background, everything that saves have left to build.
+    async fn start_build(&self, project_manager: Arc<ProjectManager>, update_epoch: u64) {
         // Clear previous progress immediately so clients do not mistake the last
         // completed build for this newly queued one.
         self.build.write().await.queue(update_epoch);
@@ -479,7 +484,7 @@ impl AcornLanguageServer {
         tokio::spawn(async move {
             let reload_result = project_manager
                 .mutate_if_epoch_with_epoch(update_epoch, |project| {
-                    project.reload_dependent_targets_by_path(&build_path, jobs)
+                    project.reload_unbuilt_targets(jobs)
                 })
                 .await;
             let (build_targets, reload_epoch) = match reload_result {
@@ -553,11 +558,11 @@ impl AcornLanguageServer {
 
             build.write().await.finish(update_epoch);
 
-            let build_cache = match build_handle.await {
-                Ok(build_cache) => build_cache,
+            let (build_cache, build_failed) = match build_handle.await {
+                Ok(build_cache) => (build_cache, false),
                 Err(e) => {
                     log(&format!("build task failed: {}", e));
-                    None
+                    (None, true)
                 }
             };
 
@@ -565,6 +570,7 @@ impl AcornLanguageServer {
             // Always mark building as false when done.
             let result = project_manager
                 .mutate_if_epoch(reload_epoch, |project| {
+                    project.finish_unbuilt_targets(build_cache.is_some() || build_failed);
                     if let Some(new_cache) = build_cache {
                         project.update_build_cache(new_cache, true);
                     }
@@ -803,14 +809,22 @@ impl LanguageServer for AcornLanguageServer {
             log("close ignored because project initialization failed");
             return;
         };
-        let result = project_manager
-            .mutate(|project| project.close_file(path))
+        let ((result, unbuilt), epoch) = project_manager
+            .mutate_with_epoch(|project| {
+                let result = project.close_file(path);
+                (result, project.has_unbuilt_targets())
+            })
             .await;
 
         match result {
             Ok(()) => {}
             Err(e) => log(&format!("close failed: {:?}", e)),
         }
+
+        if unbuilt {
+            // Closing the file canceled a build that still has to be done.
+            self.start_build(project_manager, epoch).await;
+        }
     }
 
     async fn completion(
diff --git a/src/server/project_manager.rs b/src/server/project_manager.rs
index 91fa05c..aa481d4 100644
--- a/src/server/project_manager.rs
+++ b/src/server/project_manager.rs
@@ -54,16 +54,8 @@ impl ProjectManager {
         }
     }
 
-    /// Mutates the project with exclusive access
+    /// Mutates the project with exclusive access, and returns the epoch produced by the mutation.
     /// Automatically cancels the old token and creates a new one after mutation
-    pub async fn mutate<F, R>(&self, f: F) -> R
-    where
-        F: FnOnce(&mut Project) -> R,
-    {
-        self.mutate_with_epoch(f).await.0
-    }
-
-    /// Mutates the project and returns the epoch produced by the mutation.
     pub async fn mutate_with_epoch<F, R>(&self, f: F) -> (R, u64)
     where
         F: FnOnce(&mut Project) -> R,
-- 
2.43.0


From 62e05c9eed6ce90eae684708d7b2487a71785b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:27 +0000
Subject: [PATCH 18/43] fix: report a circular import in the editor instead of
 dropping the build

---
 src/project.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index fbde309..2fb6f68 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -2038,7 +2038,24 @@ impl Project {
             return Err(error);
         }
         let load_targets = self.target_dependency_closure(&targets, &mut dependency_cache);
-        let load_order = self.sorted_by_cached_work(&load_targets);
+        if self.load_in_parallel(&load_targets, jobs).is_err() {
+            // The parallel loader gives up as a whole, for example when there is a circular
+            // import. Loading one module at a time finds the modules to report it for.
+            self.drop_modules();
+            self.register_all_modules();
+            for descriptor in self.sorted_by_cached_work(&load_targets) {
+                let _ = self.load_target_by_descriptor(&descriptor);
+            }
+        }
+        Ok(targets)
+    }
+
+    fn load_in_parallel(
+        &mut self,
+        load_targets: &HashSet<ModuleDescriptor>,
+        jobs: usize,
+    ) -> Result<(), ImportError> {
+        let load_order = self.sorted_by_cached_work(load_targets);
         let load_target_list = load_targets.iter().cloned().collect::<Vec<_>>();
         let loader_jobs = (jobs / 2).max(1);
         let mut loader =
@@ -2051,7 +2068,7 @@ impl Project {
             // Keep lowered modules in the project so IDE selection and citation queries can
             // inspect the fresh environments after the build.
         }
-        Ok(targets)
+        Ok(())
     }
 
     pub fn has_unbuilt_targets(&self) -> bool {
-- 
2.43.0


From 40f22a97ef272312630ca890ace27f0bd6286fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 19/43] fix: do not keep a manifest entry for a module whose
 certificates are replaced

---
 src/build_cache.rs | 26 ++++++++++++++++++++++++--
 src/manifest.rs    |  5 +++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index 938d9bb..bb4d1a5 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -335,23 +335,45 @@ impl BuildCache {
     /// Only copies certificates for modules that don't already exist in this cache.
     /// This is used when write_cache is false to preserve in-memory certificates.
     pub fn merge_certificates_from(&mut self, old_cache: &BuildCache) {
+        self.merge_missing_manifests_from(old_cache);
         for (descriptor, cert_store) in &old_cache.cache {
             if !self.cache.contains_key(descriptor) {
                 self.cache.insert(descriptor.clone(), cert_store.clone());
             }
         }
-        self.merge_missing_manifests_from(old_cache);
     }
 
     fn merge_missing_manifests_from(&mut self, old_cache: &BuildCache) {
+        // When a module has new certificates, its old manifest entry, which says that the module
+        // was good in some earlier state, says nothing about them.
+        let replaced = self
+            .cache
+            .keys()
+            .filter_map(|descriptor| self.implementation_entry_for_descriptor(descriptor))
+            .collect::<Vec<_>>();
         for (package_root, old_manifest) in &old_cache.manifests {
+            let mut old_manifest = old_manifest.clone();
+            for (_, key) in replaced.iter().filter(|(root, _)| root == package_root) {
+                old_manifest.forget_implementation(key);
+            }
             self.manifests
                 .entry(package_root.clone())
                 .or_default()
-                .merge_missing_from(old_manifest);
+                .merge_missing_from(&old_manifest);
         }
     }
 
+    /// The package root, and the key in that package's manifest.
+    fn implementation_entry_for_descriptor(
+        &self,
+        descriptor: &ModuleDescriptor,
+    ) -> Option<(PathBuf, String)> {
+        let source_path = self.source_path_for_descriptor(descriptor)?;
+        let package_root = self.package_root_for_source_path(&source_path)?;
+        let key = Self::implementation_key_for_source_path(&package_root, &source_path)?;
+        Some((package_root, key))
+    }
+
     /// Merge newly produced certificates and manifest entries from another cache.
     ///
     /// Parallel module workers produce independent cache fragments. The parent build
diff --git a/src/manifest.rs b/src/manifest.rs
index ce08c5d..d8efbbe 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -150,6 +150,11 @@ impl PackageManifest {
         self.implementation.insert(path, HexHash::new(hash));
     }
 
+    pub fn forget_implementation(&mut self, path: &str) {
+        self.checked_against.remove(path);
+        self.implementation.remove(path);
+    }
+
     pub fn record_dependency(&mut self, name: String, hash: blake3::Hash) {
         self.dependencies.insert(name, HexHash::new(hash));
     }
-- 
2.43.0


From 657321b41522253588e2c21966bfb7e45618aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 20/43] fix: withdraw a manifest entry before its module's
 certificates are replaced

---
 src/build_cache.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 src/manifest.rs    |  6 ++++++
 2 files changed, 46 insertions(+)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index bb4d1a5..17a7858 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -508,6 +508,44 @@ impl BuildCache {
         }
     }
 
+    /// The manifests on disk are the last thing to be updated. If we do not get that far, they
+    /// must not pair the old state of a module with its new certificates.
+    fn save_old_manifests_without_replaced(
+        &self,
+        old_cache: &BuildCache,
+    ) -> Result<(), Box<dyn Error>> {
+        let mut manifests = HashMap::new();
+        for (descriptor, cert_store) in &self.cache {
+            if old_cache.cache.get(descriptor) == Some(cert_store) {
+                continue;
+            }
+            let Some((package_root, key)) = self.implementation_entry_for_descriptor(descriptor)
+            else {
+                continue;
+            };
+            let Some(old_manifest) = old_cache.manifests.get(&package_root) else {
+                continue;
+            };
+            if self
+                .manifests
+                .get(&package_root)
+                .is_some_and(|manifest| manifest.same_implementation(old_manifest, &key))
+            {
+                continue;
+            }
+            manifests
+                .entry(package_root)
+                .or_insert_with(|| old_manifest.clone())
+                .forget_implementation(&key);
+        }
+        for (package_root, manifest) in manifests {
+            if Some(&manifest) != old_cache.manifests.get(&package_root) {
+                manifest.save(&Self::package_manifest_path(&package_root))?;
+            }
+        }
+        Ok(())
+    }
+
     /// Save the build cache, merging in information from an old cache.
     /// If preserve_old_manifest_entries is false (full build), only packages in the new
     /// cache will be in the manifest. If true (partial build), old manifest entries
@@ -521,6 +559,8 @@ impl BuildCache {
             self.merge_missing_manifests_from(old_cache);
         }
 
+        self.save_old_manifests_without_replaced(old_cache)?;
+
         for (descriptor, cert_store) in &self.cache {
             let Some(path) = self.cert_path_for_descriptor(descriptor) else {
                 continue;
diff --git a/src/manifest.rs b/src/manifest.rs
index d8efbbe..10f1bc2 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -155,6 +155,12 @@ impl PackageManifest {
         self.implementation.remove(path);
     }
 
+    /// Whether both manifests record the same state of this implementation file.
+    pub fn same_implementation(&self, other: &PackageManifest, path: &str) -> bool {
+        self.implementation.get(path) == other.implementation.get(path)
+            && self.checked_against.get(path) == other.checked_against.get(path)
+    }
+
     pub fn record_dependency(&mut self, name: String, hash: blake3::Hash) {
         self.dependencies.insert(name, HexHash::new(hash));
     }
-- 
2.43.0


From a0cc804146835dce051a4cae0a646ee4ae53b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:57 +0000
Subject: [PATCH 21/43] fix: a panic while feeding a pipelined build no longer
 leaves it waiting for ever

---
 src/builder.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 497a293..60bc0b0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -402,6 +402,20 @@ impl PipelineQueueState {
     }
 }
 
+/// Lets the workers of a pipeline finish when the thread that feeds them panics.
+struct ClosePipelineQueueOnUnwind<'a>(&'a Arc<(Mutex<PipelineQueueState>, Condvar)>);
+
+impl Drop for ClosePipelineQueueOnUnwind<'_> {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            let (lock, cvar) = &**self.0;
+            let mut state = lock.lock().unwrap_or_else(|poisoned| poisoned.into_inner());
+            state.closed = true;
+            cvar.notify_all();
+        }
+    }
+}
+
 #[derive(Clone)]
 struct ModuleWorkerConfig {
     check_mode: bool,
@@ -1436,6 +1450,9 @@ impl<'a> Builder<'a> {
         let mut loader_error = None;
 
         std::thread::scope(|scope| {
+            // The scope waits for the workers even if this closure panics, and they wait for the
+            // queue to be closed.
+            let _close_on_unwind = ClosePipelineQueueOnUnwind(&queue);
             let mut handles = Vec::new();
             for _ in 0..worker_count {
                 let queue = Arc::clone(&queue);
-- 
2.43.0


From 978d386edd5192b6abb2c0a7bd9da81956753358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 22/43] fix: a stored proof can no longer pass off one known
 instance as a generic claim

---
 src/certificate_trace.rs | 144 +++++++++++++++++++++------------------
 1 file changed, 78 insertions(+), 66 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index 6763b11..56b8712 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -502,11 +502,13 @@ impl<'a> TraceWriter<'a> {
                     let clause = claim
                         .normalized_specialized_clause(&self.kernel_context)
                         .map_err(CodeGenError::GeneratedBadCode)?;
-                    self.derivation_checker.insert_clause_for_trace(
-                        &generic,
-                        StepReason::PreviousClaim,
-                        &self.kernel_context,
-                    );
+                    if self.available.contains_key(&generic) {
+                        self.derivation_checker.insert_clause_for_trace(
+                            &generic,
+                            StepReason::PreviousClaim,
+                            &self.kernel_context,
+                        );
+                    }
                     self.derivation_checker.insert_clause_for_trace(
                         &clause,
                         StepReason::PreviousClaim,
@@ -685,13 +687,14 @@ impl<'a> TraceWriter<'a> {
                     return Ok(vec![(clause, source_reason.unwrap())]);
                 }
 
-                let reason = self
+                let generic_reason = self
                     .derivation_checker
-                    .check_clause(&generic_clause, &self.kernel_context)
-                    .or_else(|| {
-                        self.derivation_checker
-                            .check_clause(&clause, &self.kernel_context)
-                    });
+                    .check_clause(&generic_clause, &self.kernel_context);
+                let generic_known = generic_reason.is_some();
+                let reason = generic_reason.or_else(|| {
+                    self.derivation_checker
+                        .check_clause(&clause, &self.kernel_context)
+                });
 
                 let Some(reason) = reason else {
                     return Err(CodeGenError::GeneratedBadCode(format!(
@@ -702,11 +705,13 @@ impl<'a> TraceWriter<'a> {
                     )));
                 };
 
-                self.derivation_checker.insert_clause(
-                    &generic_clause,
-                    StepReason::PreviousClaim,
-                    &self.kernel_context,
-                );
+                if generic_known {
+                    self.derivation_checker.insert_clause(
+                        &generic_clause,
+                        StepReason::PreviousClaim,
+                        &self.kernel_context,
+                    );
+                }
                 self.derivation_checker.insert_clause(
                     &clause,
                     StepReason::PreviousClaim,
@@ -856,23 +861,31 @@ impl<'a> TraceWriter<'a> {
                 Ok(None)
             }
             ClaimStrategy::DirectFact => {
-                let reason = self
+                let generic_known = self
                     .shadow_checker
-                    .check_clause_direct_for_trace(clause, &self.kernel_context)
-                    .or_else(|| {
-                        self.shadow_checker
-                            .check_clause_direct_for_trace(generic, &self.kernel_context)
-                    });
-                if reason.is_none() {
+                    .check_clause_direct_for_trace(generic, &self.kernel_context)
+                    .is_some();
+                if !generic_known
+                    && self
+                        .shadow_checker
+                        .check_clause_direct_for_trace(clause, &self.kernel_context)
+                        .is_none()
+                {
                     return Ok(None);
                 }
+                // Knowing one instance of a generic clause says nothing about the others.
+                let aliases = if generic_known {
+                    Self::claim_aliases_for_code(code, generic.clone(), clause)
+                } else {
+                    vec![]
+                };
                 self.push_step(
                     TraceRule::Claim,
                     code.clone(),
                     vec![],
                     clause.clone(),
                     false,
-                    Self::claim_aliases_for_code(code, generic.clone(), clause),
+                    aliases,
                 )
                 .map(Some)
             }
@@ -1190,7 +1203,6 @@ impl<'a> TraceWriter<'a> {
                     )
                     .map(Some);
             }
-            let aliases = Self::claim_aliases_for_code(code, generic.clone(), clause);
             return self
                 .push_step(
                     TraceRule::BrIntro,
@@ -1198,7 +1210,7 @@ impl<'a> TraceWriter<'a> {
                     premises,
                     clause.clone(),
                     false,
-                    aliases,
+                    vec![],
                 )
                 .map(Some);
         }
@@ -3778,23 +3790,12 @@ impl<'a> TraceChecker<'a> {
             TraceRule::Fact | TraceRule::Claim => {
                 let (generic, specialized, code) =
                     self.parse_required_claim_with_generic(index, step)?;
-                let clause = if step.generic {
-                    generic.clone()
-                } else {
-                    specialized.clone()
-                };
-                let aliases = if is_synthetic_generic_wrapper(&code) {
-                    vec![]
-                } else {
-                    TraceWriter::claim_aliases(generic.clone(), &specialized)
-                };
-                let reason = self
+                let generic_reason = self
                     .checker
-                    .check_clause_direct_for_trace(&generic, &self.kernel_context)
-                    .or_else(|| {
-                        self.checker
-                            .check_clause_direct_for_trace(&clause, &self.kernel_context)
-                    })
+                    .check_clause_direct_for_trace(&generic, &self.kernel_context);
+                // Knowing one instance of a generic clause says nothing about the others.
+                let generic_known = generic_reason.is_some();
+                let reason = generic_reason
                     .or_else(|| {
                         self.checker
                             .check_clause_direct_for_trace(&specialized, &self.kernel_context)
@@ -3807,6 +3808,16 @@ impl<'a> TraceChecker<'a> {
                             code
                         ))
                     })?;
+                let clause = if step.generic && generic_known {
+                    generic.clone()
+                } else {
+                    specialized.clone()
+                };
+                let aliases = if !generic_known || is_synthetic_generic_wrapper(&code) {
+                    vec![]
+                } else {
+                    TraceWriter::claim_aliases(generic, &specialized)
+                };
                 self.accept_clause_with_aliases(clause, aliases, reason, code);
             }
             TraceRule::Inst => {
@@ -3884,7 +3895,13 @@ impl<'a> TraceChecker<'a> {
                 };
                 match (step.br_kind, step.br_literal_index) {
                     (Some(kind), Some(literal_index)) => {
-                        let canonical_targets: Vec<Clause> = [&result, &generic, &specialized]
+                        // A generic result does not follow from one of its instances.
+                        let targets = if step.generic {
+                            vec![&generic]
+                        } else {
+                            vec![&specialized, &generic]
+                        };
+                        let canonical_targets: Vec<Clause> = targets
                             .iter()
                             .filter_map(|target| {
                                 self.checker
@@ -3900,9 +3917,7 @@ impl<'a> TraceChecker<'a> {
                                     &self.kernel_context,
                                 )
                                 .is_some_and(|candidate| {
-                                    candidate == result
-                                        || candidate == generic
-                                        || candidate == specialized
+                                    targets.contains(&&candidate)
                                         || canonical_targets.contains(&candidate)
                                 })
                         });
@@ -3961,16 +3976,14 @@ impl<'a> TraceChecker<'a> {
                 } else {
                     specialized.clone()
                 };
-                let justified = if step.premises.is_empty() {
+                let (generic_justified, specialized_justified) = if step.premises.is_empty() {
                     // Legacy premise-less form: re-derive from known reductions.
-                    self.checker
-                        .boolean_reduction_proves_for_trace(&generic, &self.kernel_context)
-                        || self
-                            .checker
-                            .boolean_reduction_proves_for_trace(&result, &self.kernel_context)
-                        || self
-                            .checker
-                            .boolean_reduction_proves_for_trace(&specialized, &self.kernel_context)
+                    let mut proves = |clause: &Clause| {
+                        self.checker
+                            .boolean_reduction_proves_for_trace(clause, &self.kernel_context)
+                    };
+                    let generic_justified = proves(&generic);
+                    (generic_justified, generic_justified || proves(&specialized))
                 } else {
                     // Premise-bearing form: the premises must jointly form one of the
                     // clause's reduction sets, so the check is local to this step.
@@ -3985,14 +3998,7 @@ impl<'a> TraceChecker<'a> {
                         };
                         premise_clauses.extend(step_clauses.all().cloned());
                     }
-                    let mut targets = vec![&result];
-                    if specialized != result {
-                        targets.push(&specialized);
-                    }
-                    if generic != result && generic != specialized {
-                        targets.push(&generic);
-                    }
-                    targets.iter().any(|target| {
+                    let reduces = |target: &Clause| {
                         self.checker
                             .checker_boolean_reduction_sets(target, &self.kernel_context)
                             .iter()
@@ -4015,16 +4021,22 @@ impl<'a> TraceChecker<'a> {
                                     })
                                 })
                             })
-                    })
+                    };
+                    let generic_justified = reduces(&generic);
+                    (
+                        generic_justified,
+                        generic_justified || reduces(&specialized),
+                    )
                 };
-                if !justified {
+                // A generic result does not follow from one of its instances.
+                if !(generic_justified || (specialized_justified && !step.generic)) {
                     return Err(CodeGenError::GeneratedBadCode(format!(
                         "certificate trace br_intro step {} is not justified by known reductions: {}",
                         index + 1,
                         code
                     )));
                 }
-                let aliases = if is_synthetic_generic_wrapper(&code) {
+                let aliases = if !generic_justified || is_synthetic_generic_wrapper(&code) {
                     vec![]
                 } else {
                     TraceWriter::claim_aliases(generic, &specialized)
-- 
2.43.0


From 799090206566ac67e17d06417daf90cee113d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 23/43] fix: let processes that install the packaged library
 take turns

A process that found the cache entry invalid removed it before renaming its
own copy into place, even when another process had installed a valid one in
the meantime: the other process lost the library it was using, and removals
at the same time made each other fail. Installing now happens under a lock
on the cache directory, with the entry looked at again once it is held.
---
 src/packaged_acornlib.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/packaged_acornlib.rs b/src/packaged_acornlib.rs
index c013a2e..7931960 100644
--- a/src/packaged_acornlib.rs
+++ b/src/packaged_acornlib.rs
@@ -1,7 +1,7 @@
 use flate2::read::GzDecoder;
 use serde::{Deserialize, Serialize};
-use std::fs;
-use std::io::Cursor;
+use std::fs::{self, File};
+use std::io::{Cursor, ErrorKind};
 use std::path::{Path, PathBuf};
 use std::time::{SystemTime, UNIX_EPOCH};
 use tar::Archive;
@@ -10,6 +10,7 @@ const ARCHIVE_BYTES: &[u8] = include_bytes!(concat!(env!("OUT_DIR"), "/acornlib.
 const ARCHIVE_HASH: &str = include_str!(concat!(env!("OUT_DIR"), "/acornlib.tar.gz.blake3"));
 const CACHE_METADATA_FILE: &str = ".acornlib-cache.json";
 const CACHE_METADATA_FORMAT: u32 = 1;
+const LOCK_FILE: &str = ".acornlib-lock";
 
 #[derive(Deserialize, Serialize)]
 struct CacheMetadata {
@@ -39,6 +40,13 @@ pub fn get_or_extract(cache_root: &Path) -> Result<PathBuf, String> {
         )
     })?;
 
+    // Processes that start at the same time take turns, so that none replaces (and first
+    // removes) what another one has just installed.
+    let _lock = lock_cache(cache_root)?;
+    if cache_is_valid(&acornlib_dir, archive_hash) {
+        return Ok(acornlib_dir);
+    }
+
     let temp_root = cache_root.join(temp_dir_name(archive_hash));
     if temp_root.exists() {
         fs::remove_dir_all(&temp_root).map_err(|e| {
@@ -68,6 +76,20 @@ pub fn get_or_extract(cache_root: &Path) -> Result<PathBuf, String> {
     result
 }
 
+/// Waits until no other process is installing into this cache. The lock is held until the
+/// returned file is closed.
+fn lock_cache(cache_root: &Path) -> Result<File, String> {
+    let path = cache_root.join(LOCK_FILE);
+    let lock_error = |e| format!("failed to lock acornlib cache {}: {}", path.display(), e);
+    let file = File::create(&path).map_err(lock_error)?;
+    match file.lock() {
+        Ok(()) => Ok(file),
+        // Some file systems have no locks. Then there is nothing to wait for.
+        Err(e) if e.kind() == ErrorKind::Unsupported => Ok(file),
+        Err(e) => Err(lock_error(e)),
+    }
+}
+
 fn archive_hash() -> &'static str {
     ARCHIVE_HASH.trim()
 }
-- 
2.43.0


From be61a1673dc752f0fac0e10df8092659537619ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:53 +0000
Subject: [PATCH 24/43] fix: sync the unpacked library before taking it for
 complete

The entry vouches for its files with a metadata file only, so files emptied
by a power loss after the rename were handed out for ever.
---
 src/packaged_acornlib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/packaged_acornlib.rs b/src/packaged_acornlib.rs
index 7931960..294c00f 100644
--- a/src/packaged_acornlib.rs
+++ b/src/packaged_acornlib.rs
@@ -68,6 +68,7 @@ pub fn get_or_extract(cache_root: &Path) -> Result<PathBuf, String> {
     let result = extract_to(&temp_root)
         .and_then(|_| verify_layout(&temp_root.join("acornlib")))
         .and_then(|_| write_metadata(&temp_root.join("acornlib"), archive_hash))
+        .and_then(|_| sync_files(&temp_root))
         .and_then(|_| install_temp_cache(&temp_root, &target_root, &acornlib_dir, archive_hash));
 
     if result.is_err() {
@@ -117,6 +118,25 @@ fn extract_to(target_root: &Path) -> Result<(), String> {
         .map_err(|e| format!("failed to extract packaged acornlib: {}", e))
 }
 
+/// Forces the files below `dir` to disk. Once the entry is in place it is taken to be complete,
+/// so a power loss must not be able to empty its files.
+fn sync_files(dir: &Path) -> Result<(), String> {
+    let sync_error = |e| format!("failed to sync acornlib cache {}: {}", dir.display(), e);
+    for entry in fs::read_dir(dir).map_err(sync_error)? {
+        let path = entry.map_err(sync_error)?.path();
+        if path.is_dir() {
+            sync_files(&path)?;
+        } else {
+            fs::OpenOptions::new()
+                .write(true)
+                .open(&path)
+                .and_then(|file| file.sync_all())
+                .map_err(sync_error)?;
+        }
+    }
+    Ok(())
+}
+
 fn verify_layout(acornlib_dir: &Path) -> Result<(), String> {
     if !acornlib_dir.join("acorn.toml").is_file() {
         return Err(format!(
-- 
2.43.0


From 1fe1552e1ba038848d0df806626ec01909560ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 25/43] fix: an export whose output could not be written or
 source not read fails

Errors while writing index.json were lost when its buffer was dropped, and
a module whose source could not be read was exported without its proofs.
---
 src/exporter.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/exporter.rs b/src/exporter.rs
index edea037..a9c147d 100644
--- a/src/exporter.rs
+++ b/src/exporter.rs
@@ -216,7 +216,7 @@ pub fn export_project(
             None => continue,
         };
 
-        let exported = export_module(project, env, *module_id, &module_name, descriptor, options);
+        let exported = export_module(project, env, *module_id, &module_name, descriptor, options)?;
 
         let entry = ExportedIndexEntry {
             name: module_name.clone(),
@@ -264,13 +264,17 @@ pub fn export_project(
     let index_path = output_dir.join("index.json");
     let file =
         fs::File::create(&index_path).map_err(|e| format!("cannot create index.json: {}", e))?;
-    let writer = BufWriter::new(file);
+    let mut writer = BufWriter::new(file);
     if options.pretty {
-        serde_json::to_writer_pretty(writer, &index)
+        serde_json::to_writer_pretty(&mut writer, &index)
     } else {
-        serde_json::to_writer(writer, &index)
+        serde_json::to_writer(&mut writer, &index)
     }
     .map_err(|e| format!("cannot write index.json: {}", e))?;
+    // Dropping the writer would ignore errors.
+    writer
+        .flush()
+        .map_err(|e| format!("cannot write index.json: {}", e))?;
 
     println!(
         "\nExported {} modules: {} theorems, {} definitions, {} types, {} typeclasses, {} instances",
@@ -375,18 +379,20 @@ fn export_module(
     module_name: &str,
     descriptor: &ModuleDescriptor,
     options: &ExportOptions,
-) -> ExportedModule {
+) -> Result<ExportedModule, String> {
     let bindings = &env.bindings;
 
     let imports = collect_imports(env, project, module_id);
 
     // Read source file for proof extraction
-    let source_lines: Vec<String> = project
-        .path_from_descriptor(descriptor)
-        .ok()
-        .and_then(|path| fs::read_to_string(path).ok())
-        .map(|content| content.lines().map(String::from).collect())
-        .unwrap_or_default();
+    let source_lines: Vec<String> = match project.path_from_descriptor(descriptor) {
+        Ok(path) => fs::read_to_string(&path)
+            .map_err(|e| format!("cannot read {}: {}", path.display(), e))?
+            .lines()
+            .map(String::from)
+            .collect(),
+        Err(_) => Vec::new(),
+    };
 
     // Types
     let mut types = Vec::new();
@@ -678,7 +684,7 @@ fn export_module(
         }
     }
 
-    ExportedModule {
+    Ok(ExportedModule {
         name: module_name.to_string(),
         imports,
         numerals,
@@ -688,7 +694,7 @@ fn export_module(
         instances,
         definitions,
         theorems,
-    }
+    })
 }
 
 fn export_node(
-- 
2.43.0


From cbe633d596286e9117abfd8d025e63e107500f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 26/43] fix: docs, export, lint and citations fail when sources
 cannot be listed or read

They carried on with the modules they could read, and docs removed the
pages of the others.
---
 src/bin/acorn.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/bin/acorn.rs b/src/bin/acorn.rs
index bbdb0bc..c11e027 100644
--- a/src/bin/acorn.rs
+++ b/src/bin/acorn.rs
@@ -31,6 +31,22 @@ fn configure_bare_verify(verifier: &mut Verifier) {
     verifier.builder.check_jobs = default_jobs();
 }
 
+fn add_src_targets(project: &mut Project) {
+    let paths = match project.src_target_paths() {
+        Ok(paths) => paths,
+        Err(e) => {
+            println!("Error listing source files: {}", e);
+            std::process::exit(1);
+        }
+    };
+    for path in paths {
+        if let Err(e) = project.add_target_by_path(&path) {
+            println!("Error loading {}: {}", path.display(), e);
+            std::process::exit(1);
+        }
+    }
+}
+
 fn exit_project_load_error<T>(error: ProjectError) -> T {
     if error.is_manifest_version_problem() {
         println!("{}", error.cli_message());
@@ -920,7 +936,7 @@ async fn main() {
                 },
             )
             .unwrap_or_else(exit_project_load_error);
-            project.add_src_targets();
+            add_src_targets(&mut project);
             match DocGenerator::new(&project).generate(&dir) {
                 Ok(count) => {
                     println!("{} files generated in {}", count, dir);
@@ -1629,7 +1645,7 @@ async fn main() {
             )
             .unwrap_or_else(exit_project_load_error);
 
-            project.add_src_targets();
+            add_src_targets(&mut project);
             let errors = project.errors();
             if !errors.is_empty() {
                 for (module_id, error) in errors {
@@ -1744,7 +1760,7 @@ async fn main() {
                         std::process::exit(1);
                     }
                 }
-                None => project.add_src_targets(),
+                None => add_src_targets(&mut project),
             }
 
             let errors = project.errors();
@@ -1800,7 +1816,7 @@ async fn main() {
             )
             .unwrap_or_else(exit_project_load_error);
 
-            project.add_src_targets();
+            add_src_targets(&mut project);
             let errors = project.errors();
             if !errors.is_empty() {
                 for (module_id, error) in errors {
-- 
2.43.0


From 287ec1a69df2b70de3556c350b1a70f9791e237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:54 +0000
Subject: [PATCH 27/43] fix: simplify does not overwrite or misapply to a
 source edited meanwhile

---
 src/simplifier.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/simplifier.rs b/src/simplifier.rs
index e4514ce..eff3b7d 100644
--- a/src/simplifier.rs
+++ b/src/simplifier.rs
@@ -135,6 +135,16 @@ pub fn simplify_file(
             if options.dry_run {
                 working_source = Some(edited);
             } else {
+                // Don't overwrite an edit made while we were searching.
+                let current = std::fs::read_to_string(&loaded.target_path).map_err(|e| {
+                    format!("error reading {}: {}", loaded.target_path.display(), e)
+                })?;
+                if current != loaded.source {
+                    return Err(format!(
+                        "{} changed while it was being simplified",
+                        loaded.target_path.display()
+                    ));
+                }
                 crate::atomic_file::write(&loaded.target_path, edited.as_bytes()).map_err(|e| {
                     format!("error writing {}: {}", loaded.target_path.display(), e)
                 })?;
@@ -176,24 +186,20 @@ fn load_target(
     let mut project = Project::new_local(start_path, config).map_err(|e| e.cli_message())?;
     let target_path = resolve_target_path(&project, start_path, target)?;
 
-    if let Some(source) = source_override {
-        project
-            .update_file(target_path.clone(), source, 1)
-            .map_err(|e| format!("Error loading target '{}': {}", target, e))?;
-    } else {
-        project
-            .add_target_by_path(&target_path)
-            .map_err(|e| format!("Error loading target '{}': {}", target, e))?;
-    }
-
-    let descriptor = project
-        .descriptor_from_path(&target_path)
-        .map_err(|e| format!("Error resolving target '{}': {}", target, e))?;
+    // Read the source once and load exactly that text. Reading it a second time could see an
+    // edit made since, and line numbers of one version do not apply to the other.
     let source = match source_override {
         Some(source) => source.to_string(),
         None => std::fs::read_to_string(&target_path)
             .map_err(|e| format!("error reading {}: {}", target_path.display(), e))?,
     };
+    project
+        .update_file(target_path.clone(), &source, 1)
+        .map_err(|e| format!("Error loading target '{}': {}", target, e))?;
+
+    let descriptor = project
+        .descriptor_from_path(&target_path)
+        .map_err(|e| format!("Error resolving target '{}': {}", target, e))?;
     let lowered = match project.get_module(&descriptor) {
         LoadState::Ok(module) => module
             .lowered()
-- 
2.43.0


From 92141ea9a755e7ce5372614060de37906aaed4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:21 +0000
Subject: [PATCH 28/43] fix: after a failed save, later builds do not take what
 was not stored for stored

---
 src/build_cache.rs | 17 +++++++++++++++++
 src/project.rs     | 12 +++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index 17a7858..86463bd 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -343,6 +343,23 @@ impl BuildCache {
         }
     }
 
+    /// Takes over the certificates of modules that have none here. No manifest may vouch for
+    /// these, so that they are checked and saved again by the next build of the module.
+    pub fn keep_unsaved_certificates(&mut self, unsaved: &BuildCache) {
+        for (descriptor, cert_store) in &unsaved.cache {
+            if self.cache.contains_key(descriptor) {
+                continue;
+            }
+            if let Some((package_root, key)) = self.implementation_entry_for_descriptor(descriptor)
+            {
+                if let Some(manifest) = self.manifests.get_mut(&package_root) {
+                    manifest.forget_implementation(&key);
+                }
+            }
+            self.cache.insert(descriptor.clone(), cert_store.clone());
+        }
+    }
+
     fn merge_missing_manifests_from(&mut self, old_cache: &BuildCache) {
         // When a module has new certificates, its old manifest entry, which says that the module
         // was good in some earlier state, says nothing about them.
diff --git a/src/project.rs b/src/project.rs
index 2fb6f68..35c5ac7 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1792,7 +1792,17 @@ impl Project {
             let _ = Self::write_project_format_version(&self.src_dir);
             // Save and merge: writes only new JSONL files, preserves manifest based on build type,
             // and merges old certificates back into memory
-            let _ = new_cache.save_merging_old(self.build_cache.as_ref(), is_partial_build);
+            let saved = new_cache.save_merging_old(self.build_cache.as_ref(), is_partial_build);
+            if saved.is_err() {
+                // We don't know how much of it was stored. Later builds must not skip a module
+                // because of a manifest entry or certificates that never reached the disk.
+                if let Ok(mut on_disk) =
+                    BuildCache::load(self.src_dir.clone(), self.build_dir.clone())
+                {
+                    on_disk.keep_unsaved_certificates(&new_cache);
+                    new_cache = on_disk;
+                }
+            }
         } else {
             // Even if we're not writing to disk, we need to merge the old certificates
             // into memory so they're available for future builds
-- 
2.43.0


From 524818642308a02d52152c71254b1d097b078f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:49 +0000
Subject: [PATCH 29/43] fix: a build that does not succeed keeps the unneeded
 steps of stored proofs

---
 src/builder.rs | 80 ++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 60bc0b0..f580ace 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -282,9 +282,10 @@ pub struct Builder<'a> {
     /// The new build cache, that is being produced as a result of this build.
     pub build_cache: Option<BuildCache>,
 
-    /// Tracks the number of used certificates per module (before appending unused certs).
-    /// Used to trim unused certs if the final build status is Good.
-    used_cert_counts: HashMap<ModuleDescriptor, usize>,
+    /// For the used certificates of each module (which come before the unused ones), how many of
+    /// their steps were needed. Used to trim unused certs and steps if the final build status is
+    /// Good. Otherwise they may be needed again, as soon as whatever is wrong is put right.
+    used_cert_steps: HashMap<ModuleDescriptor, Vec<usize>>,
 
     /// When this is set, the builder only builds goals matching the filter.
     /// Line numbers are internal (0-based).
@@ -326,13 +327,19 @@ pub struct Builder<'a> {
     pub check_jobs: usize,
 }
 
+/// A certificate that proved a goal, and how many of its steps that took.
+struct UsedCertificate {
+    cert: Certificate,
+    needed_steps: usize,
+}
+
 struct ModuleBuildResult {
     index: usize,
     status: BuildStatus,
     metrics: BuildMetrics,
     module_timings: Vec<ModuleTiming>,
     build_cache: Option<BuildCache>,
-    used_cert_counts: HashMap<ModuleDescriptor, usize>,
+    used_cert_steps: HashMap<ModuleDescriptor, Vec<usize>>,
     events: Vec<BuildEvent>,
 }
 
@@ -1315,7 +1322,7 @@ impl<'a> Builder<'a> {
             single_line_goal_count: 0,
             current_module_good: true,
             build_cache: None,
-            used_cert_counts: HashMap::new(),
+            used_cert_steps: HashMap::new(),
             goal_filter: None,
             print_proof: false,
             print_found_proof: false,
@@ -1644,7 +1651,7 @@ impl<'a> Builder<'a> {
                 .expect("parallel module builds should have a parent build cache")
                 .merge_updates_from(build_cache);
         }
-        self.used_cert_counts.extend(result.used_cert_counts);
+        self.used_cert_steps.extend(result.used_cert_steps);
         match result.status {
             BuildStatus::Error => self.status = BuildStatus::Error,
             BuildStatus::Warning if self.status.is_good() => self.status = BuildStatus::Warning,
@@ -2300,7 +2307,7 @@ impl<'a> Builder<'a> {
         mut processor: Rc<Processor>,
         goal: &Goal,
         bindings: &crate::elaborator::binding_map::BindingMap,
-        new_certs: &mut Vec<Certificate>,
+        new_certs: &mut Vec<UsedCertificate>,
         worklist: &mut CertificateWorklist,
         lowered_goal: Option<&LoweredGoal>,
         eval_skip: Option<usize>,
@@ -2359,13 +2366,9 @@ impl<'a> Builder<'a> {
                     self.project(),
                     bindings,
                 );
-                let (cert_to_use, check_result) = match result {
-                    Ok(checked_cert) => {
-                        let cert_to_use =
-                            cert.trim_to_consumed_prefix(checked_cert.consumed_proof_steps);
-                        (cert_to_use, Ok(checked_cert.lines))
-                    }
-                    Err(e) => (cert, Err(e)),
+                let (needed_steps, check_result) = match result {
+                    Ok(checked_cert) => (checked_cert.consumed_proof_steps, Ok(checked_cert.lines)),
+                    Err(e) => (0, Err(e)),
                 };
                 let check_elapsed = check_start.elapsed();
                 let check_succeeded = check_result.is_ok();
@@ -2377,7 +2380,7 @@ impl<'a> Builder<'a> {
                         self.metrics.goals_done += 1;
                         self.metrics.goals_success += 1;
                         self.log_verified(goal.first_line, goal.last_line);
-                        new_certs.push(cert_to_use);
+                        new_certs.push(UsedCertificate { cert, needed_steps });
                         worklist.remove(&goal.name, *i);
 
                         return Ok(());
@@ -2392,7 +2395,7 @@ impl<'a> Builder<'a> {
                                 .map(|m| m.to_string())
                                 .unwrap_or_else(|| "unknown".to_string());
                             let external_line = goal.first_line + 1;
-                            let cert_json = serde_json::to_string(&cert_to_use).unwrap_or_default();
+                            let cert_json = serde_json::to_string(&cert).unwrap_or_default();
                             self.log_global(format!(
                                 "To reproduce: acorn check {} --line {} --cert '{}'",
                                 module_name, external_line, cert_json
@@ -2555,7 +2558,8 @@ impl<'a> Builder<'a> {
                             );
                             print_displayed_proof(display_bindings.as_ref(), lines);
                         }
-                        new_certs.push(cert);
+                        let needed_steps = cert.proof_step_count();
+                        new_certs.push(UsedCertificate { cert, needed_steps });
                         self.metrics.certs_created += 1;
                     }
                     Err(e) => {
@@ -2630,7 +2634,7 @@ impl<'a> Builder<'a> {
         processor: Rc<Processor>,
         goal: &Goal,
         bindings: &crate::elaborator::binding_map::BindingMap,
-        new_certs: &mut Vec<Certificate>,
+        new_certs: &mut Vec<UsedCertificate>,
         worklist: &mut CertificateWorklist,
         lowered_goal: Option<&LoweredGoal>,
         eval_skip_tail: &EvalSkipTail<Rc<Processor>>,
@@ -2729,7 +2733,7 @@ impl<'a> Builder<'a> {
         processor: Rc<Processor>,
         lowered: &LoweredModule,
         item: &LoweredItem,
-        new_certs: &mut Vec<Certificate>,
+        new_certs: &mut Vec<UsedCertificate>,
         worklist: &mut CertificateWorklist,
         eval_goal_counts: &mut Option<HashMap<String, EvalGoalCounts>>,
         eval_skip_tail: &EvalSkipTail<Rc<Processor>>,
@@ -2805,7 +2809,7 @@ impl<'a> Builder<'a> {
         lowered: &LoweredModule,
         items: &[LoweredItem],
         top_level: bool,
-        new_certs: &mut Vec<Certificate>,
+        new_certs: &mut Vec<UsedCertificate>,
         worklist: &mut CertificateWorklist,
         eval_goal_counts: &mut Option<HashMap<String, EvalGoalCounts>>,
         eval_skip_tail: &mut EvalSkipTail<Rc<Processor>>,
@@ -2988,11 +2992,13 @@ impl<'a> Builder<'a> {
             return Ok(());
         }
 
-        let used_cert_count = new_certs.len();
-        let mut cert_store = CertificateStore { certs: new_certs };
+        let (certs, used_cert_steps) = new_certs
+            .into_iter()
+            .map(|used: UsedCertificate| (used.cert, used.needed_steps))
+            .unzip();
+        let mut cert_store = CertificateStore { certs };
         cert_store.append(&worklist);
-        self.used_cert_counts
-            .insert(target.clone(), used_cert_count);
+        self.used_cert_steps.insert(target.clone(), used_cert_steps);
 
         let content_hash = if module_good {
             self.project().get_module_content_hash(lowered.module_id)
@@ -3185,7 +3191,7 @@ impl<'a> Builder<'a> {
         let status = builder.status;
         let metrics = builder.metrics.clone();
         let module_timings = builder.module_timings.clone();
-        let used_cert_counts = std::mem::take(&mut builder.used_cert_counts);
+        let used_cert_steps = std::mem::take(&mut builder.used_cert_steps);
         let build_cache = builder.take_build_cache();
         drop(builder);
 
@@ -3195,7 +3201,7 @@ impl<'a> Builder<'a> {
             metrics,
             module_timings,
             build_cache,
-            used_cert_counts,
+            used_cert_steps,
             events,
         }
     }
@@ -3421,6 +3427,7 @@ impl<'a> Builder<'a> {
             let verification_start = std::time::Instant::now();
             self.build_owned_modules_parallel(modules);
             self.metrics.verification_time = verification_start.elapsed().as_secs_f64();
+            self.trim_unused_certificates();
             return;
         }
 
@@ -3572,9 +3579,14 @@ impl<'a> Builder<'a> {
             return;
         }
         if let Some(ref mut cache) = self.build_cache {
-            for (descriptor, used_cert_count) in &self.used_cert_counts {
+            for (descriptor, used_cert_steps) in &self.used_cert_steps {
                 if let Some(cert_store) = cache.get_certificates_mut(descriptor) {
-                    cert_store.certs.truncate(*used_cert_count);
+                    let certs = std::mem::take(&mut cert_store.certs);
+                    cert_store.certs = certs
+                        .into_iter()
+                        .zip(used_cert_steps)
+                        .map(|(cert, needed_steps)| cert.trim_to_consumed_prefix(*needed_steps))
+                        .collect();
                 }
             }
         }
@@ -3666,6 +3678,7 @@ impl<'a> Builder<'a> {
             let verification_start = std::time::Instant::now();
             self.build_modules_parallel(modules);
             self.metrics.verification_time = verification_start.elapsed().as_secs_f64();
+            self.trim_unused_certificates();
             return;
         }
 
@@ -3747,16 +3760,7 @@ impl<'a> Builder<'a> {
         self.metrics.verification_time = verification_start.elapsed().as_secs_f64();
 
         // If the build succeeded, remove unused certs that were preserved during verification
-        if self.status.is_good() {
-            if let Some(ref mut cache) = self.build_cache {
-                for (descriptor, used_cert_count) in &self.used_cert_counts {
-                    if let Some(cert_store) = cache.get_certificates_mut(descriptor) {
-                        // Trim to only keep the used certs (remove unused/old certs)
-                        cert_store.certs.truncate(*used_cert_count);
-                    }
-                }
-            }
-        }
+        self.trim_unused_certificates();
     }
 
     /// Tries to skip building a module if it and all its dependencies are unchanged.
-- 
2.43.0


From fe47829ab97cf19413af6e1002349487a25c0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:28 +0000
Subject: [PATCH 30/43] fix: strict checks reject axioms inside blocks as well

---
 src/builder.rs                    |  2 +-
 src/elaborator/environment/mod.rs | 16 +++++++---------
 src/elaborator/lowered_module.rs  |  8 ++++----
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f580ace..5a0a70d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2906,7 +2906,7 @@ impl<'a> Builder<'a> {
 
         let is_surface_check_target = self.project().is_surface_check_target(target);
         if self.strict && !is_surface_check_target {
-            for range in &lowered.top_level_axiom_ranges {
+            for range in &lowered.axiom_ranges {
                 let event = self.make_event(
                     *range,
                     "axiom keyword is not allowed in strict mode",
diff --git a/src/elaborator/environment/mod.rs b/src/elaborator/environment/mod.rs
index 31920f4..276c9bb 100644
--- a/src/elaborator/environment/mod.rs
+++ b/src/elaborator/environment/mod.rs
@@ -946,15 +946,13 @@ impl Environment {
                             let fact_id = lowered_module.add_fact(normalized);
                             if top_level && fact.source().importable {
                                 lowered_module.module_fact_ids.push(fact_id);
-                                if let Fact::Proposition(prop) = fact {
-                                    if matches!(
-                                        prop.source.source_type,
-                                        crate::elaborator::source::SourceType::Axiom(_)
-                                    ) {
-                                        lowered_module
-                                            .top_level_axiom_ranges
-                                            .push(prop.source.range);
-                                    }
+                            }
+                            if let Fact::Proposition(prop) = fact {
+                                if matches!(
+                                    prop.source.source_type,
+                                    crate::elaborator::source::SourceType::Axiom(_)
+                                ) {
+                                    lowered_module.axiom_ranges.push(prop.source.range);
                                 }
                             }
                             items.push(LoweredItem::Fact {
diff --git a/src/elaborator/lowered_module.rs b/src/elaborator/lowered_module.rs
index b189562..6380317 100644
--- a/src/elaborator/lowered_module.rs
+++ b/src/elaborator/lowered_module.rs
@@ -169,7 +169,7 @@ pub struct LoweredModule {
     goals: Vec<LoweredGoalEntry>,
     pub module_fact_ids: Vec<LoweredFactId>,
     pub items: Vec<LoweredItem>,
-    pub top_level_axiom_ranges: Vec<Range>,
+    pub axiom_ranges: Vec<Range>,
 }
 
 impl LoweredModule {
@@ -182,7 +182,7 @@ impl LoweredModule {
             goals: Vec::new(),
             module_fact_ids: Vec::new(),
             items: Vec::new(),
-            top_level_axiom_ranges: Vec::new(),
+            axiom_ranges: Vec::new(),
         }
     }
 
@@ -276,8 +276,8 @@ impl LoweredModule {
         self.module_fact_ids.shrink_to_fit();
         self.items.clear();
         self.items.shrink_to_fit();
-        self.top_level_axiom_ranges.clear();
-        self.top_level_axiom_ranges.shrink_to_fit();
+        self.axiom_ranges.clear();
+        self.axiom_ranges.shrink_to_fit();
         self.final_kernel_context = KernelContext::new();
     }
 
-- 
2.43.0


From 7fe199c1db5651db51521fd6b9501e39c7808724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 31/43] fix: the error about an axiom in a strict check names
 its module

---
 src/builder.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5a0a70d..c8d89e6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2906,14 +2906,9 @@ impl<'a> Builder<'a> {
 
         let is_surface_check_target = self.project().is_surface_check_target(target);
         if self.strict && !is_surface_check_target {
-            for range in &lowered.axiom_ranges {
-                let event = self.make_event(
-                    *range,
-                    "axiom keyword is not allowed in strict mode",
-                    Some(tower_lsp::lsp_types::DiagnosticSeverity::ERROR),
-                );
-                (self.event_handler)(event);
-                self.status = BuildStatus::Error;
+            if let Some(range) = lowered.axiom_ranges.first() {
+                // The error that our caller logs belongs to this module.
+                self.module_proving_started(target.clone());
                 return Err(BuildError::new(
                     *range,
                     "axiom keyword is not allowed in strict mode",
-- 
2.43.0


From 5b6a2288727b437fda6ae40c87e821ae10171239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:04 +0000
Subject: [PATCH 32/43] fix: a prelude that imports other modules is circular
 for every number of jobs

---
 src/project.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 35c5ac7..b6784ec 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -3871,6 +3871,16 @@ impl Project {
             {
                 continue;
             }
+            if is_prelude {
+                // Every other module imports the prelude.
+                let dependency =
+                    self.canonicalize_name_descriptor(&ModuleDescriptor::name(module_name));
+                if let Some(&dep_id) = self.module_map.get(&dependency) {
+                    self.dependency_load_errors
+                        .insert(module_name.clone(), ImportError::Circular(dep_id));
+                    continue;
+                }
+            }
             match self.load_module_by_name(module_name) {
                 Ok(dep_id) => {
                     self.dependency_load_errors.remove(module_name);
-- 
2.43.0


From ae416fc7b46a961be614f4f7dbe5500ca5a5c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:25 +0000
Subject: [PATCH 33/43] fix: selecting a line without a target is an error, not
 a panic

---
 src/verifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index 25f19fa..b6a0560 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -737,6 +737,10 @@ impl Verifier {
     /// Returns VerifierOutput on success or clean failure.
     /// Returns an error string if verification fails during setup.
     pub fn run(mut self) -> Result<VerifierOutput, String> {
+        if self.line_selection.is_some() && self.target.is_none() {
+            return Err("selecting a line requires a target".to_string());
+        }
+
         self.builder.exit_on_warning = self.exit_on_warning;
 
         let can_stream_module_work = unsafe { (*self.project_ptr).config.usage_mode.is_batch() }
-- 
2.43.0


From cf84d8ad4a9e95275bb979efde6dc9e44fbceeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:25 +0000
Subject: [PATCH 34/43] fix: line number 0 is an error

---
 src/bin/acorn.rs |  4 ++++
 src/builder.rs   | 12 +++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bin/acorn.rs b/src/bin/acorn.rs
index c11e027..e3594ee 100644
--- a/src/bin/acorn.rs
+++ b/src/bin/acorn.rs
@@ -1487,6 +1487,10 @@ async fn main() {
 
             // Select command doesn't support line ranges
             let line = match line_sel {
+                Some(LineSelection::Single(0)) => {
+                    println!("Error: line numbers start at 1");
+                    std::process::exit(1);
+                }
                 Some(LineSelection::Single(l)) => l,
                 Some(LineSelection::Range(_, _)) => {
                     println!("Error: select command does not support line ranges");
diff --git a/src/builder.rs b/src/builder.rs
index c8d89e6..17167a6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2217,7 +2217,9 @@ impl<'a> Builder<'a> {
         goal_index: Option<usize>,
     ) -> Result<(), String> {
         // Convert from 1-based (external) to 0-based (internal) line number
-        let internal_line_number = external_line_number - 1;
+        let internal_line_number = external_line_number
+            .checked_sub(1)
+            .ok_or("line numbers start at 1")?;
 
         let module_descriptor = self.target_descriptor(target)?;
 
@@ -2242,8 +2244,12 @@ impl<'a> Builder<'a> {
         external_end: u32,
     ) -> Result<(), String> {
         // Convert from 1-based (external) to 0-based (internal) line numbers
-        let internal_start = external_start - 1;
-        let internal_end = external_end - 1;
+        let internal_start = external_start
+            .checked_sub(1)
+            .ok_or("line numbers start at 1")?;
+        let internal_end = external_end
+            .checked_sub(1)
+            .ok_or("line numbers start at 1")?;
 
         let module_descriptor = self.target_descriptor(target)?;
 
-- 
2.43.0


From 25b4f9b03d35f1738d0be13e73e0bb896556f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:48 +0000
Subject: [PATCH 35/43] fix: diagnostics of the program go to standard error,
 not between the messages of the language server

---
 src/bin/acorn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/acorn.rs b/src/bin/acorn.rs
index e3594ee..2fbe110 100644
--- a/src/bin/acorn.rs
+++ b/src/bin/acorn.rs
@@ -894,7 +894,13 @@ async fn main() {
     //   RUST_LOG=acorn::processor=debug cargo run -- verify
     //   RUST_LOG=acorn::processor=trace cargo run -- verify
     tracing_subscriber::registry()
-        .with(fmt::layer().with_ansi(false).without_time())
+        .with(
+            // Standard output carries the results, and the messages of the language server.
+            fmt::layer()
+                .with_ansi(false)
+                .without_time()
+                .with_writer(std::io::stderr),
+        )
         .with(EnvFilter::try_from_default_env().unwrap_or_else(|_| EnvFilter::new("warn")))
         .init();
 
-- 
2.43.0


From bff65f232710414ef8e904c41514dcfe746a2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:49 +0000
Subject: [PATCH 36/43] fix: the language server ends when its input ends, also
 while messages are under way

---
 src/server.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 7569d9b..d3d9918 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -4,14 +4,18 @@ mod project_manager;
 
 use std::collections::{HashMap, HashSet};
 use std::path::PathBuf;
+use std::pin::Pin;
 use std::sync::Arc;
+use std::task::{Context, Poll};
+use std::time::Duration;
 
 use self::live_document::LiveDocument;
 use self::project_manager::ProjectManager;
 use crate::builder::{BuildEvent, Builder};
 use color_backtrace::BacktracePrinter;
 use dashmap::DashMap;
-use tokio::sync::{mpsc, RwLock};
+use tokio::io::{AsyncRead, ReadBuf};
+use tokio::sync::{mpsc, oneshot, RwLock};
 use tower_lsp::jsonrpc;
 use tower_lsp::lsp_types::request::GotoImplementationResponse;
 use tower_lsp::lsp_types::*;
@@ -936,6 +940,34 @@ impl LanguageServer for AcornLanguageServer {
     }
 }
 
+// Tells when its input has ended.
+struct EofNotifier<R> {
+    input: R,
+    sender: Option<oneshot::Sender<()>>,
+}
+
+impl<R: AsyncRead + Unpin> AsyncRead for EofNotifier<R> {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<std::io::Result<()>> {
+        let filled = buf.filled().len();
+        let result = Pin::new(&mut self.input).poll_read(cx, buf);
+        let ended = match &result {
+            Poll::Ready(Ok(())) => buf.filled().len() == filled && buf.remaining() > 0,
+            Poll::Ready(Err(_)) => true,
+            Poll::Pending => false,
+        };
+        if ended {
+            if let Some(sender) = self.sender.take() {
+                let _ = sender.send(());
+            }
+        }
+        result
+    }
+}
+
 pub async fn run_server(args: &ServerArgs) {
     // By default the stack traces contain a bunch of incomprehensible framework stuff.
     // This tries to clean it up.
@@ -951,7 +983,11 @@ pub async fn run_server(args: &ServerArgs) {
         }))
         .install(color_backtrace::default_output_stream());
 
-    let stdin = tokio::io::stdin();
+    let (eof_sender, eof_receiver) = oneshot::channel();
+    let stdin = EofNotifier {
+        input: tokio::io::stdin(),
+        sender: Some(eof_sender),
+    };
     let stdout = tokio::io::stdout();
 
     let (service, socket) = LspService::build(move |client| {
@@ -969,5 +1005,13 @@ pub async fn run_server(args: &ServerArgs) {
     )
     .finish();
 
-    Server::new(stdin, stdout, socket).serve(service).await;
+    // Once the client has closed our input, nobody needs to take what is still to be sent to it.
+    // Work that waits for that holds up the end of the service, so don't wait for it for ever.
+    tokio::select! {
+        _ = Server::new(stdin, stdout, socket).serve(service) => {}
+        _ = async {
+            let _ = eof_receiver.await;
+            tokio::time::sleep(Duration::from_secs(1)).await;
+        } => {}
+    }
 }
-- 
2.43.0


From fda6d88cd09ff281cb7af0bbdba685cd9d4536e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 37/43] fix: editor windows that download the server at the
 same time leave each other's files alone

---
 vscode/extension/src/extension.ts | 84 ++++++++++++-------------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/vscode/extension/src/extension.ts b/vscode/extension/src/extension.ts
index 8ad7326..c5afc4c 100644
--- a/vscode/extension/src/extension.ts
+++ b/vscode/extension/src/extension.ts
@@ -1,6 +1,8 @@
+import { randomUUID } from "crypto";
 import * as fs from "fs";
 import * as os from "os";
 import * as path from "path";
+import { pipeline } from "stream/promises";
 
 import axios from "axios";
 import * as vscode from "vscode";
@@ -35,59 +37,32 @@ function log(message: string) {
  * @param filePath - The full path where the file will be saved.
  */
 async function downloadFile(url: string, filePath: string): Promise<void> {
-  const tempPath = filePath + ".tmp";
+  // Other windows may be downloading the same file, so the temporary file has a name of its own.
+  const tempPath = `${filePath}.${randomUUID()}.tmp`;
 
-  // Clean up any existing temp file from a previous failed download
   try {
-    if (fs.existsSync(tempPath)) {
-      fs.unlinkSync(tempPath);
-    }
-  } catch (err) {
-    console.warn("failed to clean up old temp file:", err);
-  }
-
-  let response = await axios.get(url, { responseType: "stream" });
-
-  let fileStream = fs.createWriteStream(tempPath);
-
-  return new Promise((resolve, reject) => {
-    const cleanup = (err?: Error) => {
-      // Clean up temp file on error
-      fs.unlink(tempPath, (unlinkErr) => {
-        if (unlinkErr && unlinkErr.code !== "ENOENT") {
-          console.error("failed to clean up temp file:", unlinkErr);
-        }
-        if (err) {
-          reject(err);
-        }
-      });
-    };
-
-    response.data.pipe(fileStream);
-
-    // Handle successful completion
-    fileStream.on("finish", () => {
-      // Atomically rename temp file to final destination
-      fs.rename(tempPath, filePath, (err) => {
-        if (err) {
-          cleanup(err);
-        } else {
-          resolve();
-        }
-      });
-    });
+    let response = await axios.get(url, { responseType: "stream" });
 
-    // Handle file stream errors
-    fileStream.on("error", (err) => {
-      cleanup(err);
-    });
+    // Ends when the file is closed.
+    await pipeline(response.data, fs.createWriteStream(tempPath));
 
-    // Handle network/stream errors from axios
-    response.data.on("error", (err) => {
-      fileStream.destroy(); // Stop writing
-      cleanup(err);
-    });
-  });
+    // Atomically rename temp file to final destination
+    await fs.promises.rename(tempPath, filePath);
+  } catch (err) {
+    // Clean up temp file on error
+    try {
+      await fs.promises.unlink(tempPath);
+    } catch (unlinkErr) {
+      if (unlinkErr.code !== "ENOENT") {
+        console.error("failed to clean up temp file:", unlinkErr);
+      }
+    }
+    if (fs.existsSync(filePath)) {
+      // Another window has downloaded it in the meantime
+      return;
+    }
+    throw err;
+  }
 }
 
 function makeCheck(color: string): vscode.Uri {
@@ -325,12 +300,17 @@ async function getServerPath(
   // Remove old binaries
   for (let oldBin of oldBins) {
     if (oldBin === binName) {
-      // This shouldn't happen
-      throw new Error("unexpected redownload");
+      // Another window downloaded it just now
+      continue;
     }
     let oldBinPath = path.join(binDir, oldBin);
     log(`removing old binary ${oldBinPath}`);
-    fs.unlinkSync(oldBinPath);
+    try {
+      fs.unlinkSync(oldBinPath);
+    } catch (e) {
+      // Another window has removed it, or is still running it
+      log(`could not remove ${oldBinPath}: ${e.message}`);
+    }
   }
 
   return serverPath;
-- 
2.43.0


From d4dbd01b2988bf3b31a3ce2fc9ad2f7b2b763fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:45 +0000
Subject: [PATCH 38/43] fix: the downloaded server is executable and on the
 disk before it gets its name

---
 vscode/extension/src/extension.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vscode/extension/src/extension.ts b/vscode/extension/src/extension.ts
index c5afc4c..df4adb0 100644
--- a/vscode/extension/src/extension.ts
+++ b/vscode/extension/src/extension.ts
@@ -46,6 +46,17 @@ async function downloadFile(url: string, filePath: string): Promise<void> {
     // Ends when the file is closed.
     await pipeline(response.data, fs.createWriteStream(tempPath));
 
+    // What gets the final name stays there for good, so it has to be executable and on the disk.
+    if (os.platform() !== "win32") {
+      await fs.promises.chmod(tempPath, 0o755);
+    }
+    let file = await fs.promises.open(tempPath, "r+");
+    try {
+      await file.sync();
+    } finally {
+      await file.close();
+    }
+
     // Atomically rename temp file to final destination
     await fs.promises.rename(tempPath, filePath);
   } catch (err) {
@@ -291,10 +302,6 @@ async function getServerPath(
       }
     }
   );
-  // Make the binary executable
-  if (os.platform() !== "win32") {
-    await fs.promises.chmod(serverPath, 0o755);
-  }
   log("download complete");
 
   // Remove old binaries
-- 
2.43.0


From 0cedd6e13aa02a5cbca682bb00c7b54e758f4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:00 +0000
Subject: [PATCH 39/43] fix: the editor tracks builds that start while tracking
 of another one ends

---
 vscode/extension/src/extension.ts | 33 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/vscode/extension/src/extension.ts b/vscode/extension/src/extension.ts
index df4adb0..699843d 100644
--- a/vscode/extension/src/extension.ts
+++ b/vscode/extension/src/extension.ts
@@ -103,6 +103,9 @@ class ProgressTracker {
   // Also acts as a flag for whether we are tracking.
   startTime: number | null;
 
+  // Whether another build may have been started while we were tracking.
+  trackAgain: boolean;
+
   // The id for the build that we are currently displaying in the UI.
   buildId: number | null;
 
@@ -111,6 +114,7 @@ class ProgressTracker {
 
   constructor() {
     this.startTime = null;
+    this.trackAgain = false;
     this.buildId = null;
     this.docs = {};
 
@@ -176,19 +180,24 @@ class ProgressTracker {
 
   // Call this function when we think there might be a build soon.
   // It polls the language server for build progress and updates the UI.
-  // Calling it multiple times is fine; subsequent simultaneous calls just return.
+  // Calling it multiple times is fine; subsequent simultaneous calls just return, after making
+  // sure that their build is not missed because the active call was about to stop.
   // Note that a single call to 'track' can persist across many builds.
   // It returns when there is no longer an active build.
   async track() {
     if (this.startTime !== null) {
+      this.trackAgain = true;
       return;
     }
-    this.startTime = Date.now();
-    try {
-      await this.trackHelper();
-    } catch (e) {
-      console.error("error in progress tracker:", e);
-    }
+    do {
+      this.trackAgain = false;
+      this.startTime = Date.now();
+      try {
+        await this.trackHelper();
+      } catch (e) {
+        console.error("error in progress tracker:", e);
+      }
+    } while (this.trackAgain);
     this.startTime = null;
   }
 
@@ -202,17 +211,17 @@ class ProgressTracker {
     let response: ProgressResponse = await this.getProgress(initialBuildId);
 
     while (response.buildId === initialBuildId) {
-      // Maybe the next build just hasn't started yet.
-      // Let's wait a bit and try again.
-      await new Promise((resolve) => setTimeout(resolve, 100));
-      response = await this.getProgress(initialBuildId);
-
       let elapsed = Date.now() - this.startTime;
       if (elapsed > 2000) {
         // It's been a while. Let's give up.
         console.log("giving up on progress bar");
         return;
       }
+
+      // Maybe the next build just hasn't started yet.
+      // Let's wait a bit and try again.
+      await new Promise((resolve) => setTimeout(resolve, 100));
+      response = await this.getProgress(initialBuildId);
     }
 
     let previousPercent = 0;
-- 
2.43.0


From b3073bd2908bd4b9cf995864be66d527df49c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:57 +0000
Subject: [PATCH 40/43] fix: waiting for a build ends in time also when the
 clock is set back

---
 vscode/extension/src/extension.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vscode/extension/src/extension.ts b/vscode/extension/src/extension.ts
index 699843d..96bd0c7 100644
--- a/vscode/extension/src/extension.ts
+++ b/vscode/extension/src/extension.ts
@@ -99,7 +99,7 @@ const verificationDecoration = vscode.window.createTextEditorDecorationType({
 
 // Should be used as a singleton.
 class ProgressTracker {
-  // The time we started expecting a build.
+  // The time we started expecting a build, by a clock that nobody sets.
   // Also acts as a flag for whether we are tracking.
   startTime: number | null;
 
@@ -191,7 +191,7 @@ class ProgressTracker {
     }
     do {
       this.trackAgain = false;
-      this.startTime = Date.now();
+      this.startTime = performance.now();
       try {
         await this.trackHelper();
       } catch (e) {
@@ -211,7 +211,7 @@ class ProgressTracker {
     let response: ProgressResponse = await this.getProgress(initialBuildId);
 
     while (response.buildId === initialBuildId) {
-      let elapsed = Date.now() - this.startTime;
+      let elapsed = performance.now() - this.startTime;
       if (elapsed > 2000) {
         // It's been a while. Let's give up.
         console.log("giving up on progress bar");
-- 
2.43.0


From 26080fb847ec718600839ef2c4ad5faea96498cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:36 +0000
Subject: [PATCH 41/43] fix: a selection request between a save and the reload
 is told to wait, not that it failed

---
 src/project.rs | 5 +++++
 src/server.rs  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index b6784ec..e04eb03 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -2081,6 +2081,11 @@ impl Project {
         Ok(())
     }
 
+    // Whether there are saves that the modules have not been reloaded for yet.
+    pub fn has_unloaded_saves(&self) -> bool {
+        !self.unloaded_saves.is_empty()
+    }
+
     pub fn has_unbuilt_targets(&self) -> bool {
         !self.unloaded_saves.is_empty() || !self.unbuilt_targets.is_empty()
     }
diff --git a/src/server.rs b/src/server.rs
index d3d9918..7980059 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -644,6 +644,12 @@ impl AcornLanguageServer {
             }
         }
 
+        if project.has_unloaded_saves() {
+            // The background build task has yet to load the modules again.
+            response.loading = true;
+            return Ok(response);
+        }
+
         match project.handle_selection(&path, params.selected_line) {
             Ok(SelectionInfo::Goals {
                 goal_infos,
-- 
2.43.0


From 20c3cf6c905bec43375ec21302a5f21607213f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:36 +0000
Subject: [PATCH 42/43] fix: saving a file no longer makes the server forget
 the other open files

---
 src/project.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index e04eb03..65d513a 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -2047,7 +2047,15 @@ impl Project {
         if let Some(error) = bad_path.filter(|_| targets.is_empty()) {
             return Err(error);
         }
-        let load_targets = self.target_dependency_closure(&targets, &mut dependency_cache);
+        // Saving dropped the modules of the other open files too. They need no build, but the
+        // IDE goes on asking about them.
+        let mut wanted = targets.clone();
+        for path in self.open_files.keys() {
+            if let Ok(descriptor) = self.descriptor_from_path(path) {
+                wanted.insert(self.canonicalize_name_descriptor(&descriptor));
+            }
+        }
+        let load_targets = self.target_dependency_closure(&wanted, &mut dependency_cache);
         if self.load_in_parallel(&load_targets, jobs).is_err() {
             // The parallel loader gives up as a whole, for example when there is a circular
             // import. Loading one module at a time finds the modules to report it for.
-- 
2.43.0


From b76f0be195499d80ded1e50ba5c8e8a8613609d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:36 +0000
Subject: [PATCH 43/43] fix: a selection in a changed document that was never
 saved gets no goals of the old text

---
 src/server.rs               | 10 +++++++++-
 src/server/live_document.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 7980059..7ed977c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -607,6 +607,10 @@ impl AcornLanguageServer {
             response.failure = self.initialization_error.clone();
             return Ok(response);
         };
+        let opened_version = match self.document(&params.uri) {
+            Some(doc) => Some(doc.read().await.opened_version()),
+            None => None,
+        };
         let project = project_manager.read().await;
         response.building = project.building;
         let path = match to_path(&params.uri) {
@@ -640,7 +644,11 @@ impl AcornLanguageServer {
             None => {
                 // We don't have any version of this file.
                 // Probably this indicates a file that is open in VS Code but unchanged.
-                // Just fall through.
+                // Just fall through, unless we know that it did change.
+                if opened_version.is_some_and(|opened| params.version > opened) {
+                    response.loading = true;
+                    return Ok(response);
+                }
             }
         }
 
diff --git a/src/server/live_document.rs b/src/server/live_document.rs
index e1389a5..c5f0009 100644
--- a/src/server/live_document.rs
+++ b/src/server/live_document.rs
@@ -23,6 +23,9 @@ pub struct LiveDocument {
 
     // The version number the document had the last time it was saved.
     saved_version: i32,
+
+    // The version number the document had when it was opened.
+    opened_version: i32,
 }
 
 // Each line in a LiveDocument has a LiveLine.
@@ -65,6 +68,7 @@ impl LiveDocument {
             lines: numbered_lines(text),
             live_version: version,
             saved_version: version,
+            opened_version: version,
         }
     }
 
@@ -144,6 +148,10 @@ impl LiveDocument {
         self.saved_version
     }
 
+    pub fn opened_version(&self) -> i32 {
+        self.opened_version
+    }
+
     // Returns a display string.
     // It has each line with a "." in front if it's unchanged, a "*" if it's changed.
     pub fn display(&self) -> String {
-- 
2.43.0

