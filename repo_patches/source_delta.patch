From 80b7b37642ab4c48477a81c28723239a3be0e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 01/34] fix: replace .exe and .dll extensions in breakpad
 lookup paths

The chained unwrap_or restored the full file name, so only .pdb was ever stripped.
---
 crates/symbolicator-sources/src/paths.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 36c86d8..9b6addd 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -107,10 +107,8 @@ fn get_breakpad_path(identifier: &ObjectId) -> Option<String> {
     let debug_id = identifier.debug_id.as_ref()?;
     let new_debug_file = debug_file
         .strip_suffix(".exe")
-        .unwrap_or(debug_file)
-        .strip_suffix(".dll")
-        .unwrap_or(debug_file)
-        .strip_suffix(".pdb")
+        .or_else(|| debug_file.strip_suffix(".dll"))
+        .or_else(|| debug_file.strip_suffix(".pdb"))
         .unwrap_or(debug_file);
 
     Some(format!(
-- 
2.43.0


From 4cfd2d6c65415b98bdd350faff3ac633b435ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 02/34] fix: reject empty and dot file names in object lookups

A code or debug file such as ".." or "/" was used verbatim as a path segment, so the
lookup location could leave the source root.
---
 crates/symbolicator-sources/src/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/symbolicator-sources/src/types.rs b/crates/symbolicator-sources/src/types.rs
index 80b556c..ad8d8e0 100644
--- a/crates/symbolicator-sources/src/types.rs
+++ b/crates/symbolicator-sources/src/types.rs
@@ -152,10 +152,14 @@ impl ObjectId {
 /// Returns the "valid" basename of the file.
 ///
 /// The basename is valid if:
+/// - it is not empty and not a reference to the current or parent directory,
 /// - it is not longer than 255 bytes and
 /// - does not contain a control character
 fn valid_file_name(file_name: &str) -> Option<&str> {
     let basename = split_path(file_name).1;
+    if matches!(basename, "" | "." | "..") {
+        return None;
+    }
     if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
         return Some(basename);
     }
-- 
2.43.0


From afde421e1548ac3f5cd87f0ac19d215b3f3002b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 03/34] fix: do not look up debuginfod paths for empty code ids

A code id without any hex digits is empty; the resulting location was an absolute path,
which leaves the root of a filesystem source.
---
 crates/symbolicator-sources/src/paths.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 9b6addd..af13506 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -298,17 +298,25 @@ fn get_symstore_index2_path(filetype: FileType, identifier: &ObjectId) -> Option
     Some(rv)
 }
 
+/// Returns the GNU build id used by debuginfod.
+///
+/// An empty code id would result in an absolute path, so it is treated as missing.
+fn get_debuginfod_id(identifier: &ObjectId) -> Option<&str> {
+    let code_id = identifier.code_id.as_ref()?.as_str();
+    (!code_id.is_empty()).then_some(code_id)
+}
+
 /// Returns the relative location of the requested DIF on the debuginfod symbol server.
 ///
 /// Some file types are not supported by this symbol server and will return no result.
 fn get_debuginfod_path(filetype: FileType, identifier: &ObjectId) -> Option<String> {
     match filetype {
         FileType::ElfCode => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
+            let code_id = get_debuginfod_id(identifier)?;
             Some(format!("{code_id}/executable"))
         }
         FileType::ElfDebug => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
+            let code_id = get_debuginfod_id(identifier)?;
             Some(format!("{code_id}/debuginfo"))
         }
 
-- 
2.43.0


From 25f3f4557e40c82f4024c7d1cfcf6279036cac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 04/34] fix: compare symstore path components
 case-insensitively for non-ASCII names

---
 crates/symbolicator-sources/src/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index af13506..2bbe28d 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -489,7 +489,7 @@ pub fn parse_symstore_path(path: &str) -> Option<(&'static [FileType], ObjectId)
     let trailing_fn = split.next()?;
 
     let leading_fn_lower = leading_fn.to_lowercase();
-    if !leading_fn_lower.eq_ignore_ascii_case(trailing_fn) {
+    if leading_fn_lower != trailing_fn.to_lowercase() {
         return None;
     }
 
-- 
2.43.0


From 7c18f5fce06043098495708e0e635c796c0b7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 05/34] fix: load symstore index entries exactly as they were
 written

---
 crates/symbolicator-sources/src/index.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-sources/src/index.rs b/crates/symbolicator-sources/src/index.rs
index 264cf66..59285f8 100644
--- a/crates/symbolicator-sources/src/index.rs
+++ b/crates/symbolicator-sources/src/index.rs
@@ -1,5 +1,5 @@
 use std::collections::BTreeSet;
-use std::io::{self, BufRead, BufReader, Write};
+use std::io::{self, BufRead, Write};
 use std::sync::Arc;
 
 /// An index for a debug file source.
@@ -65,9 +65,12 @@ impl SymstoreIndex {
     /// Loads a `SymstoreIndex` from bytes.
     pub fn load(data: &[u8]) -> io::Result<Self> {
         let mut out = Self::default();
-        let reader = BufReader::new(data);
-        for line in reader.lines() {
-            out.files.insert(line?.into());
+        let data = std::str::from_utf8(data)
+            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
+        // This is the inverse of `write`, so only the line feeds are removed: a carriage return is
+        // part of the entry.
+        for line in data.split_terminator('\n') {
+            out.files.insert(line.into());
         }
         Ok(out)
     }
-- 
2.43.0


From b9c279f67a261d5f703309a751717d485a0ae1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 06/34] fix: reject bundle ids that are empty or relative
 directory references

---
 crates/symsorter/src/app.rs   | 4 +++-
 crates/symsorter/src/utils.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index beeadb1..792ac45 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -351,7 +351,9 @@ fn execute(cli: Cli) -> Result<()> {
 
     if cli.multiple_bundles {
         for path in cli.input.into_iter() {
-            let bundle_id = make_bundle_id(&path.file_name().unwrap().to_string_lossy());
+            let file_name = path.file_name().context("Input path has no file name")?;
+            let bundle_id = make_bundle_id(&file_name.to_string_lossy());
+            anyhow::ensure!(is_bundle_id(&bundle_id), "Invalid bundle id");
             log!("[bundle: {}]", style(&bundle_id).dim());
             sort_config.bundle_id = Some(bundle_id);
             let (debug_files_sorted, source_bundles_created) =
diff --git a/crates/symsorter/src/utils.rs b/crates/symsorter/src/utils.rs
index 9c11096..39c04b8 100644
--- a/crates/symsorter/src/utils.rs
+++ b/crates/symsorter/src/utils.rs
@@ -34,7 +34,7 @@ pub fn make_bundle_id(input: &str) -> String {
 
 /// Checks if something is a safe bundle id
 pub fn is_bundle_id(input: &str) -> bool {
-    make_bundle_id(input) == input
+    !matches!(input, "" | "." | "..") && make_bundle_id(input) == input
 }
 
 /// Gets the unified ID from an object.
-- 
2.43.0


From b424ba36cba4f4120783f9199ab49ecf3ca65e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 07/34] fix: report identifiers that are too short instead of
 panicking

---
 crates/symsorter/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/symsorter/src/utils.rs b/crates/symsorter/src/utils.rs
index 39c04b8..ffc9c39 100644
--- a/crates/symsorter/src/utils.rs
+++ b/crates/symsorter/src/utils.rs
@@ -61,7 +61,10 @@ pub fn get_target_filename(obj: &Object) -> Result<PathBuf> {
         ObjectKind::Library | ObjectKind::Executable => "executable",
         _ => bail!("unsupported file"),
     };
-    Ok(format!("{}/{}/{}", &id[..2], &id[2..], suffix).into())
+    let (Some(prefix), Some(rest)) = (id.get(..2), id.get(2..)) else {
+        bail!("identifier `{id}` is too short");
+    };
+    Ok(format!("{prefix}/{rest}/{suffix}").into())
 }
 
 // Filters very large files, embedded source files, and Precompiled headers from Source bundles.
-- 
2.43.0


From 2dbbf44afb106a8fee586334e2ff586c304de462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 08/34] fix: count the source bundles that were actually stored

---
 crates/symsorter/src/app.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index 792ac45..a34071f 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -291,12 +291,13 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
                     path.file_name().unwrap().to_string_lossy().to_string(),
                 )?;
 
+                let source_bundles_stored = processed_objects.len();
                 debug_ids
                     .lock()
                     .unwrap()
                     .extend(processed_objects.into_iter().map(|x| x.0));
 
-                Ok(1)
+                Ok(source_bundles_stored)
             })
             .reduce(|| Ok(0), |sum, res| Ok(sum? + res?))?
     }
@@ -359,7 +360,7 @@ fn execute(cli: Cli) -> Result<()> {
             let (debug_files_sorted, source_bundles_created) =
                 sort_files(&sort_config, vec![path])?;
             debug_files += debug_files_sorted;
-            source_bundles *= source_bundles_created;
+            source_bundles += source_bundles_created;
         }
     } else {
         if let Some(bundle_id) = cli.bundle_id {
@@ -368,7 +369,7 @@ fn execute(cli: Cli) -> Result<()> {
         }
         let (debug_files_sorted, source_bundles_created) = sort_files(&sort_config, cli.input)?;
         debug_files += debug_files_sorted;
-        source_bundles *= source_bundles_created;
+        source_bundles += source_bundles_created;
     }
 
     log!();
-- 
2.43.0


From b7cc7d5e4580bd6c08a2fc1436a6f5e8e9a7a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 09/34] fix: keep sorting the remaining objects of a file after
 a duplicate

---
 crates/symsorter/src/app.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index a34071f..840c2a4 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -140,17 +140,6 @@ fn process_file(
             fs::write(refs_path.join(bundle_id), b"")?;
         }
 
-        let meta = DebugIdMeta {
-            name: Some(filename.clone()),
-            arch: Some(obj.arch()),
-            file_format: Some(obj.file_format()),
-        };
-
-        fs::write(
-            new_filename.with_extension("meta"),
-            serde_json::to_vec(&meta)?,
-        )?;
-
         log!(
             "{} ({}, {}) -> {}",
             style(&filename).dim(),
@@ -169,11 +158,22 @@ fn process_file(
                     new_filename.display(),
                     get_unified_id(&obj)?,
                 );
-                return Ok(vec![]);
+                continue;
             }
             Err(e) => return Err(e.into()),
         };
 
+        let meta = DebugIdMeta {
+            name: Some(filename.clone()),
+            arch: Some(obj.arch()),
+            file_format: Some(obj.file_format()),
+        };
+
+        fs::write(
+            new_filename.with_extension("meta"),
+            serde_json::to_vec(&meta)?,
+        )?;
+
         if compression_level > 0 {
             copy_encode(obj.data(), &mut out, compression_level)?;
         } else {
-- 
2.43.0


From 9fadfbf5109f763c8fb30ee6293b2803611138e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 10/34] fix: abort the symstore index when a segment cannot be
 downloaded

---
 crates/symbolicator-service/src/download/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 38afbac..56a2ad4 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -179,7 +179,8 @@ async fn download_index_segment(
             source_id = %source.id(),
             segment,
             "Failed to download Symstore index segment",
-        )
+        );
+        return Err(e);
     }
 
     let buf = BufReader::new(temp_file);
-- 
2.43.0


From 6482831768512478c7ac0a636b6f1dc88b5f1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:00 +0000
Subject: [PATCH 11/34] fix: write the requested output file of wasm-split even
 if nothing changed

---
 crates/wasm-split/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 1402b06..704c973 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -73,7 +73,7 @@ fn main() -> anyhow::Result<()> {
     let cli = Cli::parse();
 
     let mut module = Module::decode_from(BufReader::new(File::open(&cli.input)?))?;
-    let mut should_write_main_module = false;
+    let mut should_write_main_module = cli.out.is_some();
 
     // try to see if we already have a build ID we can use.  If we already have
     // one we do not need to write a new one.
-- 
2.43.0


From 4080e107e176ec437620d371214b73179df17e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 12/34] fix: do not share S3 clients between static and
 container credentials

---
 crates/symbolicator-sources/src/sources/s3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/sources/s3.rs b/crates/symbolicator-sources/src/sources/s3.rs
index 63f89dd..bc761b2 100644
--- a/crates/symbolicator-sources/src/sources/s3.rs
+++ b/crates/symbolicator-sources/src/sources/s3.rs
@@ -132,7 +132,7 @@ where
 ///
 /// For details on the AWS side, see:
 /// <https://docs.aws.amazon.com/AmazonECS/latest/developerguide/task-iam-roles.html>.
-#[derive(Clone, Copy, Debug, Deserialize, Serialize)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 #[serde(rename_all = "lowercase")]
 #[derive(Default)]
 pub enum AwsCredentialsProvider {
@@ -190,6 +190,7 @@ impl PartialEq for S3SourceKey {
         self.access_key == other.access_key
             && self.secret_key == other.secret_key
             && self.region == other.region
+            && self.aws_credentials_provider == other.aws_credentials_provider
     }
 }
 
@@ -200,6 +201,7 @@ impl std::hash::Hash for S3SourceKey {
         self.access_key.hash(state);
         self.secret_key.hash(state);
         self.region.hash(state);
+        self.aws_credentials_provider.hash(state);
     }
 }
 
-- 
2.43.0


From 6449b93347c09751e73aa19d38b1a150f082d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 13/34] fix: percent-encode all of the path in bucket URIs

---
 crates/symbolicator-sources/src/remotefile.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-sources/src/remotefile.rs b/crates/symbolicator-sources/src/remotefile.rs
index 4a280de..2ae8e11 100644
--- a/crates/symbolicator-sources/src/remotefile.rs
+++ b/crates/symbolicator-sources/src/remotefile.rs
@@ -342,9 +342,12 @@ impl RemoteFileUri {
     /// ```
     pub fn from_parts(scheme: &str, host: &str, path: &str) -> Self {
         Url::parse(&format!("{scheme}://{host}/"))
-            .and_then(|base| base.join(path))
-            .map(|url| RemoteFileUri::new(url.as_str()))
-            .unwrap_or_else(|_| {
+            .ok()
+            .and_then(|mut url| {
+                url.path_segments_mut().ok()?.extend(path.split('/'));
+                Some(RemoteFileUri::new(url.as_str()))
+            })
+            .unwrap_or_else(|| {
                 // All these Result-returning operations *should* be infallible and this
                 // branch should never be used.  Nevertheless, for panic-safety we default
                 // to something infallible that's also pretty correct.
-- 
2.43.0


From 7e536c69afc34f07b2057936a4a6ef15aaac2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 14/34] fix: keep values with line breaks from imitating other
 cache keys

---
 .../src/caching/cache_key.rs                  | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/cache_key.rs b/crates/symbolicator-service/src/caching/cache_key.rs
index aef3d12..b40b3cd 100644
--- a/crates/symbolicator-service/src/caching/cache_key.rs
+++ b/crates/symbolicator-service/src/caching/cache_key.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::fmt::{self, Write};
 use std::sync::Arc;
 
@@ -97,7 +98,14 @@ impl CacheKey {
     /// Create a [`CacheKeyBuilder`] that can be used to build a cache key consisting of all its
     /// contributing sources.
     pub fn scoped_builder(scope: &Scope) -> CacheKeyBuilder {
-        let metadata = format!("scope: {scope}\n\n");
+        let scope_value = match scope {
+            // Must not be mistaken for `Scope::Global`.
+            Scope::Scoped(name) if **name == *Scope::Global.as_ref() => {
+                Cow::Owned(format!("{name:?}"))
+            }
+            _ => line_value(scope.as_ref()),
+        };
+        let metadata = format!("scope: {scope_value}\n\n");
         CacheKeyBuilder {
             scope: scope.clone(),
             data: metadata,
@@ -116,6 +124,18 @@ impl CacheKey {
     }
 }
 
+/// Formats a value for a single line of the data of a [`CacheKey`].
+///
+/// A value that would span multiple lines is quoted, as it could otherwise spell out the
+/// lines of a different key.
+fn line_value(value: &str) -> Cow<'_, str> {
+    if value.contains('\n') || value.starts_with('"') {
+        Cow::Owned(format!("{value:?}"))
+    } else {
+        Cow::Borrowed(value)
+    }
+}
+
 /// A builder for [`CacheKey`]s.
 ///
 /// This builder implements the [`Write`] trait, and the intention of it is to
@@ -132,8 +152,8 @@ impl CacheKeyBuilder {
     pub fn write_file_meta(&mut self, file: &RemoteFile) -> Result<(), fmt::Error> {
         self.data.write_fmt(format_args!(
             "source: {}\nlocation: {}\n",
-            file.source_id(),
-            file.uri()
+            line_value(file.source_id().as_str()),
+            line_value(&file.uri().to_string())
         ))
     }
 
-- 
2.43.0


From 4bc6d3d9cd62dc16ec9877dda81a9c4b37cd5d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 15/34] fix: expire in-memory cache entries as configured

A negative entry of a public source was held in memory for the retry
period of private ones, and an entry that never expires panicked, as its
expiration cannot be represented as an Instant.
---
 crates/symbolicator-service/src/caching/fs.rs | 25 ++++++++++++++-----
 .../src/caching/memory.rs                     |  8 +++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index b1776d6..cc85d4a 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -22,6 +22,9 @@ use super::{CacheContents, CacheEntry, CacheError, CacheName, Metadata};
 /// This is being debounced to once every hour to not have to touch them on every single use.
 const TOUCH_EVERY: Duration = Duration::from_secs(3600);
 
+/// The time after which an item is checked again that has no representable expiration.
+const FAR_FUTURE: Duration = Duration::from_secs(3600 * 24 * 365 * 30);
+
 /// Extension for [`Metadata`] files.
 pub(crate) const METADATA_EXTENSION: &str = "metadata";
 
@@ -350,19 +353,27 @@ pub enum ExpirationTime {
 }
 
 impl ExpirationTime {
-    /// Gives the [`ExpirationTime`] for a freshly created cache with the given [`CacheContents`].
-    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheContents<T>) -> Self {
+    /// Gives the [`ExpirationTime`] for a freshly created cache with the given [`CacheEntry`].
+    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheEntry<T>) -> Self {
         let config = &cache.cache_config;
-        let strategy = expiration_strategy(entry);
+        let strategy = expiration_strategy(entry.contents());
         match strategy {
             ExpirationStrategy::None => {
                 // we want to touch good caches once every hour
                 Self::TouchIn(Duration::from_secs(3600))
             }
             ExpirationStrategy::Negative => {
-                let retry_misses_after = config.retry_misses_after().unwrap_or(Duration::MAX);
+                let is_public = entry
+                    .metadata
+                    .as_ref()
+                    .is_some_and(|md| md.scope == Scope::Global);
+                let retry_misses_after = if is_public {
+                    config.retry_misses_after_public()
+                } else {
+                    config.retry_misses_after()
+                };
 
-                Self::RefreshIn(retry_misses_after)
+                Self::RefreshIn(retry_misses_after.unwrap_or(Duration::MAX))
             }
             ExpirationStrategy::Malformed => {
                 let retry_malformed_after = config.retry_malformed_after().unwrap_or(Duration::MAX);
@@ -383,7 +394,9 @@ impl ExpirationTime {
             ExpirationTime::RefreshIn(d) => d,
             ExpirationTime::TouchIn(d) => d,
         };
-        Instant::now() + *duration
+        // An item that never expires (`Duration::MAX`) is beyond what an `Instant` can represent.
+        let now = Instant::now();
+        now.checked_add(*duration).unwrap_or(now + FAR_FUTURE)
     }
 }
 
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 0fda977..298e87e 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -440,10 +440,10 @@ impl<T: CacheItemRequest> Cacher<T> {
                     Err(CacheError::NotFound) => continue,
                     Err(err) => {
                         let contents = Err(err);
-                        let deadline =
-                            ExpirationTime::for_fresh_status(&self.config, &contents).as_instant();
                         let metadata = Some(Metadata::from_key(cache_key));
                         let data = CacheEntry { metadata, contents };
+                        let deadline =
+                            ExpirationTime::for_fresh_status(&self.config, &data).as_instant();
                         return Some(InMemoryItem { deadline, data });
                     }
                     Ok((item, needs_reupload)) => {
@@ -533,7 +533,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             .await;
 
         // we just created a fresh cache, so use the initial expiration times
-        let expiration = ExpirationTime::for_fresh_status(&self.config, data.contents());
+        let expiration = ExpirationTime::for_fresh_status(&self.config, &data);
 
         InMemoryItem {
             deadline: expiration.as_instant(),
@@ -592,7 +592,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             let data = this.compute(request, &cache_key, true).await;
 
             // we just created a fresh cache, so use the initial expiration times
-            let expiration = ExpirationTime::for_fresh_status(&this.config, data.contents());
+            let expiration = ExpirationTime::for_fresh_status(&this.config, &data);
             let value = InMemoryItem {
                 deadline: expiration.as_instant(),
                 data,
-- 
2.43.0


From 025b7a95367ab94e30bc18294c1afad8a06b1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 16/34] fix: a partial response without a content range is not
 the full file

---
 crates/symbolicator-service/src/download/partial.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 798006d..988c5f3 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -142,11 +142,16 @@ impl BytesContentRange {
             return None;
         }
 
-        response
+        let content_range = response
             .headers()
             .get(reqwest::header::CONTENT_RANGE)
-            .and_then(|hv| hv.to_str().ok())
-            .map(|s| s.parse())
+            .and_then(|hv| hv.to_str().ok());
+
+        // Without a (readable) range, the body must not be mistaken for the full contents.
+        Some(match content_range {
+            Some(s) => s.parse(),
+            None => Err(InvalidBytesRange::Malformed),
+        })
     }
 }
 
-- 
2.43.0


From 91442c17037b6cb5fab7d68bfecfa58ddfc50ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 17/34] fix: reject content ranges which end outside of the
 resource

---
 crates/symbolicator-service/src/download/partial.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 988c5f3..4014acf 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -213,6 +213,12 @@ impl FromStr for BytesContentRange {
             size => size.parse().map_err(|_| InvalidBytesRange::Malformed),
         }?;
 
+        // The range must be contained in the resource, except that some servers
+        // describe an empty resource with `0-0/0`.
+        if end >= total_size && (end, total_size) != (0, 0) {
+            return Err(InvalidBytesRange::Malformed);
+        }
+
         Ok(Self {
             start,
             end,
-- 
2.43.0


From b4ea7feec23cfd5af0d35b0707ddc9feffed2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 18/34] fix: write entire chunks of a download to its
 destination

---
 crates/symbolicator-service/src/download/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 4c9bee9..14577ca 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -15,7 +15,7 @@ use std::{io::Write, sync::Arc};
 pub trait WriteStream: Send {
     /// Attempts to write an entire buffer into this writer.
     ///
-    /// See also: [`AsyncWriteExt::write_buf`].
+    /// See also: [`AsyncWriteExt::write_all_buf`].
     fn write_buf(&mut self, buf: Bytes) -> impl Future<Output = io::Result<()>> + Send;
 }
 
@@ -24,7 +24,7 @@ where
     T: AsyncWrite + Unpin + Send,
 {
     async fn write_buf(&mut self, mut buf: Bytes) -> io::Result<()> {
-        AsyncWriteExt::write_buf(self, &mut buf).await.map(|_| ())
+        AsyncWriteExt::write_all_buf(self, &mut buf).await
     }
 }
 
-- 
2.43.0


From 9aa49f01fafb30e128f14d76448dae56b038952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 19/34] fix: do not assemble a download from a first range that
 starts past 0

---
 crates/symbolicator-service/src/download/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index f928bf5..916eaa0 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -662,6 +662,19 @@ async fn do_download_reqwest_range(
             let destination = std::pin::pin!(destination.into_write());
             do_download_reqwest(request, destination).await
         }
+        // The server replied with a range which does not start at the beginning of the resource,
+        // the missing head would never be requested.
+        Some(Ok(content_range)) if content_range.start != 0 => {
+            tracing::error!(
+                source_name = request.source_name,
+                source = source,
+                "server returned an initial range which does not start at 0"
+            );
+            drop(response);
+
+            let destination = std::pin::pin!(destination.into_write());
+            do_download_reqwest(request, destination).await
+        }
         // Server indicates it supports ranges.
         Some(Ok(content_range)) => {
             tracing::trace!(
-- 
2.43.0


From 8ee4002688f6131b334d3d1c23b768767f830d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 20/34] fix: fail a partial download whose parts are answered
 with other bytes

---
 .../symbolicator-service/src/download/mod.rs  | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 916eaa0..1b59f38 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -706,13 +706,19 @@ async fn do_download_reqwest_range(
             futures.push(Either::Left(head.send()));
 
             for range in partial::split(content_range) {
-                let request = request
-                    .try_clone()
-                    .ok_or(CacheError::InternalError)?
-                    .with_range(range);
+                let request = request.try_clone().ok_or(CacheError::InternalError)?;
 
                 let destination = destination.stream(range.start, range.size());
-                let partial = do_download_reqwest(request, destination).send();
+                let partial = do_download_reqwest_part(
+                    request,
+                    BytesContentRange {
+                        start: range.start,
+                        end: range.end,
+                        total_size: content_range.total_size,
+                    },
+                    destination,
+                )
+                .send();
                 futures.push(Either::Right(partial));
             }
 
@@ -745,6 +751,27 @@ async fn do_download_reqwest(
     }
 }
 
+/// Downloads one `part` of the requested resource into the `destination`.
+///
+/// Any other content than the requested part would corrupt the file, this includes servers which
+/// reply with the full resource.
+async fn do_download_reqwest_part(
+    request: SymRequest<'_>,
+    part: BytesContentRange,
+    destination: impl WriteStream,
+) -> CacheContents {
+    let source = request.to_source();
+    let response = request.with_range(part.range()).execute().await?;
+
+    match response.content_range() {
+        Some(Ok(content_range)) if content_range == part => response.download(destination).await,
+        _ if !response.status().is_success() => Err(status_to_error(&source, response.status())),
+        _ => Err(CacheError::DownloadError(
+            "server replied with a different range".to_owned(),
+        )),
+    }
+}
+
 /// Converts a status code to an error.
 ///
 /// Any status code will be converted to an error, callers must ensure success cases
-- 
2.43.0


From e81d46ae8ab05ed154b047d780a8a89e426af4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 21/34] fix: recording a failed download must not panic for any
 deny list configuration

---
 crates/symbolicator-service/src/download/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 1b59f38..6c9039b 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -128,8 +128,12 @@ struct HostDenyList {
 impl HostDenyList {
     /// Creates an empty [`HostDenyList`].
     fn from_config(config: &Config) -> Self {
-        let time_window_millis = config.deny_list_time_window.as_millis() as u64;
-        let bucket_size_millis = config.deny_list_bucket_size.as_millis() as u64;
+        let time_window_millis =
+            u64::try_from(config.deny_list_time_window.as_millis()).unwrap_or(u64::MAX);
+        // Timestamps are rounded to milliseconds, there are no smaller buckets.
+        let bucket_size_millis = u64::try_from(config.deny_list_bucket_size.as_millis())
+            .unwrap_or(u64::MAX)
+            .max(1);
         Self {
             time_window_millis,
             bucket_size_millis,
@@ -156,7 +160,7 @@ impl HostDenyList {
     /// The maximum length of the failure queue for one host.
     fn max_queue_len(&self) -> usize {
         // Add one to protect against round issues if `time_window` is not a multiple of `bucket_size`.
-        (self.time_window_millis / self.bucket_size_millis) as usize + 1
+        ((self.time_window_millis / self.bucket_size_millis) as usize).saturating_add(1)
     }
 
     /// Registers a download failure for the given `host`.
@@ -196,7 +200,7 @@ impl HostDenyList {
             queue.pop_front();
         }
 
-        let cutoff = current_ts - self.time_window_millis;
+        let cutoff = current_ts.saturating_sub(self.time_window_millis);
         let total_failures: usize = queue
             .iter()
             .skip_while(|failure_count| failure_count.timestamp < cutoff)
-- 
2.43.0


From 81d54c7b958ab22a4153989eb6fe846022e88a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:21 +0000
Subject: [PATCH 22/34] fix: give no source context for line 0

Lines are counted from one; a frame with line 0 was shown the first line of the
file as its source.
---
 crates/symbolicator-service/src/source_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/symbolicator-service/src/source_context.rs b/crates/symbolicator-service/src/source_context.rs
index d87256e..a104e01 100644
--- a/crates/symbolicator-service/src/source_context.rs
+++ b/crates/symbolicator-service/src/source_context.rs
@@ -15,6 +15,11 @@ pub fn get_context_lines(
     trim_to_column: usize,
     context_lines: Option<usize>,
 ) -> Option<(Vec<String>, String, Vec<String>)> {
+    // Lines are counted from one, so there is no such line.
+    if lineno == 0 {
+        return None;
+    }
+
     let context_lines = context_lines.unwrap_or(DEFAULT_CONTEXT_LINES);
 
     let start_line = lineno.saturating_sub(context_lines).saturating_sub(1);
-- 
2.43.0


From 3f4f2ebc52ad4b43d3a9c8ac3f12f24f584e8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:22 +0000
Subject: [PATCH 23/34] fix: add a source link's candidate to the module it
 belongs to

The index given is that of the submitted list, but it was applied to the list
sorted by address, so the candidate ended up in another module's report.
---
 crates/symbolicator-native/src/symbolication/module_lookup.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index f0b5983..580dbb0 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -523,7 +523,9 @@ impl ModuleLookup {
     ///
     /// If there is no module at that index, this is a no-op.
     pub fn add_candidate(&mut self, idx: usize, candidate: &ObjectCandidate) {
-        let Some(entry) = self.modules.get_mut(idx) else {
+        // `modules` is sorted by address, whereas `idx` is a position in the submitted list.
+        let mut modules = self.modules.iter_mut();
+        let Some(entry) = modules.find(|entry| entry.module_index == idx) else {
             return;
         };
 
-- 
2.43.0


From 219d10e518767ac698989c2e43c86614bbc5e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 24/34] fix: keep the directory of a cache file that could not
 be cleaned up

A file whose cleanup failed with an error other than "not found" did not
count as remaining, so its directory was considered empty and removed
recursively, together with the file that could not be judged.
---
 crates/symbolicator-service/src/caching/cleanup.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index ebd5d0d..4e7ea9f 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -237,6 +237,7 @@ impl Cache {
                                     },
                                     || tracing::error!("Failed to clean cache file: {:?}", e),
                                 );
+                                is_empty = false;
                             }
                             Ok((file_removed, file_stats)) => {
                                 is_empty &= file_removed;
-- 
2.43.0


From 59013aaf7e611aeaa428eae14972425a3703ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 25/34] fix: do not delete broken cache metadata in a dry run

Judging a cache file removed its metadata file if that could not be parsed,
even if cleanup was asked not to remove anything.
---
 crates/symbolicator-service/src/caching/cleanup.rs | 2 +-
 crates/symbolicator-service/src/caching/fs.rs      | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index 4e7ea9f..ae01716 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -280,7 +280,7 @@ impl Cache {
         let metadata_size =
             catch_not_found(|| metadata_path.metadata())?.map_or(0, |metadata| metadata.len());
 
-        if catch_not_found(|| self.check_expiry(path))?.is_none() {
+        if catch_not_found(|| self.check_expiry(path, dry_run))?.is_none() {
             tracing::debug!("Removing file `{}`", path.display());
             if !dry_run {
                 catch_not_found(|| remove_file(path))?;
diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index cc85d4a..e56b24e 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -108,9 +108,12 @@ impl Cache {
     /// If cache should not be used, `Err(io::ErrorKind::NotFound)` is returned.
     /// If cache is usable, `Ok(x)` is returned with the opened [`ByteView`], and
     /// an [`ExpirationTime`] that indicates whether the file should be touched before using.
+    ///
+    /// A metadata file that cannot be parsed is removed, unless `dry_run` is `true`.
     pub(super) fn check_expiry(
         &self,
         path: &Path,
+        dry_run: bool,
     ) -> io::Result<(CacheEntry<ByteView<'static>>, ExpirationTime)> {
         let fs_metadata = path.metadata()?;
         tracing::trace!("File `{}` length: {}", path.display(), fs_metadata.len());
@@ -124,7 +127,9 @@ impl Cache {
                     error = &e as &dyn std::error::Error,
                     "Failed to parse cache metadata file",
                 );
-                let _ = std::fs::remove_file(metadata_path(path));
+                if !dry_run {
+                    let _ = std::fs::remove_file(metadata_path(path));
+                }
                 None
             }
         };
@@ -256,7 +261,7 @@ impl Cache {
         // of those can indicate a cache miss as cache cleanup can run inbetween. Only when we have
         // an open ByteView we can be sure to have a cache hit.
         catch_not_found(|| {
-            let (cache_entry, mut expiration) = self.check_expiry(path)?;
+            let (cache_entry, mut expiration) = self.check_expiry(path, false)?;
 
             let should_touch = matches!(expiration, ExpirationTime::TouchIn(Duration::ZERO));
             if should_touch {
-- 
2.43.0


From db472eb69e6570be7998f1b3ce1f3761abfa6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 26/34] fix: block all reserved IPv4 ranges

The referenced list of reserved ranges also contains 203.0.113.0/24
(TEST-NET-3) and all of 192.0.0.0/24.
---
 crates/symbolicator-service/src/utils/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 371e6ba..95791a6 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -17,12 +17,13 @@ static RESERVED_IP_BLOCKS: Lazy<Vec<Ipv4Network>> = Lazy::new(|| {
         "127.0.0.0/8",
         "169.254.0.0/16",
         "172.16.0.0/12",
-        "192.0.0.0/29",
+        "192.0.0.0/24",
         "192.0.2.0/24",
         "192.88.99.0/24",
         "192.168.0.0/16",
         "198.18.0.0/15",
         "198.51.100.0/24",
+        "203.0.113.0/24",
         "224.0.0.0/4",
         "240.0.0.0/4",
         "255.255.255.255/32",
-- 
2.43.0


From 2836e77991528987e32019152618c6352ab9f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 27/34] fix: respect the path of allowed origin patterns

Patterns with a wildcard domain ignored their path and allowed every path.
For other patterns the path never matched, because the leading slash is
removed from the pattern but not from the origin, and with a port the path
was taken as part of the port.
---
 crates/symbolicator-service/src/utils/http.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 95791a6..43cfdf1 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -148,11 +148,11 @@ struct AllowedOriginPattern {
 impl AllowedOriginPattern {
     fn parse(value: &str) -> Option<Self> {
         let (scheme, rest) = value.split_once("://").unwrap_or(("*", value));
-        let (domain, path) = rest.split_once('/').unwrap_or((rest, "*"));
+        let (authority, path) = rest.split_once('/').unwrap_or((rest, "*"));
 
-        let (domain, port) = match rest.split_once(':') {
+        let (domain, port) = match authority.split_once(':') {
             Some((d, p)) => (d, Some(p)),
-            None => (domain, None),
+            None => (authority, None),
         };
 
         let mut domain = idna::domain_to_ascii(domain).ok()?;
@@ -224,9 +224,7 @@ pub fn is_valid_origin(origin: &Url, allowed: &[String]) -> bool {
 
         // Match the domain: wildcard, prefix, or exact
         if let Some(rest) = domain.strip_prefix("*.") {
-            if hostname.ends_with(&domain[1..]) || hostname == rest {
-                return true;
-            } else {
+            if !hostname.ends_with(&domain[1..]) && hostname != rest {
                 continue;
             }
         } else if !domain_matches.contains(&domain) {
@@ -238,7 +236,10 @@ pub fn is_valid_origin(origin: &Url, allowed: &[String]) -> bool {
             return true;
         }
         let path = path.strip_suffix('*').unwrap_or(&path);
-        if origin.path().starts_with(path) {
+        // The pattern's path does not include the leading slash.
+        let origin_path = origin.path();
+        let origin_path = origin_path.strip_prefix('/').unwrap_or(origin_path);
+        if origin_path.starts_with(path) {
             return true;
         }
     }
-- 
2.43.0


From 4b57acd3b64ffd5d05d271511a04a41863564b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:10 +0000
Subject: [PATCH 28/34] fix: read unaligned client-side stack traces

The stack trace extension stream of a minidump may start at any offset,
so its records must not be borrowed in place from the dump: reading them through
misaligned references is undefined behaviour.
---
 .../src/symbolication/minidump_stacktraces.rs | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs b/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
index 400ab45..f9c3b7d 100644
--- a/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
+++ b/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
@@ -211,8 +211,8 @@ mod format {
 
     #[derive(Debug)]
     pub struct Format<'data> {
-        threads: &'data [RawThread],
-        frames: &'data [RawFrame],
+        threads: Vec<RawThread>,
+        frames: Vec<RawFrame>,
         symbol_bytes: &'data [u8],
     }
 
@@ -228,8 +228,8 @@ mod format {
                 return Err(Error::HeaderTooSmall);
             }
 
-            // SAFETY: we will check validity of the header down below
-            let header = unsafe { &*(buf.as_ptr() as *const RawHeader) };
+            // SAFETY: `buf` is large enough, and we will check validity of the header down below
+            let header = unsafe { ptr::read_unaligned(buf.as_ptr() as *const RawHeader) };
             if header.version != MINIDUMP_FORMAT_VERSION {
                 return Err(Error::WrongVersion);
             }
@@ -254,19 +254,14 @@ mod format {
             let symbols_start = unsafe { frames_start.add(frames_size) };
 
             // SAFETY: the above buffer size check also made sure we are not going out of bounds
-            // here
-            let threads = unsafe {
-                &*ptr::slice_from_raw_parts(
-                    threads_start as *const RawThread,
-                    header.num_threads as usize,
-                )
-            };
-            let frames = unsafe {
-                &*ptr::slice_from_raw_parts(
-                    frames_start as *const RawFrame,
-                    header.num_frames as usize,
-                )
-            };
+            // here. The extension can start at any offset within the minidump, so its contents are
+            // not necessarily aligned.
+            let threads = (0..header.num_threads as usize)
+                .map(|i| unsafe { ptr::read_unaligned((threads_start as *const RawThread).add(i)) })
+                .collect();
+            let frames = (0..header.num_frames as usize)
+                .map(|i| unsafe { ptr::read_unaligned((frames_start as *const RawFrame).add(i)) })
+                .collect();
             let symbol_bytes =
                 unsafe { &*ptr::slice_from_raw_parts(symbols_start, header.symbol_bytes as usize) };
 
-- 
2.43.0


From c5229d732a5cee9c23be74331791f10ea5b0e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:11 +0000
Subject: [PATCH 29/34] fix: only hex segments are hashes in module names

Any path segment of 32 or 40 bytes was taken for a content hash, and the
path before it was dropped from the module name.
---
 crates/symbolicator-js/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 411454a..0a80bf4 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -149,8 +149,8 @@ pub fn generate_module(abs_path: &str) -> String {
     // return all the segments following a 32/40-char hash
     let mut segments = path.split('/');
     while let Some(segment) = segments.next() {
-        if segment.len() == 32
-            || segment.len() == 40 && segment.chars().all(|c| c.is_ascii_hexdigit())
+        if (segment.len() == 32 || segment.len() == 40)
+            && segment.chars().all(|c| c.is_ascii_hexdigit())
         {
             let mut s = String::new();
             for (i, seg) in segments.enumerate() {
-- 
2.43.0


From c46ee41c01f9a16c8a6fa6df055af77acc4ea0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:28 +0000
Subject: [PATCH 30/34] fix: resolve references against the path of their base

---
 crates/symbolicator-js/src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 0a80bf4..f5b2a84 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -174,6 +174,13 @@ pub fn join_paths(base: &str, right: &str) -> String {
     }
 
     let (scheme, rest) = base.split_once("://").unwrap_or(("file", base));
+    let is_http = scheme == "http" || scheme == "https";
+    // the path of the base ends at its query or fragment
+    let rest = if is_http {
+        rest.split(['?', '#']).next().unwrap_or(rest)
+    } else {
+        rest
+    };
 
     let right = right.strip_prefix('~').unwrap_or(right);
     // the right path is absolute:
@@ -205,7 +212,6 @@ pub fn join_paths(base: &str, right: &str) -> String {
     let _ = left_iter.next_back();
 
     let mut segments: Vec<_> = left_iter.collect();
-    let is_http = scheme == "http" || scheme == "https";
     let mut is_first_segment = true;
     for right_segment in right.split('/') {
         if right_segment == ".." && (segments.pop().is_some() || is_http) {
-- 
2.43.0


From b4039598353f52d0e724e75217e6eeec93e0f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:28 +0000
Subject: [PATCH 31/34] fix: cut the query before extracting the file stem

---
 crates/symbolicator-js/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index f5b2a84..fb81702 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -257,13 +257,11 @@ pub fn strip_hostname(path: &str) -> &str {
 // as it's not possible to use artifacts without proper host or `~/` wildcard.
 pub fn extract_file_stem(path: &str) -> String {
     let path = strip_hostname(path);
+    // trim query strings and fragments
+    let path = path.split(['?', '#']).next().unwrap_or(path);
 
     path.rsplit_once('/')
         .map(|(prefix, name)| {
-            // trim query strings and fragments
-            let name = name.split_once('?').map(|(name, _)| name).unwrap_or(name);
-            let name = name.split_once('#').map(|(name, _)| name).unwrap_or(name);
-
             // then, trim all the suffixes as often as they occurr
             let name = trim_all_end_matches(name, FILE_SUFFIX_PATTERNS);
 
-- 
2.43.0


From 45bc87f79a377b061669c18b94806f87106fe2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:43 +0000
Subject: [PATCH 32/34] fix: an index without entries is read back from the
 cache as missing

---
 crates/symbolicator-sources/src/index.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/index.rs b/crates/symbolicator-sources/src/index.rs
index 59285f8..7d34272 100644
--- a/crates/symbolicator-sources/src/index.rs
+++ b/crates/symbolicator-sources/src/index.rs
@@ -70,7 +70,10 @@ impl SymstoreIndex {
         // This is the inverse of `write`, so only the line feeds are removed: a carriage return is
         // part of the entry.
         for line in data.split_terminator('\n') {
-            out.files.insert(line.into());
+            // an index without entries is written as an empty line
+            if !line.is_empty() {
+                out.files.insert(line.into());
+            }
         }
         Ok(out)
     }
@@ -103,6 +106,10 @@ impl SymstoreIndex {
 
     /// Writes this index to a writer.
     pub fn write(&self, mut destination: impl Write) -> io::Result<()> {
+        // The caches take an empty file for a missing one, and an empty index is not missing.
+        if self.files.is_empty() {
+            writeln!(destination)?;
+        }
         for line in &self.files {
             writeln!(destination, "{line}")?;
         }
-- 
2.43.0


From 50388cc551332a144236d3c8650f7e7d62fd8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:43 +0000
Subject: [PATCH 33/34] fix: an internal error of a shared cache fetch is
 stored as not found

---
 crates/symbolicator-service/src/caching/memory.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 298e87e..68a5272 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -268,6 +268,11 @@ impl<T: CacheItemRequest> Cacher<T> {
         let shared_cache_hit = entry.is_some();
 
         let entry = match entry {
+            // As with an `InternalError` during computation, neither the error nor the temp file
+            // (which does not contain it) is persisted.
+            Some(entry) if entry.contents().is_err() => {
+                return entry.and_then(|byteview| request.load(byteview));
+            }
             Some(entry) => entry,
             None => {
                 metric!(counter("caches.computation") += 1, "cache" => name.as_ref());
-- 
2.43.0


From 94a143954d262ed5b3ca13a521524344612b8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:43 +0000
Subject: [PATCH 34/34] fix: a broken off shared cache fetch leaves its bytes
 in the computed entry

---
 crates/symbolicator-service/src/caching/memory.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 68a5272..02d3646 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -275,6 +275,13 @@ impl<T: CacheItemRequest> Cacher<T> {
             }
             Some(entry) => entry,
             None => {
+                // A failed fetch may have left a part of the entry in the temp file.
+                if self.shared_cache(&request).is_some() {
+                    temp_file = match self.config.tempfile() {
+                        Ok(temp_file) => temp_file,
+                        Err(e) => return CacheEntry::from_err(e),
+                    };
+                }
                 metric!(counter("caches.computation") += 1, "cache" => name.as_ref());
                 match request.compute(&mut temp_file).await {
                     Ok(()) => {
-- 
2.43.0

