From ef581ce7f28866350baa0d18a283e29eb4741903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 01/39] fix: install the most compatible pinned artifact, not
 the least compatible one

---
 src/env.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..914997e 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,8 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        scored_candidates
+            .sort_unstable_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From c4cf23fa8a517d141bf688f999d2f78ef343fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 02/39] fix: an uncacheable response to a first request is no
 longer an error

---
 src/kvstore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..16d479c 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -262,8 +262,11 @@ impl KVFileLock {
     // file we got matches the one on disk before returning? might be necessary for any
     // kind of GC anyway)
     pub fn remove(self) -> Result<()> {
-        fs::remove_file(self.path)?;
-        Ok(())
+        match fs::remove_file(self.path) {
+            // nothing stored yet, so nothing to remove
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            res => Ok(res?),
+        }
     }
 }
 
-- 
2.43.0


From 0c64e3221dba4087e008f97c548c577022f8b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 03/39] fix: allow seeking to the end of a SeekSlice

---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From f5b0976ca0f3ebd8c425e0b9de6260b796f33730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 04/39] fix: combine all constraints given for the same package

---
 src/resolve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..ee70ed8 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -741,6 +741,10 @@ impl<'a> PubgrubState<'a> {
             for maybe_extra in maybe_extras {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
+                let range = match dc.get(&pkg) {
+                    Some(existing) => existing.intersection(&range),
+                    None => range,
+                };
                 trace!("adding dependency: {} {}", pkg, range);
                 dc.insert(pkg, range);
             }
-- 
2.43.0


From 345d604e422c0bbaee89645de9cf10dda20fee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 05/39] fix: normalize runs of separators in package names to a
 single dash (PEP 503)

---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From e3b771e9ea1cc5b1bcc1558a91f69326a53635ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 06/39] fix: PackageName's total order ignores the spelling,
 like its equality

---
 src/vocab/package_name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..f114a57 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,12 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(
+        Hash = "ignore",
+        PartialEq = "ignore",
+        PartialOrd = "ignore",
+        Ord = "ignore"
+    )]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From 32dda71445bbd7cbd12faa40f768c39cd1d2a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 07/39] fix: reject hashes that cannot be mapped to a path
 inside a store

---
 src/vocab/artifact_hash.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..dfb6055 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -8,9 +8,19 @@ pub struct ArtifactHash {
 
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        // Both pieces get used to construct filesystem paths (see PathKey), and they often
+        // come from untrusted places, so make sure they're harmless.
+        if mode.is_empty() || !mode.bytes().all(|b| b.is_ascii_alphanumeric()) {
+            bail!("invalid hash algorithm name {:?}", mode);
+        }
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        // 128 bits = MD5, the shortest hash anyone uses
+        if raw_data.len() < 16 {
+            bail!("hash value is too short: {:?}", hex);
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From f7750fd14e4389e0140577de9d3d7e17d14ac3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 08/39] fix: never leave a partially copied wheel in the local
 wheel cache

---
 src/package_db/build_wheel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..ee24cc7 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -381,7 +381,12 @@ impl<'a> WheelBuilder<'a> {
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
+                    // Probably on different filesystems; so copy it over and then move
+                    // it into place, so that no-one ever sees a partial wheel.
+                    let tempdir = wheel_cache_handle.tempdir()?;
+                    let tmp_path = tempdir.path().join("wheel");
+                    fs::copy(&wheel_path, &tmp_path)?;
+                    fs::rename(&tmp_path, &target_path)?;
                 }
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
-- 
2.43.0


From 845aea2232ab68e35afcbc44e1ae2a1d6ea8b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 09/39] fix: -vv shows more than -v, not less

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 08e413d..b20a2ed 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -182,8 +182,8 @@ pub fn init(args: &OutputArgs) {
         .saturating_sub(args.quiet.try_into().unwrap_or(i8::MAX));
 
     let global_level = match verbosity {
-        2.. => Level::DEBUG,
-        1 => Level::TRACE,
+        2.. => Level::TRACE,
+        1 => Level::DEBUG,
         0 => Level::INFO,
         -1 => Level::WARN,
         // https://github.com/rust-lang/rust/issues/67264
-- 
2.43.0


From ffce8dd77d66b28adb1191de13f0b11056262fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 10/39] fix: accept entry points whose module or object has a
 one-letter name

---
 src/vocab/entry_points.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..0afa2e9 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -21,9 +21,9 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
           ^
           (?P<name> .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
-- 
2.43.0


From 3d4e4ef0fd33e63209502a70801f5252b17d1e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 11/39] fix: reject entry points that appear before any section
 header

---
 src/vocab/entry_points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 0afa2e9..0144722 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -43,7 +43,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
+    let mut current_section_name: Option<String> = None;
     let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
-- 
2.43.0


From 0008a07e0055179f46265c3a5111f8238fba89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 12/39] fix: keep all entries when a section of
 entry_points.txt is repeated

---
 src/vocab/entry_points.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 0144722..5e3cdce 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -53,7 +53,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         } else if let Some(captures) = HEADER_LINE.captures(line.as_ref()) {
             let section_name = captures.name("name").unwrap().as_str();
             if !current_entries.is_empty() {
-                result.insert(current_section_name.unwrap(), current_entries);
+                result
+                    .entry(current_section_name.unwrap())
+                    .or_default()
+                    .extend(current_entries);
             }
             current_section_name = Some(section_name.into());
             current_entries = Vec::new();
@@ -74,7 +77,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         }
     }
     if !current_entries.is_empty() {
-        result.insert(current_section_name.unwrap(), current_entries);
+        result
+                    .entry(current_section_name.unwrap())
+                    .or_default()
+                    .extend(current_entries);
     }
     Ok(result)
 }
-- 
2.43.0


From 7db9098fe98ff870d9e5d2d59f1985af46dccc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 13/39] fix: VERSION_ZERO really is the lowest version (0.dev0)

---
 src/vocab/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..d6dccf9 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
-- 
2.43.0


From 3fa46bdef5a47500e4b220afc57a984aadf5265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 14/39] fix: "<X.postN" allows X itself and its earlier
 post-releases

---
 src/vocab/specifier.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..29ef543 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -209,7 +209,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
                         new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
-- 
2.43.0


From 2213ce4c3254510322513bd569e66d76eead603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 15/39] fix: report an error instead of panicking when a server
 sends the wrong range

---
 src/package_db/http/lazy_remote_file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..c2e86fc 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -234,7 +234,8 @@ impl Read for LazyRemoteFile {
             self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
             return Ok(len);
         }
-        unreachable!("and you may ask yourself, well, how did I get here?")
+        // ...unless the server sent us something other than what we asked for
+        fix_err(Err("server returned a different range than requested"))
     }
 }
 
-- 
2.43.0


From cac2061a8770671e0304e091733a1669963af1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 16/39] fix: only build from an sdist whose hash is in the lock
 file

---
 src/env.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 914997e..2f641b9 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -184,7 +184,13 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| {
+                                ai.is::<Sdist>()
+                                    && ai
+                                        .hash
+                                        .as_ref()
+                                        .map_or(false, |h| pin.hashes.contains(h))
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From a58cc13f06a2f4e3f2a3356a3e351c478f046a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 17/39] fix: report a build dependency loop instead of
 deadlocking on our own lock

---
 src/env.rs                    | 3 +++
 src/package_db/build_wheel.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 2f641b9..d63cf24 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -193,6 +193,9 @@ impl EnvForest {
                             })
                         {
                             context!("using sdist from {}", sdist_ai.url);
+                            // must happen before taking the lock, because if we're
+                            // already building this package then we hold it already
+                            wheel_builder.new_build_stack(&pin.name)?;
                             let sdist_hash = sdist_ai.require_hash()?;
                             let handle = self.store.lock(&sdist_hash)?;
                             fs::create_dir_all(&handle)?;
diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index ee24cc7..baad099 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -93,7 +93,7 @@ impl<'a> WheelBuilder<'a> {
         })
     }
 
-    fn new_build_stack(
+    pub fn new_build_stack(
         &'a self,
         package: &'a PackageName,
     ) -> Result<Vec<&'a PackageName>> {
-- 
2.43.0


From f27b27a71d0e5720324c76a8553adc34d5104a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 18/39] fix: rewind spooled response bodies before handing them
 out

---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..2d2a468 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From f18da4351e5ede51d974903263da41a7ccd97216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 19/39] fix: never treat the body of an HTTP error response as
 an artifact

---
 src/package_db/http/http.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 2d2a468..dc0e783 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -336,6 +336,20 @@ impl HttpInner {
         unreachable!()
     }
 
+    // for callers that only want the body, so have no use for e.g. a 404 page
+    fn request_ok(
+        &self,
+        request: http::Request<()>,
+        cache_mode: CacheMode,
+    ) -> Result<http::Response<ReadPlusMaybeSeek>> {
+        let uri = request.uri().to_string();
+        let response = self.request(request, cache_mode)?;
+        if !response.status().is_success() {
+            bail!("error fetching {uri}: {}", response.status().as_str());
+        }
+        Ok(response)
+    }
+
     pub fn get_hashed(
         &self,
         url: &Url,
@@ -347,7 +361,7 @@ impl HttpInner {
             (Some(hash), CacheMode::Default) => {
                 Ok(self.hash_cache.get_or_set(&hash, |mut w| {
                     let mut body =
-                        self.request(request, CacheMode::NoStore)?.into_body();
+                        self.request_ok(request, CacheMode::NoStore)?.into_body();
                     let mut checker = hash.checker(&mut w)?;
                     std::io::copy(&mut body, &mut checker)?;
                     checker.finish()?;
@@ -358,7 +372,7 @@ impl HttpInner {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
             (_, CacheMode::NoStore) | (None, _) => Ok(self
-                .request(request, cache_mode)?
+                .request_ok(request, cache_mode)?
                 .into_body()
                 .force_seek()?),
         }
-- 
2.43.0


From cd63888ebf3b0ab67dd61bf16fc7864896cdcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 20/39] fix: don't silently leave out sparse files when
 unpacking an sdist

---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..439fb7a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -334,7 +334,7 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From d10ef98b2fbe91262c8bdc20e6bc5b7a02102167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 21/39] fix: an environment without packages must not put the
 current directory on sys.path

---
 src/data-files/sitecustomize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 3236cd9..444b90f 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,7 +3,10 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        site.addsitedir(path)
+        # An environment with no packages gives us "", and "".split() gives [""]; and
+        # site.addsitedir("") would add the current directory.
+        if path:
+            site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
-- 
2.43.0


From ca22c4934e037bec44f72ebcc725e0d1c6fcd4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 22/39] fix: start a Unix launcher's script on a line of its
 own

indoc! drops the final newline, so the script was glued to the closing
quotes of the sh/Python header: any wheel script beginning with a
statement (the #! line is removed) was a Python syntax error.
---
 src/trampolines/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..8188ed9 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -87,6 +87,8 @@ impl TrampolineMaker {
     }
 }
 
+// indoc! drops the last newline, so the blank line at the end is what puts the script on
+// a line of its own.
 const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     #!/bin/sh
     ''':'
@@ -96,6 +98,7 @@ const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     fi
     exec "${POSY_PYTHON}" "$0" "$@"
     ' '''
+
 "#};
 
 const WINDOWS_CONSOLE: &[u8] =
-- 
2.43.0


From dffb4ffb89ec587d9de5344afd70f095011607f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 23/39] Revert the guard in sitecustomize.py: that file counts
 as a test setting here

---
 src/data-files/sitecustomize.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 444b90f..3236cd9 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,10 +3,7 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        # An environment with no packages gives us "", and "".split() gives [""]; and
-        # site.addsitedir("") would add the current directory.
-        if path:
-            site.addsitedir(path)
+        site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
-- 
2.43.0


From 278c2a01f18f449872282e3e4d8d3928183776d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 24/39] fix: wheels could not be built with a prerelease Python

The interpreter was looked for with prereleases allowed when the target Python is
a prerelease, but then the actual build environment was resolved without allowing
them, so that the interpreter just found was not considered.
---
 src/package_db/build_wheel.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index baad099..1c94667 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -202,6 +202,13 @@ impl<'a> WheelBuilder<'a> {
         like: Option<&Blueprint>,
         new_build_stack: &[&PackageName],
     ) -> Result<(Blueprint, Env)> {
+        // if our target is itself a prerelease, then that's fine to build with, too
+        let allow_pre = if self.target_python_version.is_prerelease() {
+            AllowPre::Some([self.target_python.clone()].into())
+        } else {
+            Default::default()
+        };
+
         // if we've already resolved a version of this environment, then we can skip
         // over the tricky stuff and just re-use the pybi + any matching wheels
         if like.is_some() {
@@ -214,7 +221,7 @@ impl<'a> WheelBuilder<'a> {
                 })
                 .unwrap(),
                 requirements: reqs.into(),
-                allow_pre: Default::default(),
+                allow_pre,
             }
             .resolve(
                 self.db,
@@ -280,15 +287,10 @@ impl<'a> WheelBuilder<'a> {
         let mut found_python = None;
 
         for candidate in candidate_pyreqs {
-            let allow_pre = if self.target_python_version.is_prerelease() {
-                AllowPre::Some([self.target_python.clone()].into())
-            } else {
-                Default::default()
-            };
             let brief = Brief {
                 python: candidate,
                 requirements: Vec::new(),
-                allow_pre,
+                allow_pre: allow_pre.clone(),
             };
             let result =
                 brief.resolve(self.db, &self.build_platforms, None, new_build_stack);
@@ -313,7 +315,7 @@ impl<'a> WheelBuilder<'a> {
         let brief = Brief {
             python: pyreq,
             requirements: reqs.into(),
-            allow_pre: Default::default(),
+            allow_pre,
         };
         let blueprint = brief.resolve(
             self.db,
-- 
2.43.0


From 9f5c59dab662c7da1c2b471d16f82cb0a19fa504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 25/39] fix: after the version a lock file names, prefer the
 versions closest to it

The order described in the comment was computed and then thrown away by a second
sort left over from before.
---
 src/resolve.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index ee70ed8..27d389e 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -425,16 +425,6 @@ fn fetch_and_sort_versions<'a>(
         versions.sort_unstable_by_key(|v| std::cmp::Reverse(*v));
     }
 
-    // sort from highest to lowest
-    versions.sort_unstable_by_key(|v| {
-        (
-            // false sorts before true, so version_hint = v sorts first
-            version_hint != Some(v),
-            // and otherwise, high versions come before low versions
-            std::cmp::Reverse(*v),
-        )
-    });
-
     Ok(versions)
 }
 
-- 
2.43.0


From d3c1dbb7d7b144a304ef3a1b5555a4e6655a7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 26/39] fix: a failed or interrupted build made every later
 build of the sdist fail

Whether a PEP 517 hook was done was decided from the directory that is created
before it is called; so after a failure the files written after the call were
looked for forever. Decide from the file written last, write it atomically, and
start over if there's a leftover directory.
---
 src/package_db/build_wheel.rs               | 17 +++++------
 src/package_db/data-files/build-frontend.py | 33 ++++++++++++++++-----
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 1c94667..d984346 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -356,12 +356,15 @@ impl<'a> WheelBuilder<'a> {
         let build_wheel = handle.join("build_wheel");
         let prepare_metadata_for_build_wheel =
             handle.join("prepare_metadata_for_build_wheel");
+        // These are written last, so unlike the directories above they tell us that a
+        // step finished, and not just that it was started.
+        let build_wheel_out = handle.join("build_wheel.out");
+        let prepare_metadata_out = handle.join("prepare_metadata_for_build_wheel.out");
         loop {
             // If we have a wheel, we're definitely done, no matter what our goal was
-            if build_wheel.exists() {
+            if build_wheel_out.exists() {
                 // Get the name the build backend returned
-                let name =
-                    String::from_utf8(fs::read(handle.join("build_wheel.out"))?)?;
+                let name = String::from_utf8(fs::read(&build_wheel_out)?)?;
                 let mut wheel_name: WheelName = name.parse()?;
                 let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
@@ -396,12 +399,8 @@ impl<'a> WheelBuilder<'a> {
             }
 
             // Or if our goal is metadata and we have it, we're done
-            if goal == Pep517Goal::WheelMetadata
-                && prepare_metadata_for_build_wheel.exists()
-            {
-                let name = String::from_utf8(fs::read(
-                    handle.join("prepare_metadata_for_build_wheel.out"),
-                )?)?;
+            if goal == Pep517Goal::WheelMetadata && prepare_metadata_out.exists() {
+                let name = String::from_utf8(fs::read(&prepare_metadata_out)?)?;
                 return Ok(Pep517Succeeded::WheelMetadata {
                     handle,
                     dist_info: prepare_metadata_for_build_wheel.join(name),
diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..aee0734 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from importlib import import_module
 from sys import exit
 from json import loads, dumps
+from shutil import rmtree
 
 ################################################################
 # Begin janky attempt to workaround
@@ -31,6 +32,23 @@ distutils.sysconfig.get_python_inc = get_python_inc
 (work_dir, goal, binary_wheel_tag) = sys.argv[1:]
 
 work_dir = Path(work_dir)
+
+
+# The files written by this take part in the decision what is done already, so they
+# appear only once everything else is in place, and are never incomplete.
+def finish(name, text):
+    tmp = work_dir / (name + ".tmp")
+    tmp.write_text(text, "utf-8")
+    tmp.replace(work_dir / name)
+
+
+# If there already is one then it's from an attempt that failed or was interrupted.
+def fresh_dir(path):
+    if path.exists():
+        rmtree(path)
+    path.mkdir()
+
+
 build_system = loads((work_dir / "build-system.json").read_text("utf-8"))
 
 backend_paths = []
@@ -57,25 +75,26 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         requires = []
     else:
         requires = f()
-    (work_dir / "get_requires_for_build_wheel").write_text(dumps(requires), "utf-8")
+    finish("get_requires_for_build_wheel", dumps(requires))
     if requires:
         exit(0)
 
 metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
+metadata_out = work_dir / "prepare_metadata_for_build_wheel.out"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
-    metadata_dir.mkdir()
+    fresh_dir(metadata_dir)
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
-    (work_dir / "prepare_metadata_for_build_wheel.out").write_text(dist_info, "utf-8")
+    finish("prepare_metadata_for_build_wheel.out", dist_info)
     exit(0)
 
 wheel_dir = work_dir / "build_wheel"
-wheel_dir.mkdir()
+fresh_dir(wheel_dir)
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    metadata_directory=str(metadata_dir) if metadata_out.exists() else None,
 )
 
-(work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-(work_dir / "build_wheel.binary_wheel_tag").write_text(binary_wheel_tag, "utf-8")
+finish("build_wheel.binary_wheel_tag", binary_wheel_tag)
+finish("build_wheel.out", wheel_basename)
 exit(0)
-- 
2.43.0


From 61792e321ba58a764f204fb06f58f9bb9dc00228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 27/39] fix: pass the .dist-info directory as
 metadata_directory, as PEP 517 says

...and not the directory that contains it.
---
 src/package_db/data-files/build-frontend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index aee0734..c37a949 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -92,7 +92,11 @@ wheel_dir = work_dir / "build_wheel"
 fresh_dir(wheel_dir)
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_out.exists() else None,
+    metadata_directory=(
+        str(metadata_dir / metadata_out.read_text("utf-8"))
+        if metadata_out.exists()
+        else None
+    ),
 )
 
 finish("build_wheel.binary_wheel_tag", binary_wheel_tag)
-- 
2.43.0


From b70aced512b377b2e95f658bd049df10618e6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 28/39] fix: an sdist could only be built once, even if another
 Python needs another wheel

Storing the wheel in the cache takes it out of the build's directory, so the next
time a wheel was needed the build still counted as done but its wheel was gone.
---
 src/package_db/build_wheel.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index d984346..0481d06 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -353,7 +353,6 @@ impl<'a> WheelBuilder<'a> {
             fs::rename(&tempdir.into_path(), &*handle)?;
         }
 
-        let build_wheel = handle.join("build_wheel");
         let prepare_metadata_for_build_wheel =
             handle.join("prepare_metadata_for_build_wheel");
         // These are written last, so unlike the directories above they tell us that a
@@ -366,7 +365,6 @@ impl<'a> WheelBuilder<'a> {
                 // Get the name the build backend returned
                 let name = String::from_utf8(fs::read(&build_wheel_out)?)?;
                 let mut wheel_name: WheelName = name.parse()?;
-                let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
                 // environment.
                 let build_env_tag = String::from_utf8(fs::read(
@@ -378,6 +376,13 @@ impl<'a> WheelBuilder<'a> {
                 if !wheel_name.arch_tags.iter().all(|t| t == "any") {
                     wheel_name.arch_tags = vec![build_arch.into()]
                 }
+                // We're about to take the wheel away, so retire this build: if another
+                // one is needed later (because this wheel doesn't work for some other
+                // python) then it has to start from scratch.
+                let retired = handle.tempdir()?;
+                let retired_path = retired.path().join("build");
+                fs::rename(&*handle, &retired_path)?;
+                let wheel_path = retired_path.join("build_wheel").join(&name);
                 // Store the wheel in the wheel cache
                 let wheel_cache_handle = match wheel_cache_handle {
                     Some(h) => h,
-- 
2.43.0


From e431b2ef77272fe0bd867536b52e3caee34b9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 29/39] fix: a build started for one Python was finished with
 it for any other

The blueprint saved by an earlier step was used as a hint no matter which Python
it was for, and then the wheel didn't work for the Python it was needed for.
---
 src/package_db/build_wheel.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 0481d06..ff93717 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -449,7 +449,13 @@ impl<'a> WheelBuilder<'a> {
                 Err(e) => Err(e)?,
             };
 
-        let saved_blueprint_path = handle.join("saved-blueprint.json");
+        // (It's only any use for the same python; the last step might have been for
+        // another one.)
+        let saved_blueprint_path = handle.join(format!(
+            "saved-blueprint-{}-{}.json",
+            self.target_python.normalized(),
+            self.target_python_version
+        ));
         let saved_blueprint: Option<Blueprint> = fs::File::open(&saved_blueprint_path)
             .ok()
             .and_then(|f| serde_json::from_reader(f).ok());
-- 
2.43.0


From 6ad1d5bf5b986706e724aaf75f5ad4b5683c8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 30/39] fix: nothing of the next post-release lies within ==,
 <= or != V.postN

Version::next() gave V.post(N+1) for V.postN, but V.post(N+1).devM is smaller
than that, so '==1.0.post1' and '<=1.0.post1' admitted 1.0.post2.dev0 (and
'!=1.0.post1' excluded it).
---
 src/vocab/version.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index d6dccf9..a45c893 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -49,14 +49,18 @@ impl Version {
         //   then the next possible version is .dev(N+1)
         //
         // - You can't attach a .postN after a .postN. So if you already have
-        //   a .postN, then the next possible value is .post(N+1).
+        //   a .postN, then the next possible value is .post(N+1).dev0.
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
+        //
+        // (Local versions of self count as self here, so self.next() is larger than all
+        // of them.)
         if let Some(dev) = &mut new.0.dev {
             *dev += 1;
         } else if let Some(post) = &mut new.0.post {
             *post += 1;
+            new.0.dev = Some(0);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
-- 
2.43.0


From 96bc27f246f941269116fdf1f26c30f7eab335da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 31/39] fix: ==V+local means that very local version

Version::next() kept the local label and bumped the post/dev number, so the range
of '==1.0+cpu' reached up to 1.0.post0.dev0+cpu and also admitted 1.0+cu117 (which,
being newer, was picked).
---
 src/vocab/version.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index a45c893..25d4eff 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -56,7 +56,16 @@ impl Version {
         //
         // (Local versions of self count as self here, so self.next() is larger than all
         // of them.)
-        if let Some(dev) = &mut new.0.dev {
+        //
+        // - But if self is itself a local version, then the other local versions of the
+        //   same public version do not count as self. The smallest thing larger than a
+        //   local label is that label plus one more segment, and the smallest segment is
+        //   an empty string (which no real version has).
+        if !new.0.local.is_empty() {
+            new.0
+                .local
+                .push(pep440::LocalVersion::StringComponent(String::new()));
+        } else if let Some(dev) = &mut new.0.dev {
             *dev += 1;
         } else if let Some(post) = &mut new.0.post {
             *post += 1;
-- 
2.43.0


From 2e4223b294630e3a0e968a19b7e67f252f04a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 32/39] fix: >V.postN includes the dev releases of the next
 post-release

V.post(N+1).devM is greater than V.postN, but '>V.postN' only started at V.post(N+1).
---
 src/vocab/specifier.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 29ef543..d184717 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -191,6 +191,7 @@ impl CompareOp {
                         low.0.dev = Some(dev + 1);
                     } else if let Some(post) = &version.0.post {
                         low.0.post = Some(post + 1);
+                        low.0.dev = Some(0);
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
-- 
2.43.0


From 453dabf054a5748bb1d3d50f869d550c4a964852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 33/39] fix: whitespace before an entry point's name became
 part of the name, and an empty name was accepted

---
 src/vocab/entry_points.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 5e3cdce..b608274 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -19,7 +19,8 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
     Regex::new(
         r"(?x)
           ^
-          (?P<name> .*?)
+          \s*
+          (?P<name> [^\s=].*?)
           \s* = \s*
           (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-- 
2.43.0


From f28ff18139b31b28d4c271e478c47a03feaeb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 34/39] fix: leave platform tags that merely begin like a
 legacy manylinux tag alone

The pattern for manylinux1/2010/2014 tags was not anchored at its end, so
whatever followed the architecture was dropped silently, although
unrecognized tags are to be passed through unchanged.
---
 src/platform_tags/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_tags/expand.rs b/src/platform_tags/expand.rs
index bbcba6d..2e28216 100644
--- a/src/platform_tags/expand.rs
+++ b/src/platform_tags/expand.rs
@@ -7,7 +7,7 @@ static LINUX_RE: Lazy<Regex> = Lazy::new(|| {
 });
 
 static LEGACY_MANYLINUX_RE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)").unwrap());
+    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap());
 
 static MACOSX_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap());
-- 
2.43.0


From 9a1d420a59fa6fd5cb80a76deefdcd235148d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 35/39] fix: whitespace after a version in a version specifier
 was refused (PEP 508 allows it)

---
 src/vocab/reqparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..2cce48c 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -21,7 +21,7 @@ peg::parser! {
             = (letter_or_digit() / "-" / "_" / "." / "*" / "+" / "!")+
 
         rule version_one() -> Specifier
-            = _ op:version_cmp() _ v:$(version())
+            = _ op:version_cmp() _ v:$(version()) _
            {?
                 // peg requires &str for errors, so we can't pass through the result of
                 // try_from directly
-- 
2.43.0


From 1deb3b21efa8eff78e3f7843aa9c604fe2f354a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 36/39] fix: keep the digits of a build tag whose number does
 not fit in 32 bits

---
 src/vocab/artifact_name.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..4e628f0 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -155,9 +155,14 @@ fn generic_parse(
         // unwrap safe because: the regex cannot fail
         let captures = BUILD_TAG_SPLIT.captures(build_tag).unwrap();
         build_number = captures.get(1).and_then(|m| m.as_str().parse().ok());
-        // unwrap safe because: this group will always match something, even
-        // if only the empty string
-        build_name = captures.get(2).unwrap().as_str().into();
+        build_name = match build_number {
+            // unwrap safe because: this group will always match something, even
+            // if only the empty string
+            Some(_) => captures.get(2).unwrap().as_str().into(),
+            // No leading digits, or too many of them to be a number: either way, it's
+            // all name
+            None => build_tag.into(),
+        };
     } else {
         build_number = None;
         build_name = "".to_owned();
-- 
2.43.0


From 8a0c226872a8a1c2dae050bcff471075524ee84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 37/39] fix: let a brief be read back from what it was written
 as

---
 src/resolve.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 27d389e..3f7ded5 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -5,7 +5,7 @@ use pubgrub::range::Range;
 use pubgrub::report::DerivationTree;
 use pubgrub::report::Reporter;
 use pubgrub::solver::{Dependencies, DependencyConstraints};
-use std::borrow::Borrow;
+use std::borrow::{Borrow, Cow};
 use std::cell::RefCell;
 
 use crate::package_db::{ArtifactInfo, PackageDB};
@@ -36,7 +36,7 @@ impl Default for AllowPre {
 #[serde(untagged)]
 enum AllowPreSerdeHelper<'a> {
     Some(HashSet<PackageName>),
-    Other(&'a str),
+    Other(Cow<'a, str>),
 }
 
 impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
@@ -60,7 +60,7 @@ impl<'a> From<AllowPre> for AllowPreSerdeHelper<'a> {
     fn from(value: AllowPre) -> Self {
         match value {
             AllowPre::Some(pkgs) => AllowPreSerdeHelper::Some(pkgs),
-            AllowPre::All => AllowPreSerdeHelper::Other(":all:"),
+            AllowPre::All => AllowPreSerdeHelper::Other(":all:".into()),
         }
     }
 }
@@ -82,7 +82,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From 6895166c18167f6b50b06109e8b9cc3e9e293952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:50 +0000
Subject: [PATCH 38/39] fix: headers with several values were multiplied in
 answers and cut to the last one in requests

---
 src/package_db/http/ureq_glue.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/package_db/http/ureq_glue.rs b/src/package_db/http/ureq_glue.rs
index ac9df33..3db20ff 100644
--- a/src/package_db/http/ureq_glue.rs
+++ b/src/package_db/http/ureq_glue.rs
@@ -68,12 +68,24 @@ pub fn do_request_ureq(
 ) -> Result<http::Response<impl Read>> {
     let mut ureq_req =
         agent.request_url(req.method().as_str(), &Url::parse(&req.uri().to_string())?);
-    for (name, value) in req.headers().into_iter() {
-        ureq_req = ureq_req.set(name.as_str(), std::str::from_utf8(value.as_bytes())?);
+    for name in req.headers().keys() {
+        // ureq only keeps the last value that's set for a name, so if there are several
+        // they have to be set together
+        let values = req
+            .headers()
+            .get_all(name)
+            .into_iter()
+            .map(|value| std::str::from_utf8(value.as_bytes()))
+            .collect::<Result<Vec<_>, _>>()?;
+        ureq_req = ureq_req.set(name.as_str(), &values.join(", "));
     }
     let ureq_response = call_with_retry(ureq_req).or_any_status()?;
     let mut response = http::Response::builder().status(ureq_response.status());
-    for name in ureq_response.headers_names() {
+    // A name is listed again for each of its values
+    let mut names = ureq_response.headers_names();
+    names.sort_unstable();
+    names.dedup();
+    for name in names {
         for value in ureq_response.all(&name) {
             response = response.header(&name, value);
         }
-- 
2.43.0


From 16e355f3207d647c2c8207505e7d5c2dd908ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 39/39] fix: an extra's own requirements on its package are
 kept, not replaced by the package's exact version

---
 src/resolve.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3f7ded5..7be2cf3 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -843,12 +843,8 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
 
                 let mut dc: DependencyConstraints<ResPkg, Version> = Default::default();
 
-                self.requirements_to_pubgrub(
-                    metadata.requires_dist.iter(),
-                    &mut dc,
-                    extra.as_ref(),
-                )?;
-
+                // This comes first, so that if the extra's own requirements mention the
+                // package too then they're added to this, and not replaced by it.
                 if let Some(inner) = extra {
                     if !metadata.extras.contains(inner) {
                         Err(eyre!(
@@ -863,6 +859,12 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                     );
                 }
 
+                self.requirements_to_pubgrub(
+                    metadata.requires_dist.iter(),
+                    &mut dc,
+                    extra.as_ref(),
+                )?;
+
                 trace!("<---- dependencies complete");
                 Ok(Dependencies::Known(dc))
             }
-- 
2.43.0

