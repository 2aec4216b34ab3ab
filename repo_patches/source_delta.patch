From 29b11074b14699c82128eb21923bd56085b88a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 01/19] fix: replace state files atomically

A run that is interrupted while it saves rrdp-state.json or
rsync-state.json left a truncated file behind, and every later run
failed to load it.
---
 src/file_ops.rs | 17 +++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..96ccb61 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -8,6 +8,8 @@ use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
 use log::trace;
 
+use crate::config;
+
 pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     create_file(file_path)?
         .write_all(buf)
@@ -16,6 +18,21 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Writes a file such that it either has its old or its complete new content
+/// at any time: writes to a temporary file next to it, which is then renamed.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let tmp_path = path_with_extension(file_path, config::TMP_FILE_EXT);
+    write_buf(&tmp_path, buf)?;
+
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Cannot rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..e23577d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -406,7 +406,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..da8d979 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From d20134d7efe84a8db044a381ee66296af936da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 02/19] fix: refuse RRDP file URIs which map outside of the
 RRDP directory

A snapshot or delta URI with '..' components, or one with an absolute
path after the base URI, made krill-sync write outside of the staging
and RRDP directories.
---
 src/file_ops.rs | 8 ++++++++
 src/rrdp.rs     | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 96ccb61..978ad82 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -119,6 +119,14 @@ pub fn read_file(file_path: &Path) -> Result<Bytes> {
     Ok(Bytes::from(buf))
 }
 
+/// Whether this is a plain relative path: it has no empty, '.' or '..'
+/// components, so that joining it to a directory gives a path inside of it.
+pub fn is_plain_relative(rel_path: &str) -> bool {
+    rel_path
+        .split('/')
+        .all(|component| !matches!(component, "" | "." | ".."))
+}
+
 pub fn path_with_extension(path: &Path, ext: &str) -> PathBuf {
     let mut res = path.to_path_buf();
     res.set_extension(ext);
diff --git a/src/rrdp.rs b/src/rrdp.rs
index e23577d..d4aaf20 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -661,6 +661,7 @@ impl SourceMappings {
     pub fn relative(&self, uri: &Https) -> Result<String> {
         uri.as_str()
             .strip_prefix(self.base_uri.as_str())
+            .filter(|rel_path| file_ops::is_plain_relative(rel_path))
             .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
             .map(|s| s.to_string())
     }
-- 
2.43.0


From 7a24cc6b512fdfdf2199246dfcd6b0df46fa7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 03/19] fix: do not read files outside of a source directory

URIs with '..' components, or with an absolute path after the base URI,
were mapped to files outside of the configured directory.
---
 src/fetch.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..02a1d5e 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -187,7 +187,12 @@ impl FetchSource {
 
     fn join(&self, rel: &str) -> Result<FetchSource> {
         match self {
-            FetchSource::File(base_path) => Ok(FetchSource::File(base_path.join(rel))),
+            FetchSource::File(base_path) => {
+                if !file_ops::is_plain_relative(rel) {
+                    return Err(anyhow!("Cannot map rel path '{rel}' to base directory"));
+                }
+                Ok(FetchSource::File(base_path.join(rel)))
+            }
             FetchSource::Uri(base_uri, mode) => Ok(FetchSource::Uri(
                 base_uri
                     .join(rel.as_bytes())
-- 
2.43.0


From d3aa82ce4a3582ed7c265af19026e68e14bd0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 04/19] fix: refuse rsync URIs which map outside of the rsync
 directory

With --rsync-include-host an object URI with '..' as its host or module
made krill-sync write outside of the directory for the new revision.
---
 src/rsync.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index da8d979..363b333 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -303,17 +303,22 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         uri: rpki::uri::Rsync,
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
-        let path = if self.include_host_and_module {
-            self.out_path.join(format!(
+        let rel_path = if self.include_host_and_module {
+            format!(
                 "{}/{}/{}",
                 uri.authority(),
                 uri.module_name(),
                 uri.path()
-            ))
+            )
         } else {
-            self.out_path.join(uri.path())
+            uri.path().to_string()
         };
 
+        if !file_ops::is_plain_relative(&rel_path) {
+            return Err(anyhow!("Cannot map uri {} to a file", uri));
+        }
+        let path = self.out_path.join(rel_path);
+
         // Read the bytes into memory, we will need to parse this in order
         // to fix the mtime of the file. In other words.. we _could_ copy
         // the bytes from the reader into a file on disk, but then we would
-- 
2.43.0


From 5c4018c129d74ca6ad686150ffe2d3934a037caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 05/19] fix: do not panic if --rrdp-max-deltas is 0

---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index d4aaf20..bbefe8f 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -103,6 +103,16 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
+                if limit == Some(0) {
+                    // Sorting cannot deal with dropping all deltas.
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                }
+
                 if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
-- 
2.43.0


From 71d2fbf3cd72c830ad35972f7bfa7e1b36e514e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 06/19] fix: keep files until the new notification file is
 published

With --cleanup-after 0 the files which a run dropped were removed while
the published notification file still referred to them.
---
 src/rrdp.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index bbefe8f..4c8ae06 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -335,16 +335,21 @@ impl RrdpState {
 
     /// Apply staged changes.
     ///
+    /// - clean up old files, deprecated for the configured time
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
         config: &Config,
     ) -> Result<()> {
+        // Clean up any RRDP files and empty parent directories if they had been
+        // deprecated for more than the configured 'cleanup_after' time. Do this
+        // first: the files deprecated below are still in use until the new
+        // notification file is written.
+        self.clean(config)?;
+
         // Move new snapshot and delta files.
         let staging_base_dir = config.staging_dir();
         let target_base_dir = &config.rrdp_dir;
@@ -379,10 +384,6 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
-- 
2.43.0


From 6fc5ffbf83dab561fc23a0805518587d6ddcb563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 07/19] fix: do not clean up files which are published again

If a source used the path of an earlier snapshot or delta again, then
the new file was removed when the clean-up time of the old one passed.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 4c8ae06..578e6a1 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -384,6 +384,16 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
+        // The source may use a path (again) which is to be cleaned up. Make
+        // sure that we keep the files which are now published.
+        let mut published: Vec<PathBuf> = vec![];
+        published.extend(self.snapshot_path());
+        for delta in &self.deltas {
+            published.push(self.mappings.path(delta.rel_path()));
+        }
+        self.deprecated_files
+            .retain(|deprecated| !published.contains(&deprecated.path));
+
         Ok(())
     }
 
-- 
2.43.0


From 050c8254b1a3d32ad52c760c229a04534094420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 08/19] fix: do not clean up the current rsync directory

If a revision became current (again) while it was current or waiting to
be cleaned up, then its directory was removed when its time had passed,
although 'current' referred to it.
---
 src/rsync.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsync.rs b/src/rsync.rs
index 363b333..1c6f3df 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -186,6 +186,14 @@ impl RsyncDirState {
     /// Updates the current revision for this state, moves a possible
     /// existing current state to old.
     fn update_current(&mut self, current: RsyncRevision) {
+        // The revision may have been current before, e.g. if the source went
+        // back to an earlier session, or if the previous run was interrupted.
+        self.old.retain(|deprecated| deprecated.revision != current);
+
+        if self.current.as_ref() == Some(&current) {
+            return;
+        }
+
         let existing = std::mem::replace(&mut self.current, Some(current));
         if let Some(existing) = existing {
             self.old.push(existing.deprecate());
-- 
2.43.0


From c72a5131951c2e984666c9f5e356a80494566eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 09/19] fix: fail if a file is not modified according to the
 server

A server answering a request for a snapshot or delta file with 'not
modified', although it was asked without any condition, made krill-sync
continue without the file, or with one which has the wrong hash.
---
 src/fetch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 02a1d5e..373be5e 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -323,11 +323,14 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        let response = source
             .fetch(Some(hash), None, Some(target))
             .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
 
-        Ok(())
+        match response {
+            FetchResponse::Saved => Ok(()),
+            _ => Err(anyhow!("Got no content for: {}", uri)),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
-- 
2.43.0


From 7743c534c7255b37f17d8bb08757a532e6e18c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 10/19] fix: use the snapshot if deltas do not lead to the
 current serial

Data of a repository which went back to an earlier serial was kept and
treated as current. An arithmetic overflow for the highest possible
serial is also avoided.
---
 src/validation/validator.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..dc88b5a 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -681,7 +681,7 @@ impl VisitedRepositories {
 
         // Ensure that we have all deltas needed for our
         // current data serial.
-        if first_delta.serial() > data.serial + 1 {
+        if first_delta.serial().saturating_sub(1) > data.serial {
             return Err(anyhow!(
                 "no delta path from {} to {}",
                 data.serial,
@@ -691,7 +691,7 @@ impl VisitedRepositories {
 
         // Retrieve and apply deltas
         for delta_info in notification.deltas() {
-            if delta_info.serial() != data.serial + 1 {
+            if delta_info.serial() <= data.serial {
                 // skip deltas that are already processed.
                 continue;
             } else {
@@ -738,10 +738,20 @@ impl VisitedRepositories {
                     }
                 }
 
-                data.serial += 1;
+                data.serial = delta_info.serial();
             }
         }
 
+        // The deltas do not necessarily lead to the serial of the notification
+        // file, e.g. if the source went back to an earlier serial.
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "deltas lead to serial {} rather than {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From 154abc965b8521bfa5a08bf4eb6528dc70b8292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 11/19] fix: refuse snapshots and deltas in place of the
 notification file

A snapshot or delta with the URI of the notification file, or of its
temporary file, replaced the public notification file.
---
 src/rrdp.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 578e6a1..961e03f 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -502,6 +502,20 @@ impl RrdpState {
         ))
     }
 
+    /// Derives the relative path for a snapshot or delta file. Returns an
+    /// error in case it would replace the notification file.
+    fn relative_for_file(&self, uri: &Https) -> Result<String> {
+        let relative = self.mappings.relative(uri)?;
+
+        if relative == self.notification_source.name()
+            || relative == self.notification_source.tmp_name()
+        {
+            Err(anyhow!("Uri {} is reserved for the notification file", uri))
+        } else {
+            Ok(relative)
+        }
+    }
+
     /// Update the snapshot, downloads it and checks the hash,
     /// and deprecates the old snapshot if it exists.
     fn snapshot_stage(
@@ -511,7 +525,7 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
+        let relative_name = self.relative_for_file(snapshot_info.uri())?;
         let target = config.staging_path(&relative_name);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
@@ -565,7 +579,7 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
+                let relative_path = self.relative_for_file(uri)?;
                 let target = config.staging_path(&relative_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
-- 
2.43.0


From 8c8dbcac6ad868606afefa9cdb468d475163c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 12/19] fix: do not accept revoked router certificates

The CRL was checked for CA certificates and signed objects only.
---
 src/validation/validator.rs | 69 +++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index dc88b5a..0eb98c6 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -340,48 +340,41 @@ impl Validator {
                     "cer" => {
                         match Cert::decode(object.bytes().clone()) {
                             Ok(child_cert) => {
-                                if child_cert.is_ca() {
+                                if crl.contains(child_cert.serial_number()) {
+                                    ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                        uri,
+                                        "certificate was revoked",
+                                    ));
+                                } else if child_cert.is_ca() {
                                     // This could be a CA certificate delegated to a child
-                                    if crl.contains(child_cert.serial_number()) {
-                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
-                                            uri,
-                                            "certificate was revoked",
-                                        ));
-                                    } else {
-                                        match child_cert.validate_ca_at(resource_cert, strict, when)
-                                        {
-                                            Ok(child_resource_cert) => {
-                                                match ValidatedCaCertInfo::try_from(
-                                                    &child_resource_cert,
-                                                ) {
-                                                    Ok(cert_info) => {
-                                                        ca_cert.add_child(ValidatedChild::new(
+                                    match child_cert.validate_ca_at(resource_cert, strict, when) {
+                                        Ok(child_resource_cert) => {
+                                            match ValidatedCaCertInfo::try_from(
+                                                &child_resource_cert,
+                                            ) {
+                                                Ok(cert_info) => {
+                                                    ca_cert.add_child(ValidatedChild::new(
+                                                        uri,
+                                                        cert_info.clone(),
+                                                    ));
+                                                    child_certificates
+                                                        .push((child_resource_cert, cert_info));
+                                                }
+                                                Err(e) => {
+                                                    ca_cert.add_issue(
+                                                        ValidationIssue::with_uri_and_msg(
                                                             uri,
-                                                            cert_info.clone(),
-                                                        ));
-                                                        child_certificates
-                                                            .push((child_resource_cert, cert_info));
-                                                    }
-                                                    Err(e) => {
-                                                        ca_cert.add_issue(
-                                                            ValidationIssue::with_uri_and_msg(
-                                                                uri,
-                                                                format!(
-                                                                    "certificate was invalid: {e}"
-                                                                ),
-                                                            ),
-                                                        );
-                                                    }
+                                                            format!("certificate was invalid: {e}"),
+                                                        ),
+                                                    );
                                                 }
                                             }
-                                            Err(e) => {
-                                                ca_cert.add_issue(
-                                                    ValidationIssue::with_uri_and_msg(
-                                                        uri,
-                                                        format!("certificate was invalid: {e}"),
-                                                    ),
-                                                );
-                                            }
+                                        }
+                                        Err(e) => {
+                                            ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                                uri,
+                                                format!("certificate was invalid: {e}"),
+                                            ));
                                         }
                                     }
                                 } else {
-- 
2.43.0


From 0ec85ba89963025fab2a228204b6f6cca8f208dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 13/19] fix: avoid an overflow for extreme --cleanup-after
 values

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fe75a5..8a661c1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -20,7 +20,7 @@ impl Time {
 
     pub fn seconds_ago(seconds: i64) -> Self {
         let mut now = Self::now();
-        now.0 -= seconds;
+        now.0 = now.0.saturating_sub(seconds);
         now
     }
 
-- 
2.43.0


From 98506c3304fc016c07ac47549f38cf6261670dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 14/19] fix: do not rewrite the rsync directory in use

If a run failed or was interrupted after it had switched to the new rsync
directory, then the next run rewrote all files of that directory while
it was in use, and left truncated files there if it failed as well.
---
 src/rsync.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 1c6f3df..e167d80 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -334,13 +334,22 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         let mut bytes: Vec<u8> = vec![];
         data.read_to_end(&mut bytes)?;
 
-        file_ops::write_buf(&path, &bytes).with_context(|| {
-            format!(
-                "Could not copy element for uri: {}, to path: {}",
-                uri,
-                path.to_string_lossy()
-            )
-        })?;
+        // If a previous run was interrupted after switching to this revision,
+        // then this file may be in use. Leave it alone if it is complete.
+        let complete = match file_ops::read_file(&path) {
+            Ok(existing) => existing == bytes,
+            Err(_) => false,
+        };
+
+        if !complete {
+            file_ops::write_buf(&path, &bytes).with_context(|| {
+                format!(
+                    "Could not copy element for uri: {}, to path: {}",
+                    uri,
+                    path.to_string_lossy()
+                )
+            })?;
+        }
 
         fix_since(&path, &bytes);
 
-- 
2.43.0


From b3d6d762af12a072343189a79c0e86b7d3ddd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 15/19] fix: do not copy over published files which are
 complete

If the staging and RRDP directories are on different file systems, then
a run following one that was interrupted after it had published the
notification file truncated files this notification refers to, while it
copied them again.
---
 src/file_ops.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 978ad82..2560937 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -72,14 +72,23 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
-            format!(
-                "Cannot copy file from {} to {}",
-                original_file.to_string_lossy(),
-                target_file.to_string_lossy()
-            )
-        })?;
+        // Move failed. Try to copy and delete instead. Leave the target file
+        // alone if it has the right content: it may be in use, and it would
+        // be incomplete while we are copying.
+        let complete = match (read_file(&original_file), read_file(&target_file)) {
+            (Ok(original), Ok(existing)) => original == existing,
+            _ => false,
+        };
+
+        if !complete {
+            std::fs::copy(&original_file, &target_file).with_context(|| {
+                format!(
+                    "Cannot copy file from {} to {}",
+                    original_file.to_string_lossy(),
+                    target_file.to_string_lossy()
+                )
+            })?;
+        }
 
         std::fs::remove_file(&original_file).with_context(|| {
             format!(
-- 
2.43.0


From f85428806fa759568df45276e1448c8eed0d72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:55 +0000
Subject: [PATCH 16/19] fix: always look at staged content for validation

---
 src/validation/validator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 0eb98c6..8b911e7 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -68,6 +68,13 @@ impl Validator {
     /// Ensure that the staged data is updated even if we are
     /// running in offline mode.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
+        // The staged content is new, so it must always be looked at. Even if
+        // the data for this repository was updated recently.
+        if let Some(data) = self.repositories.data.get_mut(&notify_uri.into()) {
+            data.fetched = false;
+            data.last_fetch = Time::utc(1970, 1, 1, 0, 0, 0);
+        }
+
         self.repositories
             .get_latest(notify_uri, false, Time::now())?;
         Ok(())
-- 
2.43.0


From 45d46a0d53a81567e7ccf887596995755048cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 17/19] fix: do not copy over a published file which cannot be
 read

---
 src/file_ops.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 2560937..c625c81 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -75,10 +75,8 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
         // Move failed. Try to copy and delete instead. Leave the target file
         // alone if it has the right content: it may be in use, and it would
         // be incomplete while we are copying.
-        let complete = match (read_file(&original_file), read_file(&target_file)) {
-            (Ok(original), Ok(existing)) => original == existing,
-            _ => false,
-        };
+        let complete =
+            target_file.exists() && read_file(&target_file)? == read_file(&original_file)?;
 
         if !complete {
             std::fs::copy(&original_file, &target_file).with_context(|| {
-- 
2.43.0


From 67ce3add713f5380d996bd9de00ea1fdca71078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:23 +0000
Subject: [PATCH 18/19] fix: clean up RRDP files only after the notification
 file and state are written

An interrupted run may have published files which the persisted state, and
so the next run, considers due for clean-up.
---
 src/process.rs | 11 +++++++++--
 src/rrdp.rs    | 13 +++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..d8d8cfc 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,8 +105,6 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -146,6 +144,15 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.persist(&config.rrdp_state_path())?;
 
+    // ===================================================================
+    // Clean up old files, deprecated for the configured time
+    // ===================================================================
+    //
+    // Do this last, so that no file is removed which the notification file
+    // or the persisted state refers to, even if we are interrupted.
+    rrdp_state.clean(config)?;
+    rrdp_state.persist(&config.rrdp_state_path())?;
+
     Ok(())
 }
 
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 961e03f..3264631 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -335,7 +335,6 @@ impl RrdpState {
 
     /// Apply staged changes.
     ///
-    /// - clean up old files, deprecated for the configured time
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
@@ -344,12 +343,6 @@ impl RrdpState {
         mut staged: StagedChanges,
         config: &Config,
     ) -> Result<()> {
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time. Do this
-        // first: the files deprecated below are still in use until the new
-        // notification file is written.
-        self.clean(config)?;
-
         // Move new snapshot and delta files.
         let staging_base_dir = config.staging_dir();
         let target_base_dir = &config.rrdp_dir;
@@ -397,7 +390,11 @@ impl RrdpState {
         Ok(())
     }
 
-    /// Cleans deprecated files and their parent directories if they are empty
+    /// Cleans deprecated files and their parent directories if they are empty.
+    ///
+    /// Only do this after the notification file was written for this state:
+    /// the files deprecated by it are in use until then, and so may be files
+    /// deprecated by an earlier run if it was interrupted.
     pub fn clean(&mut self, config: &Config) -> Result<()> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
-- 
2.43.0


From 6a2a3dad2b7b746c8c37720adaf6fdbb8d919a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:42 +0000
Subject: [PATCH 19/19] fix: place default directories under the state
 directory for every path

---
 src/config.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ce0f877..5e6eee4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -49,9 +49,10 @@ trait Replace {
 
 impl Replace for PathBuf {
     fn replace(&self, from_str: &str, to: &Path) -> PathBuf {
-        let to_str = format!("{}", to.display());
-        let self_str = format!("{}", self.display());
-        PathBuf::from(self_str.replace(from_str, &to_str))
+        match self.strip_prefix(from_str) {
+            Ok(rest) => to.join(rest),
+            Err(_) => self.clone(),
+        }
     }
 }
 
-- 
2.43.0

