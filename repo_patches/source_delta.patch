From 7f73bfa02e01460b0256fa81ec317ea35063a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 01/55] fix: tolerate blobs stored in more than one pack

Concurrent backups of the same data, or an interrupted backup followed by
rebuild-index, list a blob in two packs. Every command then refused to run.
Either copy is as good as the other.
---
 src/index.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 2face26..0fa177a 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -27,7 +27,7 @@ use std::sync::{
     mpsc::{Receiver, SyncSender},
 };
 
-use anyhow::{Context, Result, anyhow, bail, ensure};
+use anyhow::{Context, Result, anyhow, ensure};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde_derive::{Deserialize, Serialize};
 use tracing::*;
@@ -272,14 +272,12 @@ pub fn blob_to_pack_map(index: &Index) -> Result<BlobMap> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if let Some(other_pack) = mapping.insert(blob.id, *pack_id) {
-                // TODO: Should this just be a warning?
-                // This might happen in weird cases like concurrent backups
-                // but isn't a huge issue so long as the blobs are valid...
-                bail!(
+                // Concurrent backups of the same data, or an interrupted backup
+                // followed by rebuild-index, can store a blob more than once.
+                // Either copy will do.
+                debug!(
                     "Duplicate blob {} in pack {}, previously seen in pack {}",
-                    blob.id,
-                    pack_id,
-                    other_pack
+                    blob.id, pack_id, other_pack
                 );
             }
         }
@@ -296,8 +294,7 @@ pub fn blob_id_set(index: &Index) -> Result<FxHashSet<ObjectId>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if !blobs.insert(blob.id) {
-                // TODO: Ditto - just warn?
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
@@ -313,7 +310,7 @@ pub fn blob_to_size_map(index: &Index) -> Result<FxHashMap<ObjectId, u32>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if size_map.insert(blob.id, blob.length).is_some() {
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
-- 
2.43.0


From 41a7ace0c63c83fb8ce3818ec73b7852d1a8917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 02/55] fix: don't resume a backup or copy from an interrupted
 prune

The work-in-progress index prune leaves behind supersedes the repository's
indexes without listing all the packs still in use. A backup or copy run in the
same directory picked it up and uploaded it, hiding everything the superseded
indexes listed.
---
 src/backup.rs    | 18 +++++++++++++++++-
 src/ui/backup.rs |  2 +-
 src/ui/copy.rs   |  3 ++-
 src/ui/prune.rs  |  9 ++-------
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..9433e77 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -46,6 +46,7 @@
 //! packs (passing it to the indexer as a starting point), then feeds blobs from
 //! the partially-used packs to the packers for compaction. And so on, and so forth.
 
+use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
@@ -258,7 +259,16 @@ pub struct ResumableBackup {
 /// Backup will just upload the packfiles in the CWD and keep trucking.
 /// Prune will want to be more careful, since it's destructive.
 /// (Is the set of superseded packs the same? Are the packs to keep the same? Else chicken out.)
-pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<ResumableBackup>> {
+///
+/// `supersedes` is the set of indexes the caller's own index would supersede.
+/// (None for commands that only add data!)
+/// A WIP index with a different set was left by some other command.
+/// Its packs aren't enough to replace the indexes it wants to,
+/// so adding to it and uploading it would hide data that's still in use.
+pub fn find_resumable(
+    backend: &backend::CachedBackend,
+    supersedes: &BTreeSet<ObjectId>,
+) -> Result<Option<ResumableBackup>> {
     let wip_index = match index::read_wip()? {
         Some(i) => i,
         None => {
@@ -266,6 +276,12 @@ pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<Resumab
             return Ok(None);
         }
     };
+    // Are we superseding the same set of indexes?
+    // Hopefully a good hint that something else hasn't run between the WIP and now.
+    if wip_index.supersedes != *supersedes {
+        warn!("WIP index file supersedes a different set of indexes. Starting over.");
+        return Ok(None);
+    }
     info!("WIP index file found, resuming where we left off...");
 
     debug!("Looking for packfiles that haven't been uploaded...");
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..b05fd4c 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_resumable(&cached_backend, &BTreeSet::new())?.unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..46560cf 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::thread;
 
 use anyhow::Result;
@@ -89,7 +90,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_resumable(&dst_cached_backend, &BTreeSet::new())?.unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..1b5ce6b 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -126,7 +126,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
 
     // Now that we know what we want to do, it's a good time to see if we already had
     // something in progress, and if we can pick up there.
-    let maybe_resumable = backup::find_resumable(&cached_backend)?;
+    let maybe_resumable = backup::find_resumable(&cached_backend, &superseded)?;
     let mut packs_to_upload = vec![];
     if let Some(backup::ResumableBackup {
         wip_index,
@@ -134,13 +134,8 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
     }) = maybe_resumable
     {
         // Let's be very careful about what we pick up and run with since prune is destructive.
-        // Are we superseding the same set of indexes?
-        // Hopefully a good hint that something else hasn't run between the WIP and now.
-        if wip_index.supersedes != new_index.supersedes {
-            warn!("WIP index file supersedes a different set of indexes. Starting over.");
-        }
         // Is the WIP a superset of where we'd start out?
-        else if !wip_index
+        if !wip_index
             .packs
             .keys()
             .collect::<FxHashSet<_>>()
-- 
2.43.0


From a34befd5cb0d92caa4cc74b5cae529b0fcc96bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 03/55] fix: don't resume a prune that counts on packs about to
 be deleted

If another snapshot is forgotten between an interrupted prune and the next one,
packs the first meant to reuse can now be ones to repack or drop. The old
work-in-progress index still passed the checks and listed them, so their live
blobs weren't repacked and were then deleted.
---
 src/ui/prune.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 1b5ce6b..3066b47 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -142,6 +142,15 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Does it count on packs we'll delete? (Another snapshot might have been
+        // forgotten since, so packs it wanted to reuse now need repacking.)
+        else if wip_index
+            .packs
+            .keys()
+            .any(|id| packs_to_prune.contains_key(id))
+        {
+            warn!("WIP index file contains packs to prune. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
-- 
2.43.0


From 15002649db12fa89359a9e587249a582e2ed81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 04/55] fix: keep dry runs, rebuild-index and filter-snapshot
 off the WIP index

None of them resume, but all wrote or deleted backpak-wip.index. A dry run threw
away what an interrupted backup had left to resume from, and rebuild-index left
a stale WIP index behind for the next backup in that directory to trip over.
---
 src/backup.rs             | 21 ++++++++++++++++-----
 src/index.rs              |  8 ++++++--
 src/ui/backup.rs          |  1 +
 src/ui/copy.rs            |  1 +
 src/ui/filter_snapshot.rs |  1 +
 src/ui/prune.rs           |  1 +
 6 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 9433e77..4a49f2c 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -78,6 +78,7 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    resumable: index::Resumable,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -98,6 +99,11 @@ impl Backup<'_, '_> {
         drop(self.upload_tx);
         self.threads.join().unwrap();
 
+        // Not resumable? Any WIP index is some other run's.
+        if self.resumable == index::Resumable::No {
+            return Ok(());
+        }
+
         // If everything exited cleanly, we uploaded the new index.
         // We can axe the WIP one, which we kept around until now to make sure we're resumable.
         match fs::remove_file(index::WIP_NAME) {
@@ -115,6 +121,7 @@ impl Backup<'_, '_> {
 pub fn spawn_backup_threads<'scope, 'env>(
     s: &'scope thread::Scope<'scope, 'env>,
     mode: Mode,
+    resumable: index::Resumable,
     backend_config: &'env backend::Configuration,
     cached_backend: &'env backend::CachedBackend,
     starting_index: index::Index,
@@ -128,6 +135,12 @@ pub fn spawn_backup_threads<'scope, 'env>(
     // We can revisit this if profiling shows us spending a lot of time sleeping/waking
     // that could be eased by adding some slack in the channels.
 
+    let resumable = match mode {
+        Mode::LiveFire => resumable,
+        // Don't bother making WIP indexes for a dry run.
+        Mode::DryRun => index::Resumable::No,
+    };
+
     let (chunk_tx, chunk_rx) = sync_channel(0);
     let (tree_tx, tree_rx) = sync_channel(0);
     let (upload_tx, upload_rx) = sync_channel(0);
@@ -138,6 +151,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         .spawn_scoped(s, move || {
             backup_master_thread(
                 mode,
+                resumable,
                 chunk_rx,
                 tree_rx,
                 upload_tx2,
@@ -155,6 +169,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        resumable,
         threads,
     }
 }
@@ -162,6 +177,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
 #[expect(clippy::too_many_arguments)] // We know, sit down.
 fn backup_master_thread<'env>(
     mode: Mode,
+    resumable: index::Resumable,
     chunk_rx: Receiver<Blob>,
     tree_rx: Receiver<Blob>,
     upload_tx: SyncSender<(String, File)>,
@@ -221,11 +237,6 @@ fn backup_master_thread<'env>(
         (
             "indexer",
             Box::new(move || {
-                let resumable = match mode {
-                    Mode::LiveFire => index::Resumable::Yes,
-                    // Don't bother making WIP indexes for a dry run.
-                    Mode::DryRun => index::Resumable::No,
-                };
                 index::index(
                     resumable,
                     starting_index,
diff --git a/src/index.rs b/src/index.rs
index 0fa177a..4785ff0 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -67,7 +67,7 @@ impl Index {
 /// Saving a WIP index is the main machinery we have for resuming backups.
 /// But sometimes, especially when running rebuild-index,
 /// we already know about all the packs and just want to cram them in as quick as possible.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum Resumable {
     No,
     Yes,
@@ -110,8 +110,12 @@ pub fn index(
         }
     }
     // If we haven't been saving a WIP index, write it all out now.
+    // Stay clear of the WIP file - it's not ours if we're not resumable.
     if !index.is_empty() && resumable == Resumable::No {
-        persisted = Some(to_temp_file(&index)?);
+        let mut unnamed =
+            tempfile::tempfile_in(".").context("Couldn't open temporary index for writing")?;
+        let id = to_file(&mut unnamed, &index)?;
+        persisted = Some((id, unnamed));
     }
 
     if let Some((index_id, mut fh)) = persisted {
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index b05fd4c..4c98785 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -159,6 +159,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         let mut backup = spawn_backup_threads(
             s,
             bmode,
+            index::Resumable::Yes,
             &backend_config,
             &cached_backend,
             wip_index,
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index 46560cf..ce413b4 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -109,6 +109,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         let mut backup = backup::spawn_backup_threads(
             s,
             bmode,
+            index::Resumable::Yes,
             &dst_backend_config,
             &dst_cached_backend,
             wip_index,
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index a4793ef..52dfeeb 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -85,6 +85,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         let mut backup = backup::spawn_backup_threads(
             s,
             bmode,
+            index::Resumable::No,
             &backend_config,
             &cached_backend,
             Index::default(),
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 3066b47..0d6721e 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -175,6 +175,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         let mut backup = backup::spawn_backup_threads(
             s,
             bmode,
+            index::Resumable::Yes,
             &backend_config,
             &cached_backend,
             new_index,
-- 
2.43.0


From 2f11e6f68a51643094219f165bf157cb54e5b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/55] fix: don't create an index that is already superseded

Backing up data that was backed up before, then forgotten and pruned, produces
an index with the same contents, hence the same ID, as the one prune's index
supersedes. Every command ignored it, so the new snapshot couldn't be read.
---
 src/backup.rs             |  5 +++++
 src/index.rs              | 24 ++++++++++++++++++++----
 src/ui/backup.rs          |  1 +
 src/ui/copy.rs            |  1 +
 src/ui/filter_snapshot.rs |  1 +
 src/ui/prune.rs           |  1 +
 src/ui/rebuild_index.rs   |  1 +
 7 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 4a49f2c..383eb53 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -118,6 +118,7 @@ impl Backup<'_, '_> {
     }
 }
 
+#[expect(clippy::too_many_arguments)] // We know, sit down.
 pub fn spawn_backup_threads<'scope, 'env>(
     s: &'scope thread::Scope<'scope, 'env>,
     mode: Mode,
@@ -125,6 +126,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
     backend_config: &'env backend::Configuration,
     cached_backend: &'env backend::CachedBackend,
     starting_index: index::Index,
+    superseded: &'env BTreeSet<ObjectId>,
     statistics: &'env BackupStatistics,
 ) -> Backup<'scope, 'env> {
     // Channels are all handoffs holding no elements - this simplifies reasoning about:
@@ -160,6 +162,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 cached_backend,
                 statistics,
                 starting_index,
+                superseded,
             )
         })
         .unwrap();
@@ -186,6 +189,7 @@ fn backup_master_thread<'env>(
     cached_backend: &'env backend::CachedBackend,
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
+    superseded: &'env BTreeSet<ObjectId>,
 ) {
     // ALL THE CONCURRENCY
 
@@ -240,6 +244,7 @@ fn backup_master_thread<'env>(
                 index::index(
                     resumable,
                     starting_index,
+                    superseded,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index 4785ff0..4835ce0 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -75,9 +75,12 @@ pub enum Resumable {
 
 /// Gather metadata for completed packs from `rx` into an index file,
 /// and upload the index files when they reach a sufficient size.
+///
+/// `superseded` lists indexes that others in the repository supersede, if any.
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
+    superseded: &BTreeSet<ObjectId>,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -112,10 +115,17 @@ pub fn index(
     // If we haven't been saving a WIP index, write it all out now.
     // Stay clear of the WIP file - it's not ours if we're not resumable.
     if !index.is_empty() && resumable == Resumable::No {
-        let mut unnamed =
-            tempfile::tempfile_in(".").context("Couldn't open temporary index for writing")?;
-        let id = to_file(&mut unnamed, &index)?;
-        persisted = Some((id, unnamed));
+        persisted = Some(to_unnamed_file(&index)?);
+    }
+
+    // Indexes are named by their contents, so backing up the same data that was
+    // once backed up, forgotten, and pruned gives the same index again!
+    // Everybody would ignore it (it's superseded, after all), so make it a new one.
+    while let Some((id, _)) = &persisted
+        && superseded.contains(id)
+    {
+        index.supersedes.insert(*id);
+        persisted = Some(to_unnamed_file(&index)?);
     }
 
     if let Some((index_id, mut fh)) = persisted {
@@ -155,6 +165,12 @@ pub fn index(
     }
 }
 
+fn to_unnamed_file(index: &Index) -> Result<(ObjectId, File)> {
+    let mut fh = tempfile::tempfile_in(".").context("Couldn't open temporary index for writing")?;
+    let id = to_file(&mut fh, index)?;
+    Ok((id, fh))
+}
+
 fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
     // Could we speed things up by reusing the same file handle instead of
     // opening, writing, and closing each time we update the WIP index file?
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 4c98785..dfc4866 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -163,6 +163,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             wip_index,
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index ce413b4..aa8dfca 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -113,6 +113,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &dst_backend_config,
             &dst_cached_backend,
             wip_index,
+            &dst_index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index 52dfeeb..be1f32c 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -89,6 +89,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             Index::default(),
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 0d6721e..102ed1c 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -179,6 +179,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &backend_config,
             &cached_backend,
             new_index,
+            &index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index c0b1052..2de025b 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -51,6 +51,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         index::index(
             index::Resumable::No,
             replacing,
+            &BTreeSet::new(),
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From 677af3b08966bd268937f1f2a90877969a2fc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 06/55] fix: size snapshots that contain empty directories

Backups don't store the empty tree, so it's in no index, and `snapshots --sizes`
and `usage` failed on any snapshot with an empty directory.
---
 src/tree.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..613b6b0 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::fs;
 use std::sync::{Arc, LazyLock};
 
-use anyhow::{Context, Result, anyhow, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use jiff::Timestamp;
 use rustc_hash::{FxHashMap, FxHashSet};
@@ -547,10 +547,12 @@ fn tree_size(
         .ok_or_else(|| anyhow!("Missing tree {tree_id}"))
         .unwrap();
 
-    let ts = size_map
-        .get(tree_id)
-        .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
-    let ts = *ts as u64;
+    let ts = match size_map.get(tree_id) {
+        Some(ts) => *ts as u64,
+        // See ui/backup.rs: the empty tree usually isn't stored.
+        None if *tree_id == *EMPTY_ID => 0,
+        None => bail!("Couldn't find tree {tree_id} to get size"),
+    };
     s.tree_bytes += ts;
     if visited_blobs.insert(*tree_id) {
         s.introduced += ts;
-- 
2.43.0


From 67b666828fa06db1fc828983d911637b26f7a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 07/55] fix: read a blob that is both a chunk and a tree

Blobs are deduplicated by ID alone, so when a file's contents are those of a
tree (a file with the single byte 0xA0 and an empty directory, say), only one of
them is stored. Reading the other panicked or failed.
---
 src/read.rs |  8 +++-----
 src/tree.rs | 10 ++++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index a0e38b5..d7f43af 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -192,12 +192,10 @@ impl<'a> ChunkReader<'a> {
         let mut bytes_read = 0;
         let mut blob_buf = vec![];
         for entry in manifest {
+            // A file can hold the same bytes as a tree, in which case they're one blob.
+            // Don't care what it's called, so long as the hash is right.
             if entry.blob_type != blob::Type::Chunk {
-                warn!(
-                    "Tree {} found in pack where we expected only chunks",
-                    entry.id
-                );
-                continue;
+                debug!("Reading tree {} as a chunk", entry.id);
             }
 
             blob_buf.clear();
diff --git a/src/tree.rs b/src/tree.rs
index 613b6b0..0c89a0b 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -418,6 +418,16 @@ impl<'a> Cache<'a> {
 
         pack::append_to_forest(&mut pack_containing_tree, manifest, &mut self.tree_cache)?;
 
+        // A file can hold the same bytes as a tree, in which case they're one blob.
+        // If the file was backed up first, that blob is called a chunk.
+        if !self.tree_cache.contains_key(id) {
+            let mut pack_containing_tree = self.pack_cache.read_pack(pack_id)?;
+            let (_entry, bytes) = pack::extract_blob(&mut pack_containing_tree, id, manifest)?;
+            let tree: Tree = ciborium::from_reader(bytes.as_slice())
+                .with_context(|| format!("CBOR decoding of tree {id} failed"))?;
+            self.tree_cache.insert(*id, Arc::new(tree));
+        }
+
         self.tree_cache
             .get(id)
             .ok_or_else(|| anyhow!("Tree {} missing from pack {}", id, pack_id))
-- 
2.43.0


From ce5e07bc0b87ebbb81eb75143e01b65c84407c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 08/55] fix: restore to paths that are gone or are dangling
 symlinks

Restoring to a snapshot's own paths failed unless all of them still existed.
Restoring several paths to a directory followed a dangling symlink in the place
of one, creating files wherever it pointed.
---
 src/ui/restore.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..502d623 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -236,7 +236,7 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                .filter(|p| there_already(p))
                 .collect();
 
             fs_tree::forest_from_fs(
@@ -257,9 +257,17 @@ fn load_fs_tree_and_mapping<'a>(
             "Restoring snapshot {} to its paths, {:?}",
             id, snapshot.paths
         );
+        // Same deal - walk what's there.
+        let paths = snapshot
+            .paths
+            .iter()
+            .filter(|p| there_already(p))
+            .cloned()
+            .collect();
+
         let (fs_id, fs_forest) = fs_tree::forest_from_fs(
             tree::Symlink::Read, // See above
-            &snapshot.paths,
+            &paths,
             Some(&snapshot.tree),
             snapshot_forest,
         )?;
@@ -279,6 +287,11 @@ fn load_fs_tree_and_mapping<'a>(
     }
 }
 
+/// Is there something at the given path, even if it's just a dangling symlink?
+fn there_already(p: &Utf8Path) -> bool {
+    fs::symlink_metadata(p).is_ok()
+}
+
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
     Timespec {
-- 
2.43.0


From 41ee93302613f3006c7a44316066bdfa9a99f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 09/55] fix: restore times before 1970

---
 src/ui/restore.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 502d623..3054ffc 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -294,10 +294,15 @@ fn there_already(p: &Utf8Path) -> bool {
 
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
-    Timespec {
-        tv_sec: t.as_second(),
-        tv_nsec: t.subsec_nanosecond() as i64,
+    // The seconds are truncated towards zero, so before 1970 the nanoseconds are negative.
+    // utimensat() doesn't take those; round down.
+    let mut tv_sec = t.as_second();
+    let mut tv_nsec = t.subsec_nanosecond() as i64;
+    if tv_nsec < 0 {
+        tv_sec -= 1;
+        tv_nsec += 1_000_000_000;
     }
+    Timespec { tv_sec, tv_nsec }
 }
 
 struct Restorer<'a> {
-- 
2.43.0


From 81bcf4bc3e7f48c81d434f0bf194702e84818ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 10/55] fix: don't look past a symlink when dumping

Given a path through a symlink, dump printed the link, then looked for the rest
of the path next to it and could print some other file.
---
 src/ui/dump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/dump.rs b/src/ui/dump.rs
index 0ec62c1..04b4e94 100644
--- a/src/ui/dump.rs
+++ b/src/ui/dump.rs
@@ -84,7 +84,11 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 }
             }
             tree::NodeContents::Symlink { target } => {
-                dump_symlink(target, &path_so_far, &args.output)?;
+                if is_last_component {
+                    dump_symlink(target, &path_so_far, &args.output)?;
+                } else {
+                    bail!("{path_so_far} is a symlink, not a directory");
+                }
             }
             tree::NodeContents::File { chunks } => {
                 if is_last_component {
-- 
2.43.0


From 42de7bc3929b451e484db0cbbeddfd07dacd1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 11/55] fix: don't panic on LAST~N with a huge N

---
 src/snapshot.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index b747d96..350c169 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -259,12 +259,15 @@ pub fn find<'a>(
         let index = match groups[..] {
             [_, None, None] => 0,
             [_, Some(_), None] => 1,
-            [_, None, Some(n)] => n.as_str().parse().unwrap(),
+            [_, None, Some(n)] => n
+                .as_str()
+                .parse::<usize>()
+                .with_context(|| format!("{prefix} goes back too far"))?,
             _ => unreachable!(),
         };
         match chronological_snapshots.iter().rev().nth(index) {
             Some(found) => return Ok(found),
-            None => bail!("Don't have {} snapshots yet", index + 1),
+            None => bail!("Don't have more than {index} snapshots yet"),
         };
     }
 
-- 
2.43.0


From 256f5ed164bae15802441704c5b3d7a994213e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 12/55] fix: order snapshots with the same time the same way
 every run

Snapshots load in parallel, so which of several with the same time was LAST
depended on the threads. Naming one twice and another in between also defeated
the deduplication of arguments, and forget failed half way.
---
 src/snapshot.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 350c169..2aa6b65 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -229,10 +229,16 @@ pub fn load_chronologically_with_total_size(
             }
         });
     let mut snapshots = concurrently::map_concurrently(get_snapshots);
-    snapshots.sort_by_key(|(snap, _)| snap.time.timestamp());
+    snapshots.sort_by_key(chronological_key);
     Ok((snapshots, total.load(Ordering::SeqCst)))
 }
 
+/// Snapshots can share a timestamp (filter-snapshot can keep the original's).
+/// Break ties by ID so that there's exactly one order.
+fn chronological_key((snap, id): &(Snapshot, ObjectId)) -> (Timestamp, ObjectId) {
+    (snap.time.timestamp(), *id)
+}
+
 /// Find a given snapshot and its ID from the loaded chronological list
 pub fn find<'a>(
     chronological_snapshots: &'a [(Snapshot, ObjectId)],
@@ -299,7 +305,7 @@ pub fn from_args_list(
         desired_snaps.push((s.clone(), *i));
     }
     // Take whatever the user asked for and make it chronological with no duplicates.
-    desired_snaps.sort_by_key(|(snap, _)| snap.time.timestamp());
+    desired_snaps.sort_by_key(chronological_key);
     desired_snaps.dedup_by(|(_, id1), (_, id2)| id1 == id2);
     Ok(desired_snaps)
 }
-- 
2.43.0


From 18c06bd5f3dace1d92f786f6b7d74660cecde18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 13/55] fix: wake a waiting thread on every semaphore release

With two threads waiting, two releases in a row woke only one: the second saw a
count above zero and skipped the wake-up. The other thread could sleep forever.
---
 src/semaphored.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..28ec68c 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,12 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit
+        //
+        // Do this even if the count was positive before:
+        // if two guards are dropped in a row while two threads sleep,
+        // the first only wakes one of them.
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From edaf7c68029fd8658eab4965ef2a36bcf197a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 14/55] fix: don't panic if an unfilter command exits before
 its feeding thread

The thread that wrote the last bytes may not have returned yet when the
command's output ends. Joining it is enough.
---
 src/backend/filter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..1100a6c 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -59,7 +59,6 @@ impl Read for UnfilterRead {
 
             // Make sure we actually fed all the bytes into the filter program.
             let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
             copy_thread.join().expect("unfilter-copy thread aborted")?;
         }
 
-- 
2.43.0


From 0e7b38ca1d1b88328e9354d38977fafa8ce2fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 15/55] fix: run all backup threads at once on machines with
 few cores

The packers, the indexer and the uploader hand their results to each other, but
were started only as the number of physical cores allowed. With fewer than four,
those running waited forever for one that couldn't start.
---
 src/concurrently.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..98b0864 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,21 @@ where
     })
 }
 
+/// [`concurrently`] with names, for functions that hand things to each other.
+///
+/// All of them run at once, however few CPUs there are.
+/// Otherwise those running could wait forever on one that hasn't started.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From eec277ef7aeddc19f2e8a179bd9f8a40e3c1dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 16/55] fix: sync copied files before giving them their final
 name

---
 src/file_util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 09a14fe..8d6f2f2 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -131,12 +131,14 @@ pub fn safe_copy_to_file<R: Read>(mut from: R, to: &Utf8Path) -> Result<File> {
         .with_context(|| format!("Couldn't write to {temp_path}"))?;
     drop(from);
 
+    // Sync before renaming; otherwise a crash could leave us with a partial `to`.
+    to_fh
+        .as_file()
+        .sync_all()
+        .with_context(|| format!("Couldn't sync {temp_path}"))?;
     let persisted = to_fh
         .persist(to)
         .with_context(|| format!("Couldn't persist {temp_path} to {to}"))?;
-    persisted
-        .sync_all()
-        .with_context(|| format!("Couldn't sync {to}"))?;
 
     Ok(persisted)
 }
-- 
2.43.0


From 5c79460b1711e25390d7d785f1b462abd789b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 17/55] fix: prune replaces only the indexes it has read

---
 src/index.rs    | 14 ++++++++------
 src/ui/prune.rs | 13 ++++---------
 src/ui/usage.rs |  4 ++--
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 4835ce0..00b5c23 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -210,22 +210,24 @@ fn to_file(fh: &mut fs::File, index: &Index) -> Result<ObjectId> {
 /// Load all indexes from the provided backend and combines them into a master
 /// index, removing any superseded ones.
 pub fn build_master_index(cached_backend: &backend::CachedBackend) -> Result<Index> {
-    build_master_index_with_sizes(cached_backend).map(|(mi, _ts)| mi)
+    build_master_index_with_loaded(cached_backend).map(|(mi, _l)| mi)
 }
 
-/// [`build_master_index`] plus the size for each loaded index.
+/// [`build_master_index`] plus the ID and size of each loaded index (superseded ones too).
 ///
 /// Nice for usage reporting, since it saves us another backend query.
-pub fn build_master_index_with_sizes(
+/// And anything that wants to replace the loaded indexes should replace _these_,
+/// not whatever another query turns up: someone else could've uploaded more since.
+pub fn build_master_index_with_loaded(
     cached_backend: &backend::CachedBackend,
-) -> Result<(Index, Vec<u64>)> {
+) -> Result<(Index, BTreeMap<ObjectId, u64>)> {
     info!("Building a master index");
 
     #[derive(Debug, Default)]
     struct Results {
         superseded_indexes: BTreeSet<ObjectId>,
         loaded_indexes: BTreeMap<ObjectId, PackMap>,
-        sizes: Vec<u64>,
+        sizes: BTreeMap<ObjectId, u64>,
     }
 
     let shared = Mutex::new(Results::default());
@@ -239,7 +241,7 @@ pub fn build_master_index_with_sizes(
                 let index_id = backend::id_from_path(&index_file)?;
                 let mut loaded_index = load(&index_id, cached_backend)?;
                 let mut guard = s.lock().unwrap();
-                guard.sizes.push(index_len);
+                guard.sizes.insert(index_id, index_len);
                 guard
                     .superseded_indexes
                     .append(&mut loaded_index.supersedes);
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 102ed1c..7168fb5 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -44,7 +44,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
-    let index = index::build_master_index(&cached_backend)?;
+    let (index, loaded_indexes) = index::build_master_index_with_loaded(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
     let snapshots = snapshot::load_chronologically(&cached_backend)?;
@@ -77,14 +77,9 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         return Ok(());
     }
 
-    // TODO: Should build_master_index() return some set of all packs read
-    // so we don't have to traverse the backend twice?
-    let superseded = cached_backend
-        .list_indexes()?
-        .iter()
-        .map(|(idx, _idx_len)| idx)
-        .map(backend::id_from_path)
-        .collect::<Result<BTreeSet<ObjectId>>>()?;
+    // Only replace indexes we read. Another could've shown up since
+    // (from somebody else's backup), and we know nothing about its packs.
+    let superseded: BTreeSet<ObjectId> = loaded_indexes.into_keys().collect();
 
     // `[ObjectId] -> String` helper for logs below
     fn idlist<S: ToString, I: Iterator<Item = S>>(p: I) -> String {
diff --git a/src/ui/usage.rs b/src/ui/usage.rs
index ad278fc..735ce4f 100644
--- a/src/ui/usage.rs
+++ b/src/ui/usage.rs
@@ -12,7 +12,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
-    let (index, index_sizes) = index::build_master_index_with_sizes(&cached_backend)?;
+    let (index, index_sizes) = index::build_master_index_with_loaded(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
     let size_map = index::blob_to_size_map(&index)?;
@@ -74,7 +74,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
     }
     let all_packs = cached_backend.list_packs()?;
     let pack_size = super::check::warn_on_unreachable_packs(&index, &all_packs)?;
-    let index_size = index_sizes.iter().sum();
+    let index_size = index_sizes.values().sum();
 
     let backend_kind = match backend_config.kind {
         backend::Kind::Filesystem { .. } => "Filesystem",
-- 
2.43.0


From eb1f932bdbdefd1164d4d45c498a2f8d8f7b863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 18/55] fix: don't panic when a resumed backup has nothing new

---
 src/ui/backup.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index dfc4866..20a7265 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -213,12 +213,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     })?;
     if root == *tree::EMPTY_ID && !args.allow_empty {
         // We really did nothing, huh?
+        // (Well, nothing new. We might have uploaded what an interrupted run left.)
         assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
         assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
 
         info!("Nothing backed up! Pass --allow-empty to create an empty snapshot.");
         return Ok(());
@@ -251,13 +251,8 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     });
     match prev_but_now {
         Some(p) if p == snapshot => {
-            // We really did nothing, huh?
-            assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
-
+            // We almost certainly did nothing. But don't insist on it - we could have uploaded
+            // what an interrupted run left, or replaced packs the repository had lost.
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
         }
-- 
2.43.0


From a2739afd86b20bf73f1a36465b26bed123ebd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 19/55] fix: don't underflow when truncating long file names

---
 src/progress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/progress.rs b/src/progress.rs
index 6ecd7a2..1d1e139 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -201,7 +201,7 @@ pub fn truncate_path(p: &Utf8Path, term: &Term) -> String {
         // trim just the filename and print it.
         let back: Vec<_> = p.file_name().unwrap().graphemes(true).collect();
         if back.len() >= (w - 3) {
-            format!("...{}", back[back.len() - w + 3..].concat())
+            format!("...{}", back[back.len() + 3 - w..].concat())
         }
         // Otherwise try to get both the front and back of the file path.
         else {
-- 
2.43.0


From 4ea4406c3c8e8f81994bcd6d64ead603d7e640eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 20/55] fix: copy chunks out of mapped files before hashing
 them

---
 src/chunk.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 4386436..c956f53 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -115,8 +115,9 @@ impl ThreadedChunker {
         // Arbitrary-sized channels, but bust our usual "no buffering" rule -
         // the code that calls `chunk_file()` is only doing this once at a time,
         // and consuming these is the majority of our time.
+        // (Blobs hold copies, so don't let too many of those pile up.)
         let (cuts_tx, cuts_rx) = mpsc::sync_channel(128);
-        let (blobs_tx, blobs_rx) = mpsc::sync_channel(128);
+        let (blobs_tx, blobs_rx) = mpsc::sync_channel(16);
         let file2 = file.clone();
         thread::spawn(move || {
             for cut in new_cdc(file.bytes()) {
@@ -127,7 +128,7 @@ impl ThreadedChunker {
         });
         thread::spawn(move || {
             while let Ok(cut) = cuts_rx.recv() {
-                if blobs_tx.send(chunk_to_blob(file2.clone(), cut)).is_err() {
+                if blobs_tx.send(mapped_chunk_to_blob(&file2, cut)).is_err() {
                     break;
                 }
             }
@@ -175,6 +176,21 @@ fn chunk_to_blob(file: Arc<LoadedFile>, chunk: Chunk) -> Blob {
     }
 }
 
+/// Like [`chunk_to_blob()`], but copies the chunk out of the map before hashing it.
+///
+/// Anyone can write to the mapped file while we're backing it up,
+/// so bytes we hash now and pack later might not be the same bytes.
+fn mapped_chunk_to_blob(file: &LoadedFile, chunk: Chunk) -> Blob {
+    let bytes = file.bytes()[chunk.offset..chunk.offset + chunk.length].to_vec();
+    let id = ObjectId::hash(&bytes);
+
+    Blob {
+        contents: blob::Contents::Buffer(bytes),
+        id,
+        kind: blob::Type::Chunk,
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 0618e69b83cc4e0be36bca0835a011674a14e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 21/55] fix: list a repository that others are changing

---
 src/backend/fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backend/fs.rs b/src/backend/fs.rs
index da54923..b02c3c3 100644
--- a/src/backend/fs.rs
+++ b/src/backend/fs.rs
@@ -128,7 +128,13 @@ fn walk_dir(dir: &Utf8Path) -> io::Result<Vec<(Utf8PathBuf, u64)>> {
         if path.is_dir() {
             paths.append(&mut walk_dir(path)?);
         } else {
-            let len = entry.metadata()?.len();
+            let len = match entry.metadata() {
+                Ok(m) => m.len(),
+                // Somebody else could be working in the same repository;
+                // don't fail if they renamed or removed this since we read the directory.
+                Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                Err(e) => return Err(e),
+            };
             paths.push((path.to_owned(), len));
         }
     }
-- 
2.43.0


From 340a9c5abff9bb790ff403c191ef3e1a4b893fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 22/55] fix: don't panic on reading an unfiltered object past
 its end

---
 src/backend/filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index 1100a6c..2f89a33 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -58,8 +58,10 @@ impl Read for UnfilterRead {
             }
 
             // Make sure we actually fed all the bytes into the filter program.
-            let copy_thread = self.copy_thread.take().unwrap();
-            copy_thread.join().expect("unfilter-copy thread aborted")?;
+            // (Once is enough. Readers are free to ask again after we return 0.)
+            if let Some(copy_thread) = self.copy_thread.take() {
+                copy_thread.join().expect("unfilter-copy thread aborted")?;
+            }
         }
 
         Ok(res)
-- 
2.43.0


From 300a2763399bd3339d8aa1f1b8bd41c2878759ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 23/55] fix: don't panic on a pack of trees that ends early

---
 src/pack.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index c8244c5..02adee9 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -454,9 +454,11 @@ pub fn append_to_forest<R: Read + Seek>(
         };
         let entry_length = entry.length as u64;
         if skip {
-            assert_eq!(
-                entry_length,
-                io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?
+            let skipped = io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?;
+            ensure!(
+                skipped == entry_length,
+                "Pack ends inside blob {} ({skipped} of {entry_length} bytes)",
+                entry.id
             );
             continue;
         }
-- 
2.43.0


From 5d2b2bbc0ebdd278e663028a93df4522ad37dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 24/55] fix: don't panic on file times that can't be
 represented

---
 src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 0c89a0b..c3d218f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,8 +238,11 @@ pub fn get_metadata(symlink_behavior: Symlink, path: &Utf8Path) -> Result<NodeMe
     let size = (posix_kind(mode) == NodeType::File).then(|| meta.size());
     let user_id = meta.uid();
     let group_id = meta.gid();
-    let access_time = Timestamp::new(meta.atime(), meta.atime_nsec() as i32).unwrap();
-    let modify_time = Timestamp::new(meta.mtime(), meta.mtime_nsec() as i32).unwrap();
+    // Filesystems can hold times that are thousands of years outside of what we can.
+    let access_time = Timestamp::new(meta.atime(), meta.atime_nsec() as i32)
+        .with_context(|| format!("Bad access time for {path}"))?;
+    let modify_time = Timestamp::new(meta.mtime(), meta.mtime_nsec() as i32)
+        .with_context(|| format!("Bad modify time for {path}"))?;
 
     Ok(NodeMetadata::Posix(PosixMetadata {
         mode,
-- 
2.43.0


From 4e819f960a7e5a9cd53873e78d73ff14750ec1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 25/55] fix: don't panic when asked to back up /

---
 src/ui/backup.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 20a7265..e904872 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -4,7 +4,7 @@ use std::io;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::thread;
 
-use anyhow::{Context, Result, bail, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use clap::Parser;
 use console::Term;
@@ -334,7 +334,9 @@ fn reject_matching_directories(paths: &BTreeSet<Utf8PathBuf>) -> Result<()> {
     let mut dirnames: FxHashSet<&str> =
         FxHashSet::with_capacity_and_hasher(paths.len(), Default::default());
     for path in paths {
-        let dirname = path.file_name().expect("empty path");
+        let dirname = path
+            .file_name()
+            .ok_or_else(|| anyhow!("Backing up {path} itself isn't supported"))?;
         if !dirnames.insert(dirname) {
             bail!(
                 "Backups of directories with matching names ({dirname}/) isn't currently supported",
-- 
2.43.0


From 2700cb3ce070f05f68b1de3d33da10c105dd00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 26/55] fix: save snapshots made in a time zone without a name

---
 src/snapshot.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 2aa6b65..96ffd8c 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -107,9 +107,18 @@ struct SnapshotV2 {
 }
 
 fn diskfmt(s: &Snapshot) -> SnapshotV2 {
+    // The system's time zone doesn't have a name if, e.g., /etc/localtime isn't a symlink.
+    let named = jiff::fmt::temporal::DateTimePrinter::new()
+        .time_zone_to_string(s.time.time_zone())
+        .is_ok();
+    let tz = if named {
+        s.time.time_zone().clone()
+    } else {
+        TimeZone::fixed(s.time.offset())
+    };
     SnapshotV2 {
         time: s.time.timestamp(),
-        tz: s.time.time_zone().clone(),
+        tz,
         author: s.author.clone(),
         tags: s.tags.clone(),
         paths: s.paths.clone(),
-- 
2.43.0


From 73c1e53d0dd054850f419774a120c20f8e973a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 27/55] fix: give up on B2 requests that keep failing

---
 b2/src/lib.rs            | 18 ++++++++++++++++++
 src/backend/backblaze.rs |  8 +++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index a11e43d..e758621 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -16,6 +16,24 @@ pub enum Error {
     NotFound { what: String },
 }
 
+impl Error {
+    /// Could the same request succeed if it's made again?
+    pub fn is_transient(&self) -> bool {
+        match self {
+            // Assume IO errors are issues with our machine that won't resolve quickly.
+            Error::Io(_) => false,
+            // Too slow, too many requests, or the server is sad.
+            // Other codes (bad credentials, missing files) won't change.
+            Error::Http(e) => match **e {
+                ureq::Error::StatusCode(code) => matches!(code, 408 | 429 | 500..),
+                _ => true,
+            },
+            Error::UnexpectedResponse { .. } => true,
+            Error::NotFound { .. } => false,
+        }
+    }
+}
+
 impl From<ureq::Error> for Error {
     fn from(e: ureq::Error) -> Self {
         Self::Http(Box::new(e))
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index f15629d..df1064a 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -49,16 +49,18 @@ impl BackblazeBackend {
 
 // We could make the timeout configurable, make this generic across different errors, etc.
 fn retry<T, F: FnMut() -> b2::Result<T>>(mut f: F) -> b2::Result<T> {
+    const MAX_ATTEMPTS: usize = 10;
+
+    let mut attempt = 1;
     loop {
         match f() {
             Ok(k) => return Ok(k),
             Err(e) => {
-                // Assume IO errors are issues with our machine that won't resolve quickly,
-                // and everything else to be server-side, temporary sadness.
-                if matches!(e, b2::Error::Io(_)) {
+                if !e.is_transient() || attempt == MAX_ATTEMPTS {
                     return Err(e);
                 } else {
                     warn!("{e}, retrying");
+                    attempt += 1;
                     std::thread::sleep(std::time::Duration::from_secs(1));
                 }
             }
-- 
2.43.0


From 213c1e1e30f8600872cb9b13a8163d8b3716dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 28/55] fix: resend the whole file when retrying a B2 upload

---
 src/backend/backblaze.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index df1064a..2310e6b 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -75,7 +75,10 @@ impl Backend for BackblazeBackend {
     }
 
     fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        retry(|| self.session.put(to, len, from))?;
+        // Read it all in first, since a failed attempt could have used up some of the stream.
+        let mut contents = Vec::with_capacity(len as usize);
+        from.read_to_end(&mut contents)?;
+        retry(|| self.session.put(to, len, &mut contents.as_slice()))?;
         Ok(())
     }
 
-- 
2.43.0


From 52726b6b0c5c941e98007262ae223a872f8b49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 29/55] fix: delete all versions of a B2 file

---
 b2/src/lib.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index e758621..f6343c2 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -298,22 +298,24 @@ impl Session {
         if versions.is_empty() {
             return Err(where_name());
         }
-        if versions.len() != 1 {
-            return Err(unexpected(
-                &format!("found multiple versions of {name}"),
-                &lfv,
-            ));
-        }
-        let id = versions[0]["fileId"]
-            .as_str()
-            .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
 
-        ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
-            .header("Authorization", &self.token)
-            .send_json(json::json!({
-                "fileName": name,
-                "fileId": id
-            }))?;
+        // There's more than one version if we uploaded the file again
+        // because the response to the first upload was lost. They all go.
+        for version in versions {
+            if version["fileName"].as_str().is_some_and(|n| n != name) {
+                continue;
+            }
+            let id = version["fileId"]
+                .as_str()
+                .ok_or_else(|| unexpected(&format!("couldn't find ID for {name}"), &lfv))?;
+
+            ureq::post(&(self.url.clone() + "/b2api/v2/b2_delete_file_version"))
+                .header("Authorization", &self.token)
+                .send_json(json::json!({
+                    "fileName": name,
+                    "fileId": id
+                }))?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From 2e93e0ea14266105889c261254758e0d94605007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 30/55] fix: count a download as a connection until it ends

---
 src/backend/semaphored.rs | 29 +++++++++++++++++++++--------
 src/semaphored.rs         | 14 ++++++++------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index ee591ba..367d6e2 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -1,40 +1,53 @@
 use super::*;
 use crate::semaphored;
 
-use std::sync::atomic::AtomicU32;
+use std::sync::{Arc, atomic::AtomicU32};
 
 pub struct Semaphored<B> {
     inner: B,
-    count: AtomicU32,
+    count: Arc<AtomicU32>,
+}
+
+/// Still using its connection until it's dropped.
+struct SemaphoredRead {
+    inner: Box<dyn Read + Send + 'static>,
+    _sem: semaphored::SemaphoreGuard<Arc<AtomicU32>>,
+}
+
+impl Read for SemaphoredRead {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.inner.read(buf)
+    }
 }
 
 impl<B: Backend> Semaphored<B> {
     pub fn new(inner: B, concurrency: u32) -> Self {
         Self {
             inner,
-            count: AtomicU32::new(concurrency),
+            count: Arc::new(AtomicU32::new(concurrency)),
         }
     }
 }
 
 impl<B: Backend> Backend for Semaphored<B> {
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>> {
-        let _sem = semaphored::dec(&self.count);
-        self.inner.read(from)
+        let _sem = semaphored::dec(self.count.clone());
+        let inner = self.inner.read(from)?;
+        Ok(Box::new(SemaphoredRead { inner, _sem }))
     }
 
     fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.write(len, from, to)
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.remove(which)
     }
 
     fn list(&self, prefix: &str) -> Result<Vec<(String, u64)>> {
-        let _sem = semaphored::dec(&self.count);
+        let _sem = semaphored::dec(&*self.count);
         self.inner.list(prefix)
     }
 }
diff --git a/src/semaphored.rs b/src/semaphored.rs
index 28ec68c..cba9fbf 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -7,16 +7,18 @@
 //! We also might want to limit the number of concurrent filesystem threads
 //! done with [`concurrently`](super::concurrently)
 
+use std::ops::Deref;
 use std::sync::atomic::{AtomicU32, Ordering};
 
 use atomic_wait::*; // <3 Mara
 
 /// lmao how does the stdlib not have counting semaphores
-pub struct SemaphoreGuard<'a> {
-    count: &'a AtomicU32,
+/// (Takes a `&AtomicU32`, or an `Arc<AtomicU32>` if the guard must go places.)
+pub struct SemaphoreGuard<C: Deref<Target = AtomicU32>> {
+    count: C,
 }
 
-pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
+pub fn dec<C: Deref<Target = AtomicU32>>(count: C) -> SemaphoreGuard<C> {
     // Sanity check:
     // https://www.remlab.net/op/futex-misc.shtml
 
@@ -31,7 +33,7 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
             Err(actual) => {
                 if actual == 0 {
                     // I sleep
-                    wait(count, 0);
+                    wait(&count, 0);
                     // We're back, so at least one thread posted the semaphore
                     // (by dropping the guard) and we've got a positive count again.
                     // Assume only one thread did - if several beat us here, no worries,
@@ -49,7 +51,7 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
     SemaphoreGuard { count }
 }
 
-impl Drop for SemaphoreGuard<'_> {
+impl<C: Deref<Target = AtomicU32>> Drop for SemaphoreGuard<C> {
     fn drop(&mut self) {
         self.count.fetch_add(1, Ordering::Release);
         // real shit
@@ -57,6 +59,6 @@ impl Drop for SemaphoreGuard<'_> {
         // Do this even if the count was positive before:
         // if two guards are dropped in a row while two threads sleep,
         // the first only wakes one of them.
-        wake_one(self.count);
+        wake_one(&*self.count);
     }
 }
-- 
2.43.0


From 822dd3565d75924940e9fea165e7ae3d8db8b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 31/55] verif hook: let verification builds override the B2
 login URL

---
 b2/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index f6343c2..2d9b0ad 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -65,13 +65,24 @@ fn noredir() -> ureq::Agent {
     ureq::Agent::new_with_config(ureq::Agent::config_builder().max_redirects(0).build())
 }
 
+/// Where we log in (which tells us where to go from there).
+#[allow(unexpected_cfgs)]
+fn api_base() -> String {
+    // Verification builds can talk to a stand-in for B2.
+    #[cfg(backpak_verif)]
+    if let Ok(url) = std::env::var("BACKPAK_VERIF_B2_URL") {
+        return url;
+    }
+    "https://api.backblazeb2.com".to_string()
+}
+
 impl Session {
     pub fn new<S: Into<String>>(key_id: &str, application_key: &str, bucket: S) -> Result<Self> {
         let bucket = bucket.into();
 
         let creds = String::from(key_id) + ":" + application_key;
         let auth = String::from("Basic") + &BASE64_STANDARD.encode(creds);
-        let v: json::Value = ureq::get("https://api.backblazeb2.com/b2api/v3/b2_authorize_account")
+        let v: json::Value = ureq::get(api_base() + "/b2api/v3/b2_authorize_account")
             .header("Authorization", &auth)
             .call()?
             .body_mut()
-- 
2.43.0


From c206f8603d584ccdaa0c6e33b16454e00439456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 32/55] fix: let --allow-repeat repeat a snapshot

---
 src/ui/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index e904872..207a3b8 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -250,7 +250,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         s
     });
     match prev_but_now {
-        Some(p) if p == snapshot => {
+        Some(p) if p == snapshot && !args.allow_repeat => {
             // We almost certainly did nothing. But don't insist on it - we could have uploaded
             // what an interrupted run left, or replaced packs the repository had lost.
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
-- 
2.43.0


From 3ba7f4449d02b34dae9f4ee14f76b7c5d3f9c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 33/55] fix: don't restore through hard links

---
 src/ui/restore.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 3054ffc..10996cd 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -433,7 +433,7 @@ impl Restorer<'_> {
     ) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
-                let fh = File::create(node_path)
+                let fh = overwrite_file(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
 
@@ -454,6 +454,24 @@ impl Restorer<'_> {
     }
 }
 
+/// Truncate an existing file, or replace it if it's hard linked:
+/// whatever else shares its contents should stay as it is.
+fn overwrite_file(path: &Utf8Path) -> std::io::Result<File> {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+
+        let meta = fs::symlink_metadata(path)?;
+        if meta.nlink() > 1 {
+            fs::remove_file(path)?;
+            let fh = File::create(path)?;
+            fh.set_permissions(meta.permissions())?;
+            return Ok(fh);
+        }
+    }
+    File::create(path)
+}
+
 fn fill_file(mut fh: File, node: &Node, bl: &mut ChunkReader<'_>) -> Result<()> {
     let chunks = node.contents.chunks();
     for c in chunks {
-- 
2.43.0


From 5b03dfbc59f8cbd5ef0469de0c9eb295a09576fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 34/55] fix: tell apart symlink targets that only differ in
 spelling

---
 src/tree.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index c3d218f..955c6ea 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -31,7 +31,7 @@ pub enum Symlink {
 ///
 /// Files have chunks, and a directory has a subtree representing
 /// everything in that subdirectory.
-#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[derive(Debug, Clone, Eq, Serialize, Deserialize)]
 // If we give the field in each variant a unique name then flatten this
 // into the node, we'll get:
 //     "FileName": { "chunks": [...], "metadata": {...}},
@@ -53,6 +53,19 @@ pub enum NodeContents {
     },
 }
 
+impl PartialEq for NodeContents {
+    fn eq(&self, other: &Self) -> bool {
+        use NodeContents::*;
+        match (self, other) {
+            (File { chunks: l }, File { chunks: r }) => l == r,
+            (Directory { subtree: l }, Directory { subtree: r }) => l == r,
+            // Compare strings: paths compare by component, so a//b and a/./b would be the same.
+            (Symlink { target: l }, Symlink { target: r }) => l.as_str() == r.as_str(),
+            _ => false,
+        }
+    }
+}
+
 impl NodeContents {
     // Convenience methods for when we know the type already.
 
-- 
2.43.0


From d471c216474a9ceebe26c23311859dfd33aded37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 35/55] fix: don't replace indexes when a prune fails midway

---
 src/backup.rs           | 12 +++++++++++-
 src/index.rs            | 13 ++++++++++++-
 src/ui/rebuild_index.rs |  6 +++++-
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 383eb53..8899eea 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -50,7 +50,8 @@ use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
-    atomic::AtomicU64,
+    Arc,
+    atomic::{AtomicBool, AtomicU64, Ordering},
     mpsc::{Receiver, SyncSender, sync_channel},
 };
 use std::thread;
@@ -79,6 +80,7 @@ pub struct Backup<'scope, 'env> {
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
     resumable: index::Resumable,
+    complete: Arc<AtomicBool>,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -94,6 +96,8 @@ impl Backup<'_, '_> {
     /// Convenience function to join the threads
     /// assuming the channels haven't been moved out.
     pub fn join(self) -> Result<()> {
+        // Only now has everything been sent. (On errors we're dropped without getting here.)
+        self.complete.store(true, Ordering::Release);
         drop(self.chunk_tx);
         drop(self.tree_tx);
         drop(self.upload_tx);
@@ -147,6 +151,8 @@ pub fn spawn_backup_threads<'scope, 'env>(
     let (tree_tx, tree_rx) = sync_channel(0);
     let (upload_tx, upload_rx) = sync_channel(0);
     let upload_tx2 = upload_tx.clone();
+    let complete = Arc::new(AtomicBool::new(false));
+    let complete2 = complete.clone();
 
     let threads = thread::Builder::new()
         .name(String::from("backup master"))
@@ -163,6 +169,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 statistics,
                 starting_index,
                 superseded,
+                &complete2,
             )
         })
         .unwrap();
@@ -173,6 +180,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         upload_tx,
         statistics,
         resumable,
+        complete,
         threads,
     }
 }
@@ -190,6 +198,7 @@ fn backup_master_thread<'env>(
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
     superseded: &'env BTreeSet<ObjectId>,
+    complete: &AtomicBool,
 ) {
     // ALL THE CONCURRENCY
 
@@ -245,6 +254,7 @@ fn backup_master_thread<'env>(
                     resumable,
                     starting_index,
                     superseded,
+                    complete,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index 00b5c23..28c4713 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -23,7 +23,7 @@ use std::fs::{self, File};
 use std::io::prelude::*;
 use std::sync::{
     Mutex,
-    atomic::{AtomicU64, Ordering},
+    atomic::{AtomicBool, AtomicU64, Ordering},
     mpsc::{Receiver, SyncSender},
 };
 
@@ -77,10 +77,14 @@ pub enum Resumable {
 /// and upload the index files when they reach a sufficient size.
 ///
 /// `superseded` lists indexes that others in the repository supersede, if any.
+///
+/// `complete` is set once everything has been sent without trouble.
+/// If it isn't, an index that's meant to replace others lacks some of what they hold.
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
     superseded: &BTreeSet<ObjectId>,
+    complete: &AtomicBool,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -112,6 +116,13 @@ pub fn index(
             persisted = Some(to_temp_file(&index)?);
         }
     }
+    // Something failed before everything was sent?
+    // Don't replace other indexes with whatever we got so far!
+    if !index.supersedes.is_empty() && !complete.load(Ordering::Acquire) {
+        warn!("Not everything was indexed; keeping previous indexes");
+        return Ok(false);
+    }
+
     // If we haven't been saving a WIP index, write it all out now.
     // Stay clear of the WIP file - it's not ours if we're not resumable.
     if !index.is_empty() && resumable == Resumable::No {
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index 2de025b..ac6c0ae 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -1,5 +1,8 @@
 use std::collections::BTreeSet;
-use std::sync::{atomic::AtomicU64, mpsc::sync_channel};
+use std::sync::{
+    atomic::{AtomicBool, AtomicU64},
+    mpsc::sync_channel,
+};
 use std::thread;
 
 use anyhow::{Context, Result, ensure};
@@ -52,6 +55,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
             index::Resumable::No,
             replacing,
             &BTreeSet::new(),
+            &AtomicBool::new(true), // Trouble reading packs ends the program.
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From f97b50d2d64b42aa17b26630d390ac947f3710cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:03 +0000
Subject: [PATCH 36/55] fix: don't show the new file's sizes on what it
 replaced

snapshots --stat --file-sizes looked sizes up by path alone, so where a file
took the place of a directory or symlink, the removed entry was printed with
the new file's sizes.
---
 src/ui/snapshots.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ui/snapshots.rs b/src/ui/snapshots.rs
index 0af1e79..a41c140 100644
--- a/src/ui/snapshots.rs
+++ b/src/ui/snapshots.rs
@@ -500,7 +500,10 @@ impl PrintDiffs<'_> {
             assert!(plen <= self.pad);
             let pad: String = " ".repeat(self.pad - plen);
             print!("{p}{pad}");
-            if let Some(s) = sizes.get(path) {
+            // Sizes are for what's in the snapshot now; something else might've been removed there.
+            if prefix != " - "
+                && let Some(s) = sizes.get(path)
+            {
                 print!(
                     " | {} new, {} reused",
                     nice_size(s.introduced),
-- 
2.43.0


From 157d6c4b1780a80ebb9d44fb1b03f41234f92f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 37/55] fix: dry runs don't touch packs and indexes an
 interrupted run left in the working directory

---
 src/backup.rs           |  7 +++++--
 src/index.rs            | 12 ++++++++++++
 src/pack.rs             | 40 ++++++++++++++++++++++++++++++++++------
 src/ui/rebuild_index.rs | 11 ++++++-----
 src/upload.rs           |  5 +++--
 5 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 8899eea..27af998 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -224,7 +224,8 @@ fn backup_master_thread<'env>(
         (
             "chunk packer",
             Box::new(move || {
-                pack::pack(
+                pack::pack_with_mode(
+                    umode,
                     pack_size,
                     chunk_rx,
                     chunk_index_tx,
@@ -237,7 +238,8 @@ fn backup_master_thread<'env>(
         (
             "tree packer",
             Box::new(move || {
-                pack::pack(
+                pack::pack_with_mode(
+                    umode,
                     pack_size,
                     tree_rx,
                     tree_index_tx,
@@ -251,6 +253,7 @@ fn backup_master_thread<'env>(
             "indexer",
             Box::new(move || {
                 index::index(
+                    umode,
                     resumable,
                     starting_index,
                     superseded,
diff --git a/src/index.rs b/src/index.rs
index 28c4713..cba55f7 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -38,6 +38,7 @@ use crate::counters;
 use crate::file_util::{check_magic, nice_size};
 use crate::hashing::{HashingReader, HashingWriter, ObjectId};
 use crate::pack::{PackManifest, PackMetadata};
+use crate::upload;
 
 const MAGIC_BYTES: &[u8] = b"MKBAKIDX1";
 
@@ -80,7 +81,12 @@ pub enum Resumable {
 ///
 /// `complete` is set once everything has been sent without trouble.
 /// If it isn't, an index that's meant to replace others lacks some of what they hold.
+///
+/// Dry runs don't give the index its name in the working directory.
+/// There might be one there already, left by an interrupted run.
+#[expect(clippy::too_many_arguments)] // We know, sit down.
 pub fn index(
+    mode: upload::Mode,
     resumable: Resumable,
     starting_index: Index,
     superseded: &BTreeSet<ObjectId>,
@@ -149,6 +155,12 @@ pub fn index(
         // It's not a big deal; indexes are small.
         fh.seek(std::io::SeekFrom::Start(0))?;
         let index_name = format!("{}.index", index_id);
+        if mode == upload::Mode::DryRun {
+            to_upload
+                .send((index_name, fh))
+                .context("indexer -> uploader channel exited early")?;
+            return Ok(true);
+        }
         let mut renamed = fs::OpenOptions::new()
             .create(true)
             .truncate(true)
diff --git a/src/pack.rs b/src/pack.rs
index 02adee9..6e62741 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -36,6 +36,7 @@ use crate::file_util::{self, nice_size};
 use crate::hashing::{HashingReader, ObjectId};
 use crate::progress::AtomicCountWrite;
 use crate::tree;
+use crate::upload;
 
 pub const MAGIC_BYTES: &[u8] = b"MKBAKPAK1";
 
@@ -78,6 +79,29 @@ pub fn pack(
     to_upload: SyncSender<(String, File)>,
     total_bytes_packed: &AtomicU64,
     total_bytes_compressed: &AtomicU64,
+) -> Result<()> {
+    pack_with_mode(
+        upload::Mode::LiveFire,
+        target_size,
+        rx,
+        to_index,
+        to_upload,
+        total_bytes_packed,
+        total_bytes_compressed,
+    )
+}
+
+/// [`pack()`], but a dry run leaves the working directory alone:
+/// finished packs are never given their names, since there might be one there already
+/// (from an interrupted run that could be resumed).
+pub fn pack_with_mode(
+    mode: upload::Mode,
+    target_size: Byte,
+    rx: Receiver<Blob>,
+    to_index: SyncSender<PackMetadata>,
+    to_upload: SyncSender<(String, File)>,
+    total_bytes_packed: &AtomicU64,
+    total_bytes_compressed: &AtomicU64,
 ) -> Result<()> {
     let target_size = target_size.as_u64();
     let mut writer = PackfileWriter::new(total_bytes_compressed)?;
@@ -169,7 +193,7 @@ pub fn pack(
         }
 
         if end_pack {
-            let (metadata, persisted) = writer.finalize()?;
+            let (metadata, persisted) = writer.finalize(mode)?;
             let finalized_path = format!("{}.pack", metadata.id);
 
             to_upload
@@ -186,7 +210,7 @@ pub fn pack(
         }
     }
     if bytes_in_pack > 0 {
-        let (metadata, persisted) = writer.finalize()?;
+        let (metadata, persisted) = writer.finalize(mode)?;
         let finalized_path = format!("{}.pack", metadata.id);
         to_upload
             .send((finalized_path, persisted))
@@ -262,7 +286,8 @@ impl<'a> PackfileWriter<'a> {
 
     /// Finalize the packfile, returning the manifest & ID with a handle to
     /// the persisted file (so that the uploader doesn't have to reopen it).
-    fn finalize(self) -> Result<(PackMetadata, File)> {
+    /// (Dry runs have no use for the file; theirs isn't persisted.)
+    fn finalize(self, mode: upload::Mode) -> Result<(PackMetadata, File)> {
         let (manifest, id) = serialize_and_hash(&self.manifest)?;
 
         // Finish the compression stream for blobs and trees.
@@ -286,9 +311,12 @@ impl<'a> PackfileWriter<'a> {
         // All done! Sync, persist, and go home.
         fh.as_file().sync_all()?;
         let pack_name = format!("{}.pack", id);
-        let persisted = fh
-            .persist(&pack_name)
-            .with_context(|| format!("Couldn't persist finished pack to {}", pack_name))?;
+        let persisted = match mode {
+            upload::Mode::LiveFire => fh
+                .persist(&pack_name)
+                .with_context(|| format!("Couldn't persist finished pack to {}", pack_name))?,
+            upload::Mode::DryRun => fh.into_file(),
+        };
 
         Ok((
             PackMetadata {
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index ac6c0ae..c28fe59 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -49,9 +49,15 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     let (pack_tx, pack_rx) = sync_channel(num_cpus::get_physical());
     let (upload_tx, upload_rx) = sync_channel(0);
 
+    let umode = if args.dry_run {
+        upload::Mode::DryRun
+    } else {
+        upload::Mode::LiveFire
+    };
     let indexed_packs = AtomicU64::new(0); // TODO: Progress CLI!
     let indexer = thread::spawn(move || {
         index::index(
+            umode,
             index::Resumable::No,
             replacing,
             &BTreeSet::new(),
@@ -80,11 +86,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     concurrently::concurrently(read_packs);
     drop(pack_tx);
 
-    let umode = if args.dry_run {
-        upload::Mode::DryRun
-    } else {
-        upload::Mode::LiveFire
-    };
     upload::upload(umode, &cached_backend, upload_rx)?;
 
     // NB: Before deleting the old indexes, we make sure the new one's been written.
diff --git a/src/upload.rs b/src/upload.rs
index 21febd3..0527e2c 100644
--- a/src/upload.rs
+++ b/src/upload.rs
@@ -8,6 +8,7 @@ use anyhow::Result;
 
 use crate::backend;
 
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub enum Mode {
     DryRun,
     LiveFire,
@@ -22,9 +23,9 @@ pub fn upload(
         match mode {
             Mode::LiveFire => cached_backend.write(&path, fh)?,
             Mode::DryRun => {
-                // Just axe it, it isn't going anywhere.
+                // Just close it, it isn't going anywhere.
+                // (It was never given its name, so there's nothing to remove.)
                 drop(fh);
-                std::fs::remove_file(path)?;
             }
         };
     }
-- 
2.43.0


From af18f0c615665f2c5b601fc3a02764d6a70569ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:48 +0000
Subject: [PATCH 38/55] fix: don't replace indexes when the last pack of a
 prune can't be written

---
 src/backup.rs           | 31 ++++++++++++++++++++-----------
 src/index.rs            | 10 +++++-----
 src/ui/rebuild_index.rs |  4 ++--
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 27af998..80fff1c 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -51,7 +51,7 @@ use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
     Arc,
-    atomic::{AtomicBool, AtomicU64, Ordering},
+    atomic::{AtomicU32, AtomicU64, Ordering},
     mpsc::{Receiver, SyncSender, sync_channel},
 };
 use std::thread;
@@ -80,7 +80,7 @@ pub struct Backup<'scope, 'env> {
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
     resumable: index::Resumable,
-    complete: Arc<AtomicBool>,
+    unfinished: Arc<AtomicU32>,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -97,7 +97,7 @@ impl Backup<'_, '_> {
     /// assuming the channels haven't been moved out.
     pub fn join(self) -> Result<()> {
         // Only now has everything been sent. (On errors we're dropped without getting here.)
-        self.complete.store(true, Ordering::Release);
+        self.unfinished.fetch_sub(1, Ordering::Release);
         drop(self.chunk_tx);
         drop(self.tree_tx);
         drop(self.upload_tx);
@@ -151,8 +151,9 @@ pub fn spawn_backup_threads<'scope, 'env>(
     let (tree_tx, tree_rx) = sync_channel(0);
     let (upload_tx, upload_rx) = sync_channel(0);
     let upload_tx2 = upload_tx.clone();
-    let complete = Arc::new(AtomicBool::new(false));
-    let complete2 = complete.clone();
+    // Whoever's sending us things, and both packers.
+    let unfinished = Arc::new(AtomicU32::new(3));
+    let unfinished2 = unfinished.clone();
 
     let threads = thread::Builder::new()
         .name(String::from("backup master"))
@@ -169,7 +170,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 statistics,
                 starting_index,
                 superseded,
-                &complete2,
+                &unfinished2,
             )
         })
         .unwrap();
@@ -180,7 +181,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         upload_tx,
         statistics,
         resumable,
-        complete,
+        unfinished,
         threads,
     }
 }
@@ -198,7 +199,7 @@ fn backup_master_thread<'env>(
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
     superseded: &'env BTreeSet<ObjectId>,
-    complete: &AtomicBool,
+    unfinished: &AtomicU32,
 ) {
     // ALL THE CONCURRENCY
 
@@ -224,6 +225,8 @@ fn backup_master_thread<'env>(
         (
             "chunk packer",
             Box::new(move || {
+                // The indexer mustn't run out of packs before it can tell if we're done.
+                let _to_index = chunk_index_tx.clone();
                 pack::pack_with_mode(
                     umode,
                     pack_size,
@@ -232,12 +235,16 @@ fn backup_master_thread<'env>(
                     chunk_pack_upload_tx,
                     chunk_bytes,
                     comp_bytes,
-                )
+                )?;
+                unfinished.fetch_sub(1, Ordering::Release);
+                Ok(())
             }),
         ),
         (
             "tree packer",
             Box::new(move || {
+                // The indexer mustn't run out of packs before it can tell if we're done.
+                let _to_index = tree_index_tx.clone();
                 pack::pack_with_mode(
                     umode,
                     pack_size,
@@ -246,7 +253,9 @@ fn backup_master_thread<'env>(
                     tree_pack_upload_tx,
                     tree_bytes,
                     comp_bytes,
-                )
+                )?;
+                unfinished.fetch_sub(1, Ordering::Release);
+                Ok(())
             }),
         ),
         (
@@ -257,7 +266,7 @@ fn backup_master_thread<'env>(
                     resumable,
                     starting_index,
                     superseded,
-                    complete,
+                    unfinished,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index cba55f7..6df3a7d 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -23,7 +23,7 @@ use std::fs::{self, File};
 use std::io::prelude::*;
 use std::sync::{
     Mutex,
-    atomic::{AtomicBool, AtomicU64, Ordering},
+    atomic::{AtomicU32, AtomicU64, Ordering},
     mpsc::{Receiver, SyncSender},
 };
 
@@ -79,8 +79,8 @@ pub enum Resumable {
 ///
 /// `superseded` lists indexes that others in the repository supersede, if any.
 ///
-/// `complete` is set once everything has been sent without trouble.
-/// If it isn't, an index that's meant to replace others lacks some of what they hold.
+/// `unfinished` counts those who have yet to send something, or who failed to.
+/// If there are any left, an index that's meant to replace others lacks some of what they hold.
 ///
 /// Dry runs don't give the index its name in the working directory.
 /// There might be one there already, left by an interrupted run.
@@ -90,7 +90,7 @@ pub fn index(
     resumable: Resumable,
     starting_index: Index,
     superseded: &BTreeSet<ObjectId>,
-    complete: &AtomicBool,
+    unfinished: &AtomicU32,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -124,7 +124,7 @@ pub fn index(
     }
     // Something failed before everything was sent?
     // Don't replace other indexes with whatever we got so far!
-    if !index.supersedes.is_empty() && !complete.load(Ordering::Acquire) {
+    if !index.supersedes.is_empty() && unfinished.load(Ordering::Acquire) != 0 {
         warn!("Not everything was indexed; keeping previous indexes");
         return Ok(false);
     }
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index c28fe59..71c6207 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 use std::sync::{
-    atomic::{AtomicBool, AtomicU64},
+    atomic::{AtomicU32, AtomicU64},
     mpsc::sync_channel,
 };
 use std::thread;
@@ -61,7 +61,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
             index::Resumable::No,
             replacing,
             &BTreeSet::new(),
-            &AtomicBool::new(true), // Trouble reading packs ends the program.
+            &AtomicU32::new(0), // Trouble reading packs ends the program.
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From 52c1a1673a7e5ee6b97025a0e534741f60384b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 39/55] fix: wait for other processes using the cache

---
 src/backend/cache.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 0dc23ac..b7b5d62 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -2,12 +2,14 @@ use std::{
     fs::{self, File},
     io::prelude::*,
     sync::Mutex,
+    thread,
+    time::{Duration, Instant},
 };
 
 use anyhow::{Context, Result, anyhow, bail};
 use byte_unit::Byte;
 use camino::{Utf8Path, Utf8PathBuf};
-use rusqlite::Connection;
+use rusqlite::{Connection, TransactionBehavior};
 
 use crate::counters::{Op, bump};
 use crate::file_util;
@@ -32,13 +34,19 @@ pub struct Cache {
 // 1G. Make this configurable with global settings (~/.config/backpak?)
 pub const DEFAULT_SIZE: Byte = Byte::GIBIBYTE;
 
+/// How long to wait for other processes to be done with the database
+const BUSY_TIMEOUT: Duration = Duration::from_secs(60);
+
 impl Cache {
     /// Create a cache given the database connection - let users handle the creation
     /// to make it easy to pass in `Connection::open_in_memory()`, etc.
     pub fn new(dir: &Utf8Path, cache_size: Byte) -> Result<Self> {
         let mut conn = Connection::open(dir.join("cache_metadata.sqlite"))?;
+        conn.busy_timeout(BUSY_TIMEOUT)?;
 
-        let t = conn.transaction()?;
+        // Lock it from the start: if we only did so once we write,
+        // and another process got there first, we couldn't wait for it to finish.
+        let t = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
         let ver: i32 = t.query_row("PRAGMA user_version", (), |r| r.get(0))?;
         if ver < 1 {
             t.execute(
@@ -62,7 +70,19 @@ impl Cache {
         t.execute("PRAGMA user_version=1", ())?;
         t.commit()?;
 
-        let jm: String = conn.query_row("PRAGMA journal_mode=wal", (), |r| r.get(0))?;
+        // SQLite doesn't wait for other processes here, so do it ourselves.
+        let patience = Instant::now() + BUSY_TIMEOUT;
+        let jm: String = loop {
+            match conn.query_row("PRAGMA journal_mode=wal", (), |r| r.get(0)) {
+                Err(e)
+                    if e.sqlite_error_code() == Some(rusqlite::ErrorCode::DatabaseBusy)
+                        && Instant::now() < patience =>
+                {
+                    thread::sleep(Duration::from_millis(10))
+                }
+                otherwise => break otherwise?,
+            }
+        };
         // The journal mode could be memory if this is an in-memory DB for unit tests.
         assert!(jm == "wal" || jm == "memory", "sqlite: Couldn't set WAL");
 
@@ -143,7 +163,7 @@ impl Cache {
     pub fn prune(&self) -> Result<()> {
         // We want this all to be atomic.
         let mut c = self.conn.lock().unwrap();
-        let transaction = c.transaction()?;
+        let transaction = c.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         // Get the max cache size.
         let max_size: i64 =
-- 
2.43.0


From a2c3a2a84544730627a7c47196f2433d32f4bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:54 +0000
Subject: [PATCH 40/55] fix: keep the cache within its size

---
 src/backend/cache.rs | 50 +++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index b7b5d62..00e9613 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -171,43 +171,37 @@ impl Cache {
                 r.get(0)
             })?;
 
+        if max_size <= 0 {
+            bail!("Absurd: zero-size cache");
+        }
+
         // Find least-recently used entries that exceed our cache size.
+        // (Keep the latest one even if it does so all by itself.)
         let mut statement =
-            transaction.prepare("SELECT name, time, size FROM cache ORDER BY time DESC")?;
-        let mut times_and_sizes = statement.query(())?;
+            transaction.prepare("SELECT name, size FROM cache ORDER BY time DESC")?;
+        let mut names_and_sizes = statement.query(())?;
 
         let mut acc = 0i64;
-        let mut oldest_that_fits = None;
-        while acc < max_size {
-            match times_and_sizes.next()? {
-                Some(row) => {
-                    let t: i64 = row.get(1)?;
-                    let s: i64 = row.get(2)?;
-                    oldest_that_fits = Some(t);
-                    acc += s;
-                }
-                None => {
-                    // The whole cache fits. We're done.
-                    return Ok(());
-                }
-            }
-        }
-        // Delete files older than this
-        while let Some(row) = times_and_sizes.next()? {
+        let mut first = true;
+        let mut spilled = vec![];
+        while let Some(row) = names_and_sizes.next()? {
             let name: String = row.get(0)?;
-            bump(Op::BackendCacheSpill);
-            self.delete_if_exists(&name)?;
+            let size: i64 = row.get(1)?;
+            acc = acc.saturating_add(size);
+            if acc > max_size && !first {
+                spilled.push(name);
+            }
+            first = false;
         }
-        drop(times_and_sizes);
+        drop(names_and_sizes);
         drop(statement);
 
-        // Delete those least-recently used entries that are too big.
-        if let Some(o) = oldest_that_fits {
-            transaction.execute("DELETE FROM cache WHERE time < ?1", [o])?;
-            transaction.commit()?;
-        } else {
-            bail!("Absurd: zero-size cache");
+        for name in &spilled {
+            bump(Op::BackendCacheSpill);
+            self.delete_if_exists(name)?;
+            transaction.execute("DELETE FROM cache WHERE name == ?1", [name])?;
         }
+        transaction.commit()?;
 
         Ok(())
     }
-- 
2.43.0


From 1e09c14b4fc783bc70dcd2b7997a2990ec56066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 41/55] fix: don't record cache entries that were just evicted

---
 src/backend/cache.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 00e9613..223569b 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -101,7 +101,7 @@ impl Cache {
     pub fn try_read(&self, name: &str) -> Result<Option<File>> {
         match File::open(self.directory.join(name)) {
             Ok(fd) => {
-                self.bump_row(name, fd.metadata()?.len())?;
+                self.bump_row(name)?;
                 Ok(Some(fd))
             }
             Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
@@ -122,22 +122,33 @@ impl Cache {
     pub fn insert<R: Read>(&self, name: &str, contents: R) -> Result<File> {
         let to = self.directory.join(name);
         let cached = file_util::safe_copy_to_file(contents, &to)?;
-        self.bump_row(name, cached.metadata()?.len())?;
+        self.bump_row(name)?;
         Ok(cached)
     }
 
     pub fn insert_file(&self, name: &str, f: File) -> Result<File> {
         let to = self.directory.join(name);
         let cached = file_util::move_opened(name, f, to)?;
-        self.bump_row(name, cached.metadata()?.len())?;
+        self.bump_row(name)?;
         Ok(cached)
     }
 
-    fn bump_row(&self, name: &str, size: u64) -> Result<()> {
-        self.conn.lock().unwrap().execute(
-            "REPLACE INTO cache(name, time, size) VALUES (?1, ?2, ?3)",
-            (name, now_nanos(), size as i64),
-        )?;
+    /// Note that `name` was just used - if it's still there.
+    /// (Somebody else might have just made room for other files!)
+    fn bump_row(&self, name: &str) -> Result<()> {
+        let mut c = self.conn.lock().unwrap();
+        let t = c.transaction_with_behavior(TransactionBehavior::Immediate)?;
+        match fs::metadata(self.directory.join(name)) {
+            Ok(m) => t.execute(
+                "REPLACE INTO cache(name, time, size) VALUES (?1, ?2, ?3)",
+                (name, now_nanos(), m.len() as i64),
+            )?,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
+                t.execute("DELETE FROM cache WHERE name == ?1", [name])?
+            }
+            Err(e) => bail!(e),
+        };
+        t.commit()?;
         Ok(())
     }
 
-- 
2.43.0


From a64c74c3f8b4215998cd1b88e86ef3615569f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 42/55] fix: report that Windows permissions can't be restored
 instead of panicking

---
 src/ui/restore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 10996cd..9d403a7 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -5,7 +5,7 @@ use std::{
     sync::Arc,
 };
 
-use anyhow::{Context, Result, anyhow};
+use anyhow::{Context, Result, anyhow, bail};
 use camino::{Utf8Path, Utf8PathBuf};
 use clap::Parser;
 use jiff::Timestamp;
@@ -364,7 +364,9 @@ impl Restorer<'_> {
             use std::os::unix::fs::PermissionsExt;
             let permissions = match &node.metadata {
                 NodeMetadata::Posix(p) => fs::Permissions::from_mode(p.mode),
-                NodeMetadata::Windows(_w) => todo!("Windows -> Posix perms mapping"),
+                NodeMetadata::Windows(_w) => {
+                    bail!("Can't restore permissions of {node_path}: it was backed up on Windows")
+                }
             };
             trace!("chmod {:o} {node_path}", permissions.mode());
             fs::set_permissions(node_path, permissions)
-- 
2.43.0


From 84f6b2ef94e054bf9da6f50216c77b2958627643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 43/55] fix: keep trees as they are when pruning

---
 src/repack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/repack.rs b/src/repack.rs
index f7f21c1..afd7cdd 100644
--- a/src/repack.rs
+++ b/src/repack.rs
@@ -234,7 +234,13 @@ where
     // Serialize and hash it to find out.
     // (Again, we could have a separate "we didn't filter anything" path,
     // but it doesn't seem worth it at the moment.)
-    let (serialized, new_tree_id) = tree::serialize_and_hash(&new_tree)?;
+    let (mut serialized, mut new_tree_id) = tree::serialize_and_hash(&new_tree)?;
+    // Pruning doesn't filter anything, and snapshots will still look for this very tree.
+    // If somebody else serialized it some other way, keep it like that.
+    if op == Op::Prune && new_tree_id != *tree_id {
+        serialized = (*reader.read_blob(tree_id)?).clone();
+        new_tree_id = *tree_id;
+    }
     // If we don't have this tree, new or old, in the backup, add it.
     if packed_blobs.insert(new_tree_id) {
         backup.tree_tx.send(blob::Blob {
-- 
2.43.0


From 6b89d406001a7ba7b5295ee540e257e7eacb3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:58 +0000
Subject: [PATCH 44/55] fix: check the end of each pack's blob stream

---
 src/pack.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pack.rs b/src/pack.rs
index 6e62741..02803da 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -353,6 +353,12 @@ pub fn verify<R: Read + Seek>(
         blobs_read.fetch_add(1, Ordering::Relaxed);
     }
 
+    // Read past the last blob so that zstd sees the end of the stream (and checks its checksum).
+    // Depending on how they're buffered, others' reads of the last blob might.
+    decoder
+        .read(&mut [0])
+        .context("Decompression of blob stream failed")?;
+
     // Attempting to read the manifest from CBOR
     // without the correct `take()` length produces errors.
     // Should we rearrange the file so that isn't a problem?
-- 
2.43.0


From b498240db7693efe102f940457265c0b883348c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 45/55] fix: read snapshots before indexes, so that backups
 finishing meanwhile can be read

---
 src/ui/backup.rs          | 3 ++-
 src/ui/check.rs           | 8 ++++++--
 src/ui/copy.rs            | 3 ++-
 src/ui/diff.rs            | 3 ++-
 src/ui/filter_snapshot.rs | 3 ++-
 src/ui/restore.rs         | 3 ++-
 src/ui/usage.rs           | 5 +++--
 7 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 207a3b8..a6a4036 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -118,11 +118,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         backend::CacheBehavior::Normal,
     )?;
 
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
     info!("Finding a parent snapshot");
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let parent = parent_snapshot(&paths, &snapshots);
     let parent = parent.as_ref();
 
diff --git a/src/ui/check.rs b/src/ui/check.rs
index 328adc9..45f25ac 100644
--- a/src/ui/check.rs
+++ b/src/ui/check.rs
@@ -50,6 +50,8 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         backend::CacheBehavior::AlwaysRead,
     )?;
 
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let all_snapshots = cached_backend.list_snapshots()?;
     let index = index::build_master_index(&cached_backend)?;
 
     info!("Downloading pack list");
@@ -119,6 +121,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
 
     // Map the chunks that belong in each snapshot.
     let chunks_to_snapshots = map_chunks_to_snapshots(
+        &all_snapshots,
         &cached_backend,
         &mut tree::Cache::new(&index, &blob_map, &cached_backend),
     )?;
@@ -195,13 +198,14 @@ pub fn warn_on_unreachable_packs(index: &index::Index, all_packs: &[(String, u64
 
 /// Maps all reachable chunks to the set of snapshots that use them
 fn map_chunks_to_snapshots(
+    all_snapshots: &[(String, u64)],
     cached_backend: &backend::CachedBackend,
     tree_cache: &mut tree::Cache,
 ) -> Result<FxHashMap<ObjectId, FxHashSet<ObjectId>>> {
     let mut chunks_to_snapshots = FxHashMap::default();
 
-    for (snapshot_path, _snapshot_len) in cached_backend.list_snapshots()? {
-        let snapshot_id = backend::id_from_path(&snapshot_path)?;
+    for (snapshot_path, _snapshot_len) in all_snapshots {
+        let snapshot_id = backend::id_from_path(snapshot_path)?;
         let snapshot = snapshot::load(&snapshot_id, cached_backend)?;
 
         let snapshot_tree = tree::forest_from_root(&snapshot.tree, tree_cache)?;
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index aa8dfca..b304c91 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -61,10 +61,11 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_index = index::build_master_index(&src_cached_backend)?;
     let src_blob_map = index::blob_to_pack_map(&src_index)?;
 
-    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_snapshots = if args.target.all {
         src_snapshots
     } else {
diff --git a/src/ui/diff.rs b/src/ui/diff.rs
index bf8d86a..3cd2671 100644
--- a/src/ui/diff.rs
+++ b/src/ui/diff.rs
@@ -51,11 +51,12 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot1, id1) = snapshot::find(&snapshots, &args.first_snapshot)?;
     let snapshot1_forest = tree::forest_from_root(&snapshot1.tree, &mut tree_cache)?;
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index be1f32c..6d89d13 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -55,10 +55,11 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (target, target_id) = snapshot::find(&chrono_snapshots, &args.target_snapshot)?;
 
     let snapshot_and_forest = repack::load_forest(
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 9d403a7..b3f099a 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -99,10 +99,11 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot, id) = snapshot::find(&snapshots, &args.restore_from)?;
     let snapshot_forest = tree::forest_from_root(
         &snapshot.tree,
diff --git a/src/ui/usage.rs b/src/ui/usage.rs
index 735ce4f..de6da94 100644
--- a/src/ui/usage.rs
+++ b/src/ui/usage.rs
@@ -12,6 +12,9 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Read snapshots before indexes: a backup finishing meanwhile writes them in the other order.
+    let (snapshots, snapshot_size) =
+        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     let (index, index_sizes) = index::build_master_index_with_loaded(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
@@ -20,8 +23,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
     let mut reachable_blobs = FxHashSet::default();
     let reachable_blob_size;
 
-    let (snapshots, snapshot_size) =
-        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     if snapshots.is_empty() {
         reachable_blob_size = 0u64;
         println!("0 snapshots");
-- 
2.43.0


From 2afd46dd0bc041c949e85ae6e3feae364de8e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:23 +0000
Subject: [PATCH 46/55] fix: don't take redirects from B2 for success

---
 b2/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index 2d9b0ad..10ccec8 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -65,6 +65,16 @@ fn noredir() -> ureq::Agent {
     ureq::Agent::new_with_config(ureq::Agent::config_builder().max_redirects(0).build())
 }
 
+/// With redirects off they're returned like any other response,
+/// but nothing was listed, read, or stored.
+fn succeeded<B>(r: ureq::http::Response<B>) -> Result<ureq::http::Response<B>> {
+    if r.status().is_success() {
+        Ok(r)
+    } else {
+        Err(ureq::Error::StatusCode(r.status().as_u16()).into())
+    }
+}
+
 /// Where we log in (which tells us where to go from there).
 #[allow(unexpected_cfgs)]
 fn api_base() -> String {
@@ -196,7 +206,7 @@ impl Session {
                 req = req.query("startFileName", sn);
             }
 
-            let lfn = req.call()?.body_mut().read_json()?;
+            let lfn = succeeded(req.call()?)?.body_mut().read_json()?;
 
             let bad = |s| unexpected(s, &lfn);
 
@@ -231,7 +241,7 @@ impl Session {
             .header("Authorization", &self.token)
             .call()?;
 
-        Ok(r.into_body().into_reader())
+        Ok(succeeded(r)?.into_body().into_reader())
     }
 
     pub fn put(&self, name: &str, len: u64, contents: &mut dyn Read) -> Result<()> {
@@ -282,7 +292,7 @@ impl Session {
 
         let mut hr = HashAppendingReader::new(contents);
 
-        noredir()
+        let r = noredir()
             .post(&self.upload_url)
             .header("Authorization", &self.upload_token)
             .header("Content-Length", &(len + 40).to_string()) // SHA1 is 40 hex digits long.
@@ -290,6 +300,7 @@ impl Session {
             .header("Content-Type", "b2/x-auto") // Go ahead and guess
             .header("X-Bz-Content-Sha1", "hex_digits_at_end")
             .send(ureq::SendBody::from_reader(&mut hr))?;
+        succeeded(r)?;
 
         Ok(())
     }
@@ -301,7 +312,7 @@ impl Session {
             .query("bucketId", &self.bucket_id)
             .query("prefix", name);
 
-        let lfv = req.call()?.body_mut().read_json()?;
+        let lfv = succeeded(req.call()?)?.body_mut().read_json()?;
         let where_name = || unexpected(&format!("couldn't find {name}"), &lfv);
 
         let versions = lfv["files"].as_array().ok_or_else(where_name)?;
-- 
2.43.0


From c98e6089965a7964d2f33e94e90819c58eeb2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:44 +0000
Subject: [PATCH 47/55] fix: refuse configurations with no connections to B2

---
 src/backend.rs           | 5 +++--
 src/backend/backblaze.rs | 3 ++-
 src/ui/init.rs           | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/backend.rs b/src/backend.rs
index 53f15d9..1da9e37 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -3,6 +3,7 @@
 
 use std::fs::File;
 use std::io::{self, prelude::*};
+use std::num::NonZeroU32;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use anyhow::{Context, Result, anyhow, bail, ensure};
@@ -42,7 +43,7 @@ pub enum Kind {
         key_id: String,
         application_key: String,
         bucket: String,
-        concurrent_connections: u32,
+        concurrent_connections: NonZeroU32,
     }, // ...?
 }
 
@@ -406,7 +407,7 @@ pub fn open(
                     concurrent_connections,
                 } => Box::new(semaphored::Semaphored::new(
                     backblaze::BackblazeBackend::open(key_id, application_key, bucket)?,
-                    *concurrent_connections,
+                    concurrent_connections.get(),
                 )),
             };
 
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index 2310e6b..f828ca5 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -1,6 +1,7 @@
 use super::*;
 
 use std::fs;
+use std::num::NonZeroU32;
 
 use anyhow::Result;
 use b2::Session;
@@ -18,7 +19,7 @@ pub fn initialize(
     key_id: String,
     application_key: String,
     bucket: String,
-    concurrent_connections: u32,
+    concurrent_connections: NonZeroU32,
 ) -> Result<()> {
     let c = super::Configuration {
         pack_size,
diff --git a/src/ui/init.rs b/src/ui/init.rs
index 88ab51f..488a4bd 100644
--- a/src/ui/init.rs
+++ b/src/ui/init.rs
@@ -1,5 +1,6 @@
 use std::{
     io::prelude::*,
+    num::NonZeroU32,
     process::{self, Stdio},
 };
 
@@ -41,8 +42,8 @@ enum Command {
         application_key: String,
         #[clap(short, long)]
         bucket: String,
-        #[clap(short, long, default_value_t = 4)]
-        concurrent_connections: u32,
+        #[clap(short, long, default_value = "4")]
+        concurrent_connections: NonZeroU32,
     },
 }
 
-- 
2.43.0


From b78fda2564f114db46c3b31027764aead2e2c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 48/55] fix: retry logging in to B2

---
 src/backend/backblaze.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index f828ca5..a518049 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -43,7 +43,7 @@ pub fn initialize(
 
 impl BackblazeBackend {
     pub fn open(key_id: &str, application_key: &str, bucket: &str) -> Result<Self> {
-        let session = Session::new(key_id, application_key, bucket)?;
+        let session = retry(|| Session::new(key_id, application_key, bucket))?;
         Ok(Self { session })
     }
 }
-- 
2.43.0


From ecea38c87765dc1a7d3cf83e770e24878bcec6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:33 +0000
Subject: [PATCH 49/55] fix: don't fail to remove from B2 what an earlier
 attempt removed

---
 b2/src/lib.rs            | 11 +++++++----
 src/backend/backblaze.rs | 10 +++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/b2/src/lib.rs b/b2/src/lib.rs
index 10ccec8..d7e6a8b 100644
--- a/b2/src/lib.rs
+++ b/b2/src/lib.rs
@@ -312,13 +312,16 @@ impl Session {
             .query("bucketId", &self.bucket_id)
             .query("prefix", name);
 
-        let lfv = succeeded(req.call()?)?.body_mut().read_json()?;
-        let where_name = || unexpected(&format!("couldn't find {name}"), &lfv);
+        let lfv: json::Value = succeeded(req.call()?)?.body_mut().read_json()?;
 
-        let versions = lfv["files"].as_array().ok_or_else(where_name)?;
+        let versions = lfv["files"]
+            .as_array()
+            .ok_or_else(|| unexpected(&format!("couldn't find {name}"), &lfv))?;
 
         if versions.is_empty() {
-            return Err(where_name());
+            return Err(Error::NotFound {
+                what: name.to_owned(),
+            });
         }
 
         // There's more than one version if we uploaded the file again
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index a518049..f314310 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -84,7 +84,15 @@ impl Backend for BackblazeBackend {
     }
 
     fn remove(&self, which: &str) -> Result<()> {
-        retry(|| self.session.delete(which))?;
+        let mut tried = false;
+        retry(|| match self.session.delete(which) {
+            // We've deleted it, but the response to that was lost.
+            Err(b2::Error::NotFound { .. }) if tried => Ok(()),
+            otherwise => {
+                tried = true;
+                otherwise
+            }
+        })?;
         Ok(())
     }
 
-- 
2.43.0


From fef468dbdc2c3cb1bdd9464def6c9ce2e0f5ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 50/55] fix: report a -C directory that can't be entered
 instead of panicking

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 13d59ad..d9c5499 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{Context, Result};
 use camino::Utf8PathBuf;
 use clap::{ArgAction, Parser, Subcommand};
 use tracing::*;
@@ -82,7 +82,8 @@ fn run() -> Result<()> {
     let conf = config::load(args.config)?;
 
     if let Some(dir) = &args.working_directory {
-        std::env::set_current_dir(dir).expect("Couldn't change working directory");
+        std::env::set_current_dir(dir)
+            .with_context(|| format!("Couldn't change working directory to {dir}"))?;
     }
 
     match args.subcommand {
-- 
2.43.0


From b1bc4d31076f5e42ea0cbc92d41cb6993c453992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:23 +0000
Subject: [PATCH 51/55] fix: refuse trees whose metadata contradicts their
 contents instead of panicking later

---
 src/pack.rs |  4 ++--
 src/tree.rs | 45 +++++++++++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index 02803da..7fa1183 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -499,8 +499,8 @@ pub fn append_to_forest<R: Read + Seek>(
 
         let mut hashing_decoder = HashingReader::new((&mut decoder).take(entry_length));
 
-        let to_add: tree::Tree = ciborium::from_reader(&mut hashing_decoder)
-            .with_context(|| format!("CBOR decoding of tree {} failed", entry.id))?;
+        let to_add = tree::deserialize(&mut hashing_decoder)
+            .with_context(|| format!("Couldn't read tree {}", entry.id))?;
 
         let (hash, _) = hashing_decoder.finalize();
         ensure!(
diff --git a/src/tree.rs b/src/tree.rs
index 955c6ea..be09888 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -2,6 +2,7 @@
 
 use std::collections::BTreeMap;
 use std::fs;
+use std::io::Read;
 use std::sync::{Arc, LazyLock};
 
 use anyhow::{Context, Result, anyhow, bail, ensure};
@@ -67,6 +68,14 @@ impl PartialEq for NodeContents {
 }
 
 impl NodeContents {
+    fn kind(&self) -> NodeType {
+        match self {
+            NodeContents::File { .. } => NodeType::File,
+            NodeContents::Directory { .. } => NodeType::Directory,
+            NodeContents::Symlink { .. } => NodeType::Symlink,
+        }
+    }
+
     // Convenience methods for when we know the type already.
 
     #[inline]
@@ -321,24 +330,12 @@ pub struct Node {
 impl Node {
     pub fn kind(&self) -> NodeType {
         // Assert that the contents matches the metadata while we're at it.
-        // We can be confident this won't be flipped by corruption since
-        // we verify a Tree's hash when deserializing it,
+        // We can be confident that this holds since deserialize() checks it for the trees we read,
         // AND we're confident that we don't screw it up when generating trees
         // in ui/backup.rs
-        match &self.contents {
-            NodeContents::File { .. } => {
-                assert_eq!(self.metadata.kind(), NodeType::File);
-                NodeType::File
-            }
-            NodeContents::Directory { .. } => {
-                assert_eq!(self.metadata.kind(), NodeType::Directory);
-                NodeType::Directory
-            }
-            NodeContents::Symlink { .. } => {
-                assert_eq!(self.metadata.kind(), NodeType::Symlink);
-                NodeType::Symlink
-            }
-        }
+        let kind = self.contents.kind();
+        assert_eq!(self.metadata.kind(), kind);
+        kind
     }
 }
 
@@ -355,6 +352,18 @@ pub fn serialize_and_hash(tree: &Tree) -> Result<(Vec<u8>, ObjectId)> {
     Ok((tree_cbor, id))
 }
 
+/// Deserialize a tree, making sure that its nodes' contents match their metadata
+pub fn deserialize<R: Read>(reader: R) -> Result<Tree> {
+    let tree: Tree = ciborium::from_reader(reader).context("CBOR decoding failed")?;
+    for (name, node) in &tree {
+        ensure!(
+            node.metadata.kind() == node.contents.kind(),
+            "The metadata of {name:?} doesn't match its contents"
+        );
+    }
+    Ok(tree)
+}
+
 pub static EMPTY_ID: LazyLock<ObjectId> =
     LazyLock::new(|| serialize_and_hash(&Tree::default()).unwrap().1);
 
@@ -439,8 +448,8 @@ impl<'a> Cache<'a> {
         if !self.tree_cache.contains_key(id) {
             let mut pack_containing_tree = self.pack_cache.read_pack(pack_id)?;
             let (_entry, bytes) = pack::extract_blob(&mut pack_containing_tree, id, manifest)?;
-            let tree: Tree = ciborium::from_reader(bytes.as_slice())
-                .with_context(|| format!("CBOR decoding of tree {id} failed"))?;
+            let tree = deserialize(bytes.as_slice())
+                .with_context(|| format!("Couldn't read tree {id}"))?;
             self.tree_cache.insert(*id, Arc::new(tree));
         }
 
-- 
2.43.0


From 9f277856352db37e85ae4ab514f0568118df2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 52/55] fix: restore nothing outside of its target, whatever
 names a tree or snapshot holds

---
 src/ui/restore.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index b3f099a..fb6ee25 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -5,8 +5,8 @@ use std::{
     sync::Arc,
 };
 
-use anyhow::{Context, Result, anyhow, bail};
-use camino::{Utf8Path, Utf8PathBuf};
+use anyhow::{Context, Result, anyhow, bail, ensure};
+use camino::{Utf8Component, Utf8Path, Utf8PathBuf};
 use clap::Parser;
 use jiff::Timestamp;
 use rustc_hash::FxHashMap;
@@ -110,6 +110,9 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         &mut tree::Cache::new(&index, &blob_map, &cached_backend),
     )?;
 
+    check_names(snapshot, &snapshot_forest)
+        .with_context(|| format!("Can't restore snapshot {id}"))?;
+
     let tree_and_mapping = load_fs_tree_and_mapping(id, snapshot, &snapshot_forest, &output)?;
 
     let metadata = args.times || args.permissions;
@@ -131,6 +134,37 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     )
 }
 
+/// Make sure that everything in the snapshot lands where it should.
+///
+/// Backups only ever make trees where each entry has a plain name,
+/// and where the top-level ones match the snapshot's paths.
+/// If someone else made this one, it shouldn't get to write outside of those (or our output dir).
+fn check_names(snapshot: &snapshot::Snapshot, snapshot_forest: &tree::Forest) -> Result<()> {
+    for name in snapshot_forest.values().flat_map(|tree| tree.keys()) {
+        let mut components = name.components();
+        ensure!(
+            matches!(components.next(), Some(Utf8Component::Normal(_)))
+                && components.next().is_none(),
+            "Its tree contains an entry with the name {name:?}"
+        );
+    }
+
+    let mut names = BTreeSet::new();
+    for path in &snapshot.paths {
+        let name = path
+            .file_name()
+            .ok_or_else(|| anyhow!("{path:?} ends in a relative component"))?;
+        ensure!(names.insert(name), "Several of its paths end in {name:?}");
+    }
+    for name in snapshot_forest[&snapshot.tree].keys() {
+        ensure!(
+            names.contains(name.as_str()),
+            "Its tree contains {name:?}, which isn't one of its paths"
+        );
+    }
+    Ok(())
+}
+
 struct FsTreeAndMapping<'a> {
     fs_id: ObjectId,
     fs_forest: tree::Forest,
@@ -168,6 +202,10 @@ fn load_fs_tree_and_mapping<'a>(
             let canonical_to = to
                 .canonicalize_utf8()
                 .with_context(|| format!("Couldn't canonicalize {to}"))?;
+            ensure!(
+                canonical_to.file_name().is_some(),
+                "Restoring a directory to {canonical_to} itself isn't supported"
+            );
 
             let (fs_id, mut fs_forest) = fs_tree::forest_from_fs(
                 // NB: We do *NOT* want to dereference symbolic links when we're
-- 
2.43.0


From 08a6106fc5e428bc8ccf85ee41e2e9c1c11032ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 53/55] fix: restore the times of directories that restoring
 changed

---
 src/diff.rs       |  7 +++++++
 src/ui/restore.rs | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/diff.rs b/src/diff.rs
index 1144bd9..eb4c47a 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -38,6 +38,11 @@ pub trait Callbacks {
         new_node: &Node,
     ) -> Result<()>;
 
+    /// Called after going through a directory if its contents changed, but not its metadata.
+    fn only_children_changed(&mut self, _node_path: &Utf8Path, _new_node: &Node) -> Result<()> {
+        Ok(())
+    }
+
     /// A node didn't change.
     fn nothing_changed(&mut self, _node_path: &Utf8Path, _node: &Node) -> Result<()> {
         Ok(())
@@ -135,6 +140,8 @@ pub fn compare_nodes(
                 // trace!("{:#?} != {:#?}", node1.metadata, node2.metadata);
                 callbacks.metadata_changed(path, node1, node2)?;
                 changed = true;
+            } else if changed {
+                callbacks.only_children_changed(path, node2)?;
             }
             if !changed {
                 callbacks.nothing_changed(path, node1)?;
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index fb6ee25..a5e0e43 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -121,6 +121,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         printer: super::diff::PrintDiffs { metadata },
         path_map: tree_and_mapping.path_map,
         blob_reader: ChunkReader::new(&cached_backend, &index, &blob_map),
+        touched_dirs: BTreeSet::new(),
         args: &args,
     };
 
@@ -348,6 +349,8 @@ struct Restorer<'a> {
     printer: super::diff::PrintDiffs,
     path_map: FxHashMap<&'a str, Utf8PathBuf>,
     blob_reader: ChunkReader<'a>,
+    /// Directories where we created or removed entries, which gives them a new mtime
+    touched_dirs: BTreeSet<Utf8PathBuf>,
     args: &'a Args,
 }
 
@@ -374,6 +377,12 @@ impl Restorer<'_> {
 
     // NB: node_path is already translated for all of these
 
+    fn touch_parent(&mut self, node_path: &Utf8Path) {
+        if let Some(parent) = node_path.parent() {
+            self.touched_dirs.insert(parent.to_owned());
+        }
+    }
+
     #[cfg(unix)]
     fn set_metadata(&self, node_path: &Utf8Path, node: &Node) -> Result<()> {
         let mtime = node.metadata.modification_time();
@@ -545,6 +554,7 @@ impl diff::Callbacks for Restorer<'_> {
         if self.args.dry_run {
             Ok(())
         } else {
+            self.touch_parent(&node_path);
             self.add_node(&node_path, new_node, forest)
         }
     }
@@ -566,6 +576,7 @@ impl diff::Callbacks for Restorer<'_> {
         if self.args.dry_run {
             Ok(())
         } else {
+            self.touch_parent(&node_path);
             self.remove_node(&node_path, old_node)
         }
     }
@@ -584,6 +595,8 @@ impl diff::Callbacks for Restorer<'_> {
         if self.args.dry_run {
             Ok(())
         } else {
+            // (Symlinks and hard-linked files are replaced.)
+            self.touch_parent(&node_path);
             self.change_node_contents(&node_path, old_node, new_node)
         }
     }
@@ -605,6 +618,16 @@ impl diff::Callbacks for Restorer<'_> {
         self.set_metadata(&node_path, new_node)
     }
 
+    fn only_children_changed(&mut self, node_path: &Utf8Path, new_node: &Node) -> Result<()> {
+        let node_path = self.translate_path(node_path);
+
+        // It matched the snapshot until we touched it. Make it match again.
+        if self.touched_dirs.contains(&node_path) {
+            self.set_metadata(&node_path, new_node)?;
+        }
+        Ok(())
+    }
+
     fn type_changed(
         &mut self,
         node_path: &Utf8Path,
@@ -637,6 +660,7 @@ impl diff::Callbacks for Restorer<'_> {
             return Ok(());
         }
 
+        self.touch_parent(&node_path);
         self.remove_node(&node_path, old_node)?;
         self.add_node(&node_path, new_node, new_forest)?;
         Ok(())
-- 
2.43.0


From 2b6724dc90373e39d1364a4d192a6a952ed7677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:05 +0000
Subject: [PATCH 54/55] fix: store unchanged files again whose chunks the
 repository lost

---
 src/ui/backup.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index a6a4036..40a6de4 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -430,6 +430,20 @@ fn backup_tree(
                      entry: DirectoryEntry<ObjectId>|
      -> Result<()> {
         walk_stats.current_file.update(path.to_owned());
+        let entry = match (entry, previous_node) {
+            // Don't count on chunks the repository has lost when we have them right here.
+            (DirectoryEntry::UnchangedFile, Some(previous))
+                if !previous
+                    .contents
+                    .chunks()
+                    .iter()
+                    .all(|c| packed_blobs.borrow().contains(c)) =>
+            {
+                warn!("{path} is unchanged, but the repository lost parts of it");
+                DirectoryEntry::ChangedFile
+            }
+            (entry, _) => entry,
+        };
         let subnode = match entry {
             DirectoryEntry::Directory(subtree) => {
                 /*
-- 
2.43.0


From 808afb8dd9e5e31b3692e0b8948720d9bf34e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:32 +0000
Subject: [PATCH 55/55] fix: don't restore into pipes and devices that are in
 the way

---
 src/ui/restore.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index a5e0e43..91e5aa9 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -446,6 +446,11 @@ impl Restorer<'_> {
     fn add_node(&mut self, node_path: &Utf8Path, new_node: &Node, forest: &Forest) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
+                // Diffs don't see pipes and devices.
+                // One that's in the way isn't a place to put the file's contents!
+                if let Ok(m) = fs::symlink_metadata(node_path) {
+                    ensure!(m.is_file(), "{node_path} is in the way of a file");
+                }
                 let fh = File::create(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
-- 
2.43.0

