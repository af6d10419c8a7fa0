#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a generator only because JSONL is unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Backup then restore reproduces the source tree exactly",
 "For any set of backed-up files, directories and symbolic links (any UTF-8 names, sizes from empty to many chunks, contents, permissions and times from 1678 to 2262), restoring the resulting snapshot into an empty place yields the same tree: same names and kinds, byte-identical contents, same link targets, and for files and directories the same permissions and modification and access times when those are asked for. This holds for every snapshot of a repository whatever other backups were made before or after it, and restoring over a stale copy of the tree brings it to the snapshot's contents (a file of unchanged size and modification time counts as unchanged).",
 ["inputs", "histories", "configurations"], "every source tree, every sequence of edits and backups, every pack size, one or several paths, to the original place or elsewhere",
 "The tests back up two fixed small trees; no test has odd names, sparse/duplicate/zero-length contents, multi-chunk edits, old or fractional times, or long backup histories.",
 ["src/ui/backup.rs", "src/ui/restore.rs", "src/fs_tree.rs", "src/tree.rs", "src/chunk.rs", "src/pack.rs", "src/read.rs", "src/snapshot.rs"],
 [("walk the tree, chunk and pack what changed", "src/ui/backup.rs backup_tree"), ("rebuild files from chunks", "src/ui/restore.rs, src/read.rs ChunkReader"), ("parent comparison", "src/fs_tree.rs walk_fs")],
 ["source tree vs restored tree (lstat, contents, readlink)"])

prop("C02", "Repository files are content-addressed, well-formed and closed under reference",
 "After every successful command every pack, index and snapshot decodes by the documented format, its name is the SHA-224 of its documented content, and every listed blob hashes to its listed ID and has its listed length and type. Every directory and chunk a snapshot reaches is found through the indexes in force, every pack these name exists and holds exactly the blobs they list, and nothing but finished objects is left in the repository or the working directory.",
 ["histories", "inputs", "configurations"], "every history of successful init/backup/copy/forget/prune/rebuild-index/filter-snapshot commands, every pack size",
 "Tests check a handful of counts after fixed command sequences with the same code that wrote the data; none decodes the repository independently.",
 ["src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/hashing.rs", "src/tree.rs", "src/backend.rs", "docs/src/formats.md"],
 [("hash while writing", "src/hashing.rs HashingWriter"), ("pack manifests", "src/pack.rs"), ("supersedes sets", "src/index.rs build_master_index")],
 ["independent decoder over the repository directory after each command"],
 state=[("indexes in force", "all index files minus the ones some present index supersedes", "src/index.rs build_master_index")])

prop("C03", "Identical data is stored once; a repeat backup stores nothing new",
 "A backup with no other writer running uploads exactly the chunks and directories the repository does not yet hold, each once, no matter how often the data occurs in the source or which earlier snapshot brought it. Backing up an unchanged tree uploads no pack and no index, and by default does not even add a snapshot.",
 ["inputs", "histories"], "every tree with any amount of duplication, every history of edits, renames and forgets before the backup",
 "One test backs up the same fixed tree twice; deduplication across paths, snapshots, packs and renames is not exercised.",
 ["src/ui/backup.rs", "src/index.rs", "src/fs_tree.rs", "src/repack.rs"],
 [("set of blobs already packed", "src/ui/backup.rs packed_blobs, src/index.rs blob_id_set"), ("same-as-last-snapshot test", "src/ui/backup.rs run")],
 ["blob multiset across all packs before and after each backup; pack/index/snapshot file sets"])

prop("C04", "Chunking partitions a file exactly, deterministically and locally",
 "The chunks of a file, taken in order, are exactly its bytes with no gap, overlap or reordering; each chunk's ID is the hash of its bytes; sizes keep the configured bounds except for the last. The same bytes always give the same chunks whatever the file's size class or neighbours, and editing a few bytes of a large file leaves the chunks far from the edit unchanged.",
 ["inputs"], "every file content and length (around all chunk bounds and the buffered/mapped threshold) and every small edit",
 "One unit test chunks one reference file.",
 ["src/chunk.rs", "src/file_util.rs", "src/hashing.rs"],
 [("content-defined cut points", "src/chunk.rs"), ("buffer or map the file", "src/file_util.rs read_file")],
 ["chunk stream vs file bytes; chunk sets before/after an edit"])

prop("C05", "A backup killed at any instant damages nothing and can simply be rerun",
 "If a backup is killed at any point, every earlier snapshot still restores exactly and no snapshot is visible unless all its data is. Running the backup again, from the same or another directory, succeeds and yields a snapshot that restores exactly, and the repository stays usable by every other command, including rebuild-index.",
 ["crash_points", "histories"], "a kill before or after every file-system operation of the backup, combined with what is run next",
 "tests/resume.rs simulates one interruption by hand-copying files; no test kills a process.",
 ["src/backup.rs", "src/ui/backup.rs", "src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/backend.rs", "src/file_util.rs"],
 [("packs, then index, then snapshot", "src/ui/backup.rs run, src/backup.rs Backup::join"), ("work-in-progress index", "src/index.rs WIP_NAME, src/backup.rs find_resumable"), ("write to .part then rename", "src/file_util.rs safe_copy_to_file")],
 ["repository and working directory after the kill and after recovery"],
 hook="none in the source; a preloaded library kills the process at a chosen file-system operation")

prop("C06", "Prune, rebuild-index, copy, forget or filter killed at any instant loses nothing",
 "If prune, rebuild-index, copy, forget or filter-snapshot is killed at any point, every snapshot that was to survive still restores exactly and no snapshot is half-present, in the source and in the destination. Rerunning the command, or running any other command instead (from another directory, if the interrupted one wrote elsewhere), succeeds; afterwards the snapshots are those an uninterrupted run would have given, and at most indexes already superseded and packs that no index in force names are left over.",
 ["crash_points", "histories"], "a kill before or after every file-system operation of each maintenance command, followed by any next commands",
 "Only one hand-made interrupted prune is tested; nothing covers kills between deletions or interrupted copy, forget and rebuild-index.",
 ["src/ui/prune.rs", "src/ui/rebuild_index.rs", "src/ui/copy.rs", "src/ui/forget.rs", "src/ui/filter_snapshot.rs", "src/index.rs"],
 [("new index before old ones go, indexes before packs", "src/ui/prune.rs run, src/ui/rebuild_index.rs run"), ("supersedes set", "src/index.rs build_master_index"), ("careful resume", "src/ui/prune.rs run, src/backup.rs find_resumable")],
 ["repository after the kill and after recovery"],
 hook="none in the source; a preloaded library kills the process at a chosen file-system operation")

prop("C07", "Interrupted work is resumed without redoing or corrupting it",
 "When an interrupted backup, copy or prune is run again in its working directory, packs it had finished are kept and used rather than made again, and the result equals an uninterrupted run's. Whatever else was done to the repository or run in that directory in between (other commands, dry runs, forgets, a different backup), leftovers are used correctly, ignored, or refused with an error saying so: no data is lost or hidden because of them and no published snapshot lacks data.",
 ["crash_points", "histories"], "every interruption point and every sequence of other commands between interruption and rerun",
 "tests/resume.rs covers two hand-made states with nothing happening in between.",
 ["src/backup.rs", "src/index.rs", "src/ui/backup.rs", "src/ui/prune.rs", "src/ui/copy.rs", "src/pack.rs"],
 [("find and validate leftovers", "src/backup.rs find_resumable"), ("prune's extra conditions", "src/ui/prune.rs run")],
 ["packs written by the rerun vs packs finished before; repository after the rerun; working directory"],
 state=[("work-in-progress index", "packs finished by an interrupted run in this directory", "src/index.rs WIP_NAME")],
 hook="none in the source; a preloaded library kills the process at a chosen file-system operation")

prop("C08", "Prune keeps exactly what snapshots need",
 "After a prune, every chunk and directory some snapshot reaches is still stored and indexed with unchanged content, every blob no snapshot reaches is gone from packs and indexes, and every snapshot restores as before. Packs wholly in use are not rewritten, and pruning again changes nothing.",
 ["histories", "inputs"], "every history of backups, copies and forgets before the prune, every pack size, including snapshots that share data, empty directories and a repository with no snapshots",
 "The prune tests use two fixed histories and check pack counts.",
 ["src/ui/prune.rs", "src/repack.rs", "src/index.rs", "src/tree.rs"],
 [("reachability and pack partition", "src/ui/prune.rs"), ("repacking walk", "src/repack.rs walk_snapshots")],
 ["independent reachability closure vs blobs stored after prune"])

prop("C09", "Forget and filter remove exactly the named snapshots and nothing else",
 "Forgetting removes precisely the snapshots named, or with DUPLICATES exactly those whose tree is the same as that of the snapshot before; other snapshots, packs and indexes are untouched. An argument that names no snapshot or is ambiguous removes nothing, keeps no other argument from its effect, and makes the command fail.",
 ["inputs", "histories"], "every repository history and every argument list",
 "One test forgets by one full ID.",
 ["src/ui/forget.rs", "src/snapshot.rs"],
 [("argument resolution", "src/snapshot.rs from_args_list"), ("removal", "src/ui/forget.rs run")],
 ["snapshot, pack and index file sets and contents before and after"])

prop("C10", "Dry runs and read-only commands change nothing anywhere",
 "Any command given the dry-run flag, and every command that only reads (cat, check, diff, dump to standard output, ls, snapshots, usage), leaves the repository, the files being backed up or restored, and everything in the working directory exactly as they were, including what an interrupted run left there to resume from. The dry run also reports the same outcome the real run then has.",
 ["histories", "inputs", "configurations"], "every command, every repository state including after interruptions, every option combination",
 "No test compares the whole repository, source, target and working directory around these commands, and none runs them in a directory with leftovers.",
 ["src/backup.rs", "src/index.rs", "src/upload.rs", "src/ui/backup.rs", "src/ui/prune.rs", "src/ui/copy.rs", "src/ui/filter_snapshot.rs", "src/ui/rebuild_index.rs", "src/ui/forget.rs", "src/ui/restore.rs"],
 [("dry-run upload mode", "src/upload.rs"), ("dry-run guards", "src/ui/*.rs")],
 ["full snapshot (names, types, bytes, times) of repository, source, target and working directory around each command"])

prop("C11", "Damage to stored data is detected and never restored as if good",
 "If any pack, index or snapshot file is altered, truncated, deleted, swapped with another or replaced, then either the full check fails, or every snapshot still listed restores exactly. A restore, dump or other read that succeeds never yields contents, names or metadata other than those backed up.",
 ["fault_sequences", "inputs"], "every kind of damage at every position of every stored file",
 "No test damages a repository.",
 ["src/ui/check.rs", "src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/read.rs", "src/tree.rs", "src/backend.rs"],
 [("hash checks on load", "src/pack.rs, src/index.rs load, src/snapshot.rs load"), ("check command", "src/ui/check.rs")],
 ["exit codes of check and restore, restored contents vs the original"])

prop("C12", "An I/O failure is reported and leaves the repository consistent",
 "If any system call that creates, writes, syncs, renames, links, reads or removes a file fails during a command (no space, I/O error, no permission, cross-device), or a needed source file cannot be read, the command either copes completely or exits with failure, and never reports success for work not done. Afterwards every earlier snapshot still restores, no snapshot is visible without its data, and repeating the command once the fault is gone succeeds.",
 ["fault_sequences"], "a failure at every file-system operation of every command, with several error kinds, single and persistent",
 "No test injects a failure.",
 ["src/backup.rs", "src/concurrently.rs", "src/upload.rs", "src/pack.rs", "src/index.rs", "src/file_util.rs", "src/backend/fs.rs", "src/backend.rs", "src/ui/restore.rs"],
 [("errors propagate out of worker threads", "src/concurrently.rs"), ("atomic writes", "src/file_util.rs")],
 ["exit code, repository and restored data after each injected failure"],
 hook="none in the source; a preloaded library makes a chosen call fail")

prop("C13", "Data is made durable before anything names it or replaces it",
 "On a file system that may drop or reorder unsynced data at a power cut, no pack, index or snapshot becomes visible under its final name, and no pack or index as what a later run would resume from, before its contents are synced. A snapshot is published only after the index and packs holding its data, an index only after its packs; old indexes, and packs after them, are removed only once the replacing index is in place.",
 ["schedules", "crash_points", "configurations"], "every interleaving of a command's threads, every repository kind (plain, cached, filtered, other file system)",
 "Order and syncing of file operations cannot be observed by tests that only look at the final state.",
 ["src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/file_util.rs", "src/backend.rs", "src/backup.rs", "src/ui/prune.rs", "src/ui/rebuild_index.rs"],
 [("sync then rename", "src/pack.rs, src/index.rs to_file, src/snapshot.rs upload, src/file_util.rs"), ("join before snapshot upload", "src/ui/backup.rs run"), ("removal order", "src/ui/prune.rs run")],
 ["totally ordered log of write, fsync, rename and unlink calls"],
 hook="none in the source; a preloaded library logs the calls")

prop("C14", "Writers running at the same time do not harm each other",
 "Backups and copies running concurrently into one repository, started from different working directories, all succeed, and afterwards every snapshot restores exactly and every command keeps working, even where several stored the same data. A rebuild-index or prune running meanwhile never removes or hides an index, or packs of an index, that it had not read when it began.",
 ["schedules", "histories"], "every interleaving of two or more processes at file-system-operation granularity",
 "No test runs two processes at once.",
 ["src/index.rs", "src/backup.rs", "src/ui/prune.rs", "src/ui/rebuild_index.rs", "src/ui/check.rs"],
 [("duplicates tolerated in the merged index", "src/index.rs blob_to_pack_map"), ("superseded set taken before reading", "src/ui/prune.rs, src/ui/rebuild_index.rs")],
 ["repository after concurrent runs under injected delays"],
 hook="none in the source; a preloaded library delays or stops a process at chosen calls")

prop("C15", "A repository's filter commands are applied to all data and only then stored",
 "In a repository configured with a filter and unfilter command, every command behaves as in a plain one, each stored object is exactly what the filter made of the plain object, and nothing is stored unfiltered. If a filter or unfilter command fails or dies, the operation fails and no incomplete object remains under a final name.",
 ["inputs", "configurations", "fault_sequences"], "every invertible filter, every object size (including larger than a pipe), every way a filter can fail",
 "The one filter test needs a program that is absent here and covers only the case where everything works.",
 ["src/backend/filter.rs", "src/backend.rs", "src/ui/init.rs"],
 [("pipe through the child", "src/backend/filter.rs")],
 ["stored bytes vs filter(plain bytes); exit codes and repository after filter failures"])

prop("C16", "The local cache never changes results and stays within its size",
 "With a cached repository every command gives the same results as without a cache, whatever the cache holds: nothing, part, or old entries, files removed by hand, entries for objects deleted or replaced in the repository. The cache's recorded size equals its files' size and does not exceed the configured limit once a command finishes, and the most recently used entries survive.",
 ["histories", "configurations", "schedules"], "every history of commands sharing one cache, every cache size limit, several repositories and processes on one cache",
 "The cache's unit tests do a few inserts and prunes; no test runs commands against a stale, full or damaged cache.",
 ["src/backend/cache.rs", "src/backend.rs", "src/config.rs"],
 [("least-recently-used eviction", "src/backend/cache.rs prune"), ("write-through, remove-through", "src/backend.rs CachedBackend")],
 ["command results with and without cache; cache directory vs its database"])

prop("C17", "Copy transfers snapshots exactly and sends only what is missing",
 "After a copy, the destination has for each chosen snapshot one with the same time, author, tags, paths and contents, restorable without the source; the source is unchanged. Only blobs the destination lacked are added, each once, and with skip patterns the result is the snapshot without exactly the matching entries.",
 ["inputs", "histories", "configurations"], "every pair of repositories with any overlap, every choice of snapshots, every pack size and skip pattern",
 "The copy tests use two fixed snapshots into an empty destination.",
 ["src/ui/copy.rs", "src/repack.rs", "src/read.rs"],
 [("repacking walk", "src/repack.rs walk_snapshots"), ("destination blob set", "src/ui/copy.rs run")],
 ["decoded trees of source and destination snapshots; blobs added; restore from destination alone"])

prop("C18", "Skip patterns and filter-snapshot drop exactly the matching paths",
 "A backup with skip patterns yields the full tree minus exactly those entries whose absolute path matches some pattern, together with what is under them; copy and filter-snapshot do the same for paths as listed in the snapshot. All other entries keep their contents and metadata. Filter-snapshot adds one snapshot, with the original's author, tags and time when asked to, only if something was dropped, and leaves all others alone.",
 ["inputs", "configurations"], "every tree, every set of regular expressions and snapshot lists",
 "Tests use one pattern on one tree.",
 ["src/filter.rs", "src/ui/filter_snapshot.rs", "src/repack.rs", "src/fs_tree.rs", "src/tree.rs"],
 [("pattern matching on paths", "src/filter.rs"), ("tree rewriting", "src/repack.rs, src/ui/filter_snapshot.rs")],
 ["decoded trees before and after vs an independent filter"])

prop("C19", "Diff and change statistics report exactly the differences",
 "Comparing two snapshots, or a snapshot with the file system, lists exactly the entries added, removed, changed in content, changed in kind, and (when asked) changed in metadata, each once with its right path; it lists nothing if and only if the two are equal in the respects compared. The summary counts of the snapshots command agree with these differences.",
 ["inputs", "histories"], "every pair of trees, nested additions and removals, type changes, metadata-only changes",
 "A few fixed edits are tested.",
 ["src/diff.rs", "src/ui/diff.rs", "src/tree.rs", "src/ls.rs", "src/ui/snapshots.rs"],
 [("parallel walk of two trees", "src/diff.rs compare_trees")],
 ["diff output vs an independent comparison of the decoded trees"])

prop("C20", "Restore touches only what it must, only inside its target",
 "A restore creates, changes or deletes nothing outside the target, even when existing symbolic links in the target point elsewhere; entries absent from the snapshot are deleted only when deletion is asked for; files that already match are not rewritten, contents are never written into a pipe or device that is in the way, and with times asked for directories end with the times the snapshot has. Restoring again changes nothing more (but for times of symbolic links), and with a dry run nothing is touched.",
 ["inputs", "configurations"], "every snapshot and every pre-existing state of the target: other kinds of entries in the way, symbolic links (dangling or to outside), read-only entries, extra entries",
 "Tests restore over a few fixed edits, never with links or conflicting kinds pointing outside.",
 ["src/ui/restore.rs", "src/diff.rs", "src/fs_tree.rs"],
 [("diff-driven actions", "src/ui/restore.rs"), ("no-follow checks", "src/ui/restore.rs")],
 ["target, its surroundings and inode/mtime identity before and after; log of mutated paths"],
 hook="none in the source; a preloaded library logs and confines mutating calls")

prop("C21", "A snapshot name selects the one snapshot it denotes, or fails",
 "LAST, LAST~N, an ID and any unique ID prefix each select exactly the snapshot they denote, with LAST~N counting back from the newest by time; ambiguous, unknown, out-of-range or malformed names fail with an error, never a panic, and never select another snapshot. All commands agree on the order and on what a name means.",
 ["inputs", "histories"], "every argument string and every set of snapshots including equal and out-of-order times",
 "A unit test tries a few names on fixed IDs.",
 ["src/snapshot.rs", "src/hashing.rs", "src/tree.rs"],
 [("name lookup", "src/snapshot.rs find, from_args_list"), ("chronological order", "src/snapshot.rs load_chronologically")],
 ["command output and exit code vs an independent resolver over the decoded snapshots"])

prop("C22", "Reported sizes and counts equal what is stored",
 "The sizes and counts that snapshots (with size options), usage, ls, backup and prune print agree with an independent accounting of the repository: totals over unique blobs, per-snapshot and introduced sizes, numbers of packs, indexes and snapshots. Every such report succeeds on every repository the tool itself can produce.",
 ["inputs", "histories"], "every repository history including empty files and directories, duplicates and shared data",
 "Size output is not tested beyond one run.",
 ["src/ui/snapshots.rs", "src/ui/usage.rs", "src/tree.rs", "src/index.rs", "src/file_util.rs"],
 [("tree size sums", "src/tree.rs tree_size"), ("blob size map", "src/index.rs blob_to_size_map")],
 ["printed numbers vs an independent decoder's sums"])

prop("C23", "A Backblaze repository gives the same guarantees over a faulty network",
 "Against a B2-like server that is slow, rejects or drops requests, expires tokens and upload URLs, or pages its listings, every command either completes with exactly the result a local repository would have or fails with an error; no object is ever stored under its name with wrong bytes and no success is reported for a lost upload. Transient faults are retried a bounded number of times, never more connections are in use than configured, and permanent errors are reported.",
 ["fault_sequences", "schedules", "configurations"], "every sequence of server faults at every request of every command",
 "The B2 client has no automated test at all: it needs an account.",
 ["b2/src/lib.rs", "src/backend/backblaze.rs", "src/backend/semaphored.rs", "src/semaphored.rs"],
 [("retry and re-authorize", "b2/src/lib.rs"), ("connection limit", "src/semaphored.rs")],
 ["mock server's log and store; client exit codes and restored data"],
 hook="the base URL of the authorization request must be redirectable to a loopback server")

prop("C24", "Connection limits hold and waiting threads always wake",
 "Never more threads hold the counting semaphore than it allows, every release lets a waiting thread proceed, and no thread waits forever while permits are free. The shared progress value read without locks is always one that was written, in order, and is freed once; errors in any worker end the whole command rather than hang it.",
 ["schedules"], "every interleaving of acquire, release, read and update by any number of threads",
 "The unit tests run a few uncontended threads.",
 ["src/semaphored.rs", "src/rcu.rs", "src/concurrently.rs", "src/backend/semaphored.rs"],
 [("futex-based counting semaphore", "src/semaphored.rs dec and Drop"), ("epoch-based replacement", "src/rcu.rs")],
 ["holder counts, progress of waiters under stress; operation logs of reads and updates"])

prop("C25", "No data race, memory error or undefined behaviour in any run",
 "No execution of any command or library routine, whatever the input files and the thread schedule, has a data race, an out-of-bounds or use-after-free access, an uninitialised read or other undefined behaviour, or reads past a mapped file. Malformed repository files, configuration or arguments produce an error, not a panic, crash or hang.",
 ["schedules", "inputs", "programs"], "every command, every workload, every malformed input",
 "Tests run without sanitizers, on well-formed inputs only.",
 ["src/rcu.rs", "src/semaphored.rs", "src/file_util.rs", "src/chunk.rs", "src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/tree.rs", "src/progress.rs", "src/hashing.rs"],
 [("unsafe blocks and mapped files", "src/rcu.rs, src/file_util.rs, src/chunk.rs"), ("validated decoding", "src/pack.rs, src/index.rs, src/snapshot.rs, src/tree.rs")],
 ["sanitizer and interpreter reports; exit statuses and panic messages"])

prop("C26", "Files that change while being backed up never corrupt the repository",
 "If source files are written, truncated, replaced, added or removed while a backup runs, the backup either finishes or fails cleanly; everything it stored matches its ID, every snapshot it publishes restores, and unchanged files in it restore exactly. Later backups of the same files record their then-current contents.",
 ["schedules", "inputs"], "every timing of modification against the backup's reads, files on both sides of the mapped-file threshold",
 "No test changes files during a backup.",
 ["src/chunk.rs", "src/file_util.rs", "src/ui/backup.rs", "src/fs_tree.rs", "src/pack.rs"],
 [("hash and store the same bytes", "src/chunk.rs, src/pack.rs")],
 ["every stored blob re-hashed after the backup; restore of every snapshot"],
 hook="none in the source; a preloaded library pauses the process at chosen calls so that a mutator can act")

prop("C27", "Rebuilt indexes describe exactly the packs that exist",
 "After rebuild-index, whatever indexes were there before (all, none, stale, superseded or damaged-and-removed ones), the single remaining index lists exactly the packs present with exactly their contents, old indexes are gone, and every snapshot whose blobs exist restores as before. Doing it again lists the same.",
 ["histories", "inputs"], "every repository history and every subset of index files lost beforehand, leftovers of interrupted runs included",
 "One test rebuilds after deleting one index.",
 ["src/ui/rebuild_index.rs", "src/index.rs", "src/pack.rs"],
 [("index from pack manifests", "src/ui/rebuild_index.rs run, src/pack.rs load_manifest")],
 ["decoded index vs decoded packs, before and after"])

prop("C28", "Ls, dump and cat show exactly what a snapshot holds",
 "Listing a snapshot shows every entry of it once and nothing else; dumping a file writes exactly its bytes, and dumping a directory or listing a path shows exactly what is there; cat prints the stored object asked for. A path or object that does not exist is an error.",
 ["inputs", "histories"], "every snapshot, every path in or not in it, every object ID",
 "Dump is tested for one file and one directory; ls and cat are not tested.",
 ["src/ui/dump.rs", "src/ui/ls.rs", "src/ui/cat.rs", "src/ls.rs", "src/read.rs"],
 [("path lookup in the tree", "src/ui/dump.rs"), ("recursive print", "src/ls.rs")],
 ["command output vs the decoded snapshot"])

prop("C29", "An incremental backup records what a full one would",
 "A backup that compares with an earlier snapshot yields the same tree as one made into an empty repository from the same files, for any edits in between that change a file's size, modification time or kind, including renames, type swaps, touched, restored, and re-created entries, permission-only changes and different path sets, and also when packs were lost and the index rebuilt since (what they held is stored again). A parent is used only if it was made from the same paths, and the snapshot records the paths, author, tags and time given.",
 ["histories", "inputs"], "every history of edits and backups",
 "One test makes a second backup after one edit.",
 ["src/fs_tree.rs", "src/ui/backup.rs", "src/tree.rs", "src/snapshot.rs"],
 [("unchanged-file test", "src/fs_tree.rs"), ("parent choice", "src/ui/backup.rs parent_snapshot")],
 ["decoded root trees of incremental and full backups of the same files"])

prop("C30", "Files in every documented format version stay readable and stable",
 "Repositories written by the documented format, including version-1 snapshots, chains of superseded indexes and packs made by other writers, are read correctly by every command. What is written today encodes the same logical content to the same bytes and IDs run after run, so that independent machines agree on IDs.",
 ["inputs", "configurations"], "every repository expressible in the documented formats",
 "Tests compare three fixed encodings and only with the code's own encoder.",
 ["docs/src/formats.md", "src/snapshot.rs", "src/index.rs", "src/pack.rs", "src/tree.rs", "src/hashing.rs"],
 [("versioned magic bytes", "src/snapshot.rs, src/index.rs, src/pack.rs")],
 ["repositories written by an independent encoder, read by the tool; IDs recomputed independently"])

prop("C31", "Init makes a usable empty repository and never harms an existing one",
 "Init in a new or empty place makes a repository that every command accepts, with the pack size, filters and kind that were asked for; in any other place it fails and leaves what is there untouched. Other commands given a path that is not a repository, or one with a malformed configuration, fail without creating or changing anything.",
 ["inputs", "configurations"], "every state of the target path and every option combination",
 "Tests only initialise empty temporary directories.",
 ["src/ui/init.rs", "src/backend/fs.rs", "src/backend.rs", "src/config.rs"],
 [("refuse a non-empty place", "src/backend/fs.rs initialize"), ("configuration round trip", "src/backend.rs")],
 ["directory contents before and after; configuration as read back; packs' sizes"])

prop("C32", "Packs are filled up to the configured size and no chunk is split or lost",
 "Every pack except the last of its kind in a backup or repack is closed only once it has reached the configured size, and a new one is begun when it has: with incompressible data none exceeds that size by more than a blob and small overhead. Chunks and directories go to separate packs, every blob handed over appears in exactly one pack, and each pack's manifest lists its blobs in order with their lengths.",
 ["inputs", "configurations", "schedules"], "every stream of blobs and every pack size",
 "Tests use the default size with little data, so a backup rarely fills one pack.",
 ["src/pack.rs", "src/backup.rs", "src/backend.rs"],
 [("flush-based size estimate", "src/pack.rs pack"), ("separate packers", "src/backup.rs")],
 ["pack file sizes and decoded manifests after workloads with small pack sizes"])

prop("C33", "Results do not depend on the machine, the terminal or the surroundings",
 "With the same repository and the same files, every command stores, restores, prints and returns the same whatever the number of CPUs, the terminal and its size, verbosity and colour, locale, time zone, umask, limit of open files, environment, working directory, spelling of the paths given, order in which directories are listed, and timing of threads and storage; only times, host names and the display of progress differ. On any terminal the display of progress neither fails nor alters the outcome.",
 ["configurations", "schedules"], "every surrounding in which a command can run",
 "Tests run on one machine, without a terminal, in one environment.",
 ["src/progress.rs", "src/ui/*.rs", "src/fs_tree.rs", "src/rcu.rs", "src/backup.rs", "src/main.rs", "src/backend/fs.rs"],
 [("progress threads", "src/progress.rs"), ("CPU count for concurrency", "src/concurrently.rs"), ("canonical paths", "src/ui/backup.rs, src/ui/restore.rs")],
 ["decoded repositories, restored trees, output and exit codes of the same commands in pairs of surroundings"])

prop("C34", "Memory, descriptors, processes and temporary space do not grow with the data",
 "The memory, open files, threads, child processes and temporary disk space a command uses are bounded by the number of CPUs and the pack size, however much data, however many files, packs and snapshots there are (beyond its record of which blobs and entries exist); slow storage or filters hold the rest back instead of letting work pile up. When a command ends, also when it fails, none of its filter processes is left running. Restoring or verifying what one backup stored fetches each pack at most a few times.",
 ["inputs", "schedules"], "every size of repository and every relative speed of its parts",
 "Tests store a few files in one or two packs; nothing measures what is used.",
 ["src/read.rs", "src/pack.rs", "src/upload.rs", "src/backup.rs", "src/filter.rs", "src/concurrently.rs", "src/backend/cache.rs"],
 [("bounded channels between stages", "src/backup.rs, src/upload.rs"), ("pack cache of the reader", "src/read.rs"), ("filter processes waited for", "src/filter.rs"), ("sorted walks for restore", "src/ui/restore.rs")],
 ["/proc counters of running commands, children after they end, log of pack opens"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
