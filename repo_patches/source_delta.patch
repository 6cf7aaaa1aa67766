From e71148401212f5d9197e9df648a756e582bcf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 01/30] fix: don't deadlock when the workers fill their own job
 queue

With -j1 and three or more distinct modules the only worker blocked forever
sending the dump jobs to the bounded channel it is itself the receiver of.
---
 src/dumper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..e286fb4 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -465,7 +465,9 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     let num_jobs = config.num_jobs.min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // The workers send the dump jobs and the poison themselves: with a bounded queue
+    // they could all block on a full queue with nobody left to receive.
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From 2b546b27da24c31e8f7008101c25fbef8d5bdcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 02/30] fix: run at least one worker when several files are
 dumped

-j0 started no worker at all and so dumped nothing (or hung).
---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e286fb4..e7b65c4 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -462,7 +462,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.max(1).min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
     // The workers send the dump jobs and the poison themselves: with a bounded queue
-- 
2.43.0


From b979101230ea0882be38a587d97844301a978e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 03/30] fix: count down the files to process atomically

Two workers finishing the last two files could both read 2, both decrement
the counter and neither of them would then dump the results.
---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e7b65c4..bbccd23 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From 84ed43913d044143cceac9c73551d97b3a6615ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 04/30] fix: release the other workers when one of them fails

An error or a panic on one of the files ended its worker without decrementing
the counter or poisoning the queue: the other workers waited forever.
---
 src/dumper.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index bbccd23..f370f4a 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -8,6 +8,7 @@ use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
 use std::fs;
+use std::panic::{self, AssertUnwindSafe};
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -480,9 +481,17 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let t = thread::Builder::new()
             .name(format!("dump-syms {i}"))
             .spawn(move || {
-                consumer(
-                    arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
-                )
+                let poison_sender = sender.clone();
+                let res = panic::catch_unwind(AssertUnwindSafe(|| {
+                    consumer(
+                        arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
+                    )
+                }));
+                if !matches!(res, Ok(Ok(()))) {
+                    // The job of this worker isn't done and won't be: release the other ones.
+                    poison_queue(&poison_sender, num_jobs);
+                }
+                res.unwrap_or_else(|e| panic::resume_unwind(e))
             })
             .unwrap();
 
-- 
2.43.0


From f8f41ba181d2e0e9b4f62e1fb52474b0ce7ddf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 05/30] fix: report the failure of a worker to the caller

Errors met while dumping several files were only logged and the tool exited
with 0.
---
 src/dumper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index f370f4a..107f314 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -509,11 +509,13 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut res = Ok(());
     for receiver in receivers {
         if let Err(e) = receiver.join().unwrap() {
             error!("{e}");
+            res = res.and(Err(e));
         }
     }
 
-    Ok(())
+    res
 }
-- 
2.43.0


From 620dc0192f5b6a6a7cae3b0b3e7564b2047b6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 06/30] fix: don't ignore the errors met when the last symbols
 are flushed

The writer is buffered and was dropped without being flushed, so a full disk
could truncate the symbols with an exit code of 0.
---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..fbf7fa5 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -293,6 +293,7 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 6a037695bbcec81df8ce0371137cc0f1165205e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 07/30] fix: never leave a partial file in the symbol cache

An interrupted or failed write left a truncated file which was then served
from the cache forever. Write it aside, flush it and rename it.
---
 src/cache.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..aa2c10e 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -9,6 +9,7 @@ use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
 use std::io::{BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
 use url::Url;
@@ -136,11 +137,21 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    let output = File::create(&path)
-        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.to_str().unwrap()));
+    // Write in a temporary file first: a file in the cache must always be complete,
+    // whatever happens in the meantime, since it'll never be downloaded again.
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let tmp = path.with_extension(format!(
+        "{}-{}.tmp",
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::Relaxed)
+    ));
+    let output = File::create(&tmp)
+        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", tmp.to_str().unwrap()));
     let mut output = BufWriter::new(output);
     output
         .write_all(data)
+        .and_then(|_| output.flush())
+        .and_then(|_| fs::rename(&tmp, &path))
         .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
 
     true
-- 
2.43.0


From 6a68a283234756d9966903f231bc05f80b190d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:40 +0000
Subject: [PATCH 08/30] fix: don't take (and cache) the body of an HTTP error
 for the symbols

---
 src/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cache.rs b/src/cache.rs
index aa2c10e..544e3b8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -247,7 +247,8 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
         let resp = client
             .get(&job.url)
             .header(USER_AGENT, DEFAULT_USER_AGENT)
-            .send();
+            .send()
+            .and_then(|resp| resp.error_for_status());
         if let Ok(mut resp) = resp {
             if resp.copy_to(&mut buf).is_err() {
                 None
-- 
2.43.0


From 42f03bdd6acb77f8d78264e72f8e4d91a13ae6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:21 +0000
Subject: [PATCH 09/30] fix: remember the source files added by a merge

When a third file with the same debug id was merged, the ids of the source
files which came from the second one were unknown and remapped to 0.
---
 src/source.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source.rs b/src/source.rs
index f80105a..f7120e7 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -186,6 +186,7 @@ impl SourceMap {
                 let new_id = self.id_to_ref.len() as u32;
                 remapping[id] = new_id;
                 self.id_to_ref.push(other.id_to_ref[id].clone());
+                self.ref_to_id.insert(path.clone(), new_id);
             }
         }
 
-- 
2.43.0


From f81df093597bee26692f8c84904e8842f3c4a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:22 +0000
Subject: [PATCH 10/30] fix: number the FILE records deterministically when
 merging

---
 src/source.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index f7120e7..259f5db 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -177,7 +177,11 @@ impl SourceMap {
         let mut remapping = vec![0; other.id_to_ref.len()];
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
+        // Follow the order of the ids since the order in the HashMap isn't deterministic
+        let mut other_ids: Vec<_> = other.ref_to_id.iter().collect();
+        other_ids.sort_by_key(|(_, id)| **id);
+
+        for (path, id) in other_ids {
             let id = *id as usize;
             if let Some(an_id) = self.ref_to_id.get(path) {
                 // self has already this path so map the id to the existing one
-- 
2.43.0


From b3564f129b5ba8902a1a85ae0b1968e05bb57231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:43 +0000
Subject: [PATCH 11/30] fix: don't identify the source files by the address of
 temporary strings

For names which aren't valid UTF-8 the key of the cache was the address of a
freed string, so two different files could get the same id.
---
 src/source.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 259f5db..a624364 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -14,8 +14,6 @@ use crate::mapping::PathMappings;
 use crate::platform::Platform;
 use crate::utils;
 
-type SliceRef = (*const u8, usize);
-
 #[derive(Debug)]
 pub struct SourceFiles {
     platform: Platform,
@@ -23,7 +21,7 @@ pub struct SourceFiles {
     ref_to_id: HashMap<String, u32>,
     fake_id_to_ref: Vec<(Option<u32>, String)>,
     id_to_ref: Vec<String>,
-    cache: HashMap<(SliceRef, SliceRef, SliceRef), u32>,
+    cache: HashMap<(Vec<u8>, String, String), u32>,
     mapping: Option<Arc<PathMappings>>,
 }
 
@@ -50,11 +48,6 @@ impl SourceFiles {
         }
     }
 
-    #[inline(always)]
-    fn cast_ptr(name: &[u8]) -> SliceRef {
-        (name.as_ptr(), name.len())
-    }
-
     #[inline(always)]
     fn path_to_string(name: &[u8]) -> String {
         // Strings in DWARF are encoded either in latin-1 or in utf-8 (likely)
@@ -93,12 +86,13 @@ impl SourceFiles {
 
     /// For a given compilation_dir, file return the index in self.ref_to_id
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
-        // A lot of paths are a slice on the same string in the debug file
-        // so just use a cache based on the string pointers.
+        // Computing a path is slow (especially when it's canonicalized) so just use a cache.
+        // The key must own the strings: they may be temporary ones (e.g. when they aren't valid
+        // UTF-8) so their addresses don't identify them.
         let cache_key = (
-            Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
+            compilation_dir.to_vec(),
+            file.dir_str().into_owned(),
+            file.name_str().into_owned(),
         );
 
         match self.cache.entry(cache_key) {
-- 
2.43.0


From af18e255c3968c6680f53fb6773db848b0ee5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:22 +0000
Subject: [PATCH 12/30] fix: don't cut symbol and file names in the middle of a
 character

---
 src/cache.rs  | 10 +++-------
 src/symbol.rs |  2 +-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 544e3b8..84411aa 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -187,15 +187,11 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
         .unwrap_or_else(|e| panic!("{}", e));
         jobs.push(job);
         if !file_name.ends_with('_') {
+            let mut compressed = file_name.to_string();
+            compressed.pop();
             let job = Job::new(
                 path,
-                format!(
-                    "{}/{}/{}/{}_",
-                    server.server,
-                    file_name,
-                    id,
-                    &file_name[..file_name.len() - 1]
-                ),
+                format!("{}/{}/{}/{}_", server.server, file_name, id, compressed),
             )
             .unwrap_or_else(|e| panic!("{}", e));
             jobs.push(job);
diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..d444e30 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -222,7 +222,7 @@ impl ParsedWinFuncName {
         }
 
         // Parse the other three.
-        if !c_decorated_name.is_empty() {
+        if c_decorated_name.starts_with(['@', '_']) {
             if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
                 if let Some((name, param_size)) = rest.rsplit_once('@') {
                     if let Ok(param_size) = param_size.parse::<u32>() {
-- 
2.43.0


From 3116c65dfa5ca27872f6e4c8609fafa19ac839c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:23 +0000
Subject: [PATCH 13/30] fix: don't panic when .gnu_debugdata is out of the file

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index d444e30..afcb315 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -169,7 +169,7 @@ pub(super) fn get_compressed_minidebuginfo(object: &Object) -> Option<Vec<u8>> {
             if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                 if section_name == ".gnu_debugdata" {
                     let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
-                    let mut buf: &[u8] = &data[start..(start + length)];
+                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;
                     let mut out: Vec<u8> = Vec::new();
                     lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                     return Some(out);
-- 
2.43.0


From 8485314980abcdb6370e5c48eb92b9521779d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:24 +0000
Subject: [PATCH 14/30] fix: don't overflow on the addresses and sizes found in
 the debug info

---
 src/collector.rs | 4 ++--
 src/line.rs      | 2 +-
 src/symbol.rs    | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/collector.rs b/src/collector.rs
index 4cca6f2..f60b244 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -202,7 +202,7 @@ impl Collector {
 
             for line in &inlinee.lines {
                 let start = line.address;
-                let end = line.address + line.size.unwrap_or(1);
+                let end = line.address.saturating_add(line.size.unwrap_or(1));
                 inline_ranges.push((start..end, inline_origin_id));
             }
 
@@ -230,7 +230,7 @@ impl Collector {
         // Iterate over the line records.
         while let Some(line) = next_line.take() {
             let line_range_start = line.address;
-            let line_range_end = line.address + line.size.unwrap_or(1);
+            let line_range_end = line.address.saturating_add(line.size.unwrap_or(1));
             let file_id = source.get_id(fun.compilation_dir, &line.file);
             let file_id = source.get_true_id(file_id);
             let line_no = line.line as u32;
diff --git a/src/line.rs b/src/line.rs
index af8a13e..1df4c12 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -237,7 +237,7 @@ impl Lines {
             ranges.sort_by_key(|range| range.rva);
             ranges.dedup_by(|next, current| {
                 if current.rva.checked_add(current.len) == Some(next.rva) {
-                    current.len += next.len;
+                    current.len = current.len.saturating_add(next.len);
                     true
                 } else {
                     false
diff --git a/src/symbol.rs b/src/symbol.rs
index afcb315..197c971 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -33,7 +33,7 @@ pub trait ContainsSymbol {
 impl ContainsSymbol for Symbols {
     fn is_inside_symbol(&self, rva: u32) -> bool {
         let last = self.range((Included(0), Excluded(rva))).next_back();
-        last.is_some_and(|last| rva < (last.1.rva + last.1.len))
+        last.is_some_and(|last| rva - last.1.rva < last.1.len)
     }
 }
 
@@ -137,7 +137,10 @@ fn append_dummy_symbol_pe_pdb(mut syms: Symbols, name: &str) -> Symbols {
         return syms;
     };
 
-    let rva = if len == 0 { rva + 1 } else { rva + len };
+    let rva = match rva.checked_add(len.max(1)) {
+        Some(rva) => rva,
+        None => return syms,
+    };
 
     let name = if name.is_empty() {
         String::from("<unknown>")
-- 
2.43.0


From 3f0795e0c293ae5f937845be60b460e57c382a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:25 +0000
Subject: [PATCH 15/30] fix: don't panic on malformed fat binaries and cabinets

---
 src/mac.rs   | 6 +++---
 src/utils.rs | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mac.rs b/src/mac.rs
index 76b5e10..1c0f6e7 100644
--- a/src/mac.rs
+++ b/src/mac.rs
@@ -25,7 +25,7 @@ impl ObjectInfo {
         // and if several then we use arch (by default it's compile-time arch).
         let archive = Archive::parse(buf)?;
         let object = if archive.object_count() == 1 {
-            archive.object_by_index(0).unwrap()
+            archive.object_by_index(0)?
         } else {
             archive
                 .objects()
@@ -58,8 +58,8 @@ pub fn print_macho_architectures(buf: &[u8], file_name: String) -> common::Resul
     let archive = Archive::parse(buf)?;
     let archs = archive
         .objects()
-        .map(|o| o.unwrap().arch().name())
-        .collect::<Vec<_>>();
+        .map(|o| o.map(|o| o.arch().name()))
+        .collect::<Result<Vec<_>, _>>()?;
     println!(
         "{} contains the following architecture{}:",
         file_name,
diff --git a/src/utils.rs b/src/utils.rs
index 67da975..e132b43 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -139,7 +139,10 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let e = match path.extension().and_then(|e| e.to_str()) {
+        Some(e) => e,
+        None => return path,
+    };
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
@@ -156,12 +159,12 @@ fn get_corrected_path(path: PathBuf) -> PathBuf {
 fn get_cabinet_files(cab: &Cabinet<Cursor<&Vec<u8>>>, path: PathBuf) -> Option<(String, usize)> {
     // Try to find in the cabinet the same path with pdb extension
     let path = get_corrected_path(path);
-    let file_name = path.file_name().unwrap();
+    let file_name = path.file_name()?;
     for folder in cab.folder_entries() {
         for file in folder.file_entries() {
             let file_size = file.uncompressed_size() as usize;
             let path = PathBuf::from(file.name());
-            if path.file_name().unwrap() == file_name {
+            if path.file_name() == Some(file_name) {
                 return Some((file.name().to_string(), file_size));
             }
         }
-- 
2.43.0


From 0bdb400643bb7ae7d175e60a69176ca6267de45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:48 +0000
Subject: [PATCH 16/30] fix: keep one record per line whatever the names in the
 input are

A newline in a symbol, file or module name ended its record and the rest of
the name was taken for another one. Only the inline origins were sanitized.
---
 src/common.rs      | 5 +++++
 src/object_info.rs | 9 ++++++---
 src/symbol.rs      | 5 +++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9cf3402..20d6c52 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -40,6 +40,11 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// Remove control characters such as \n: there is one record per line in the output.
+pub(crate) fn remove_control_chars(name: &str) -> String {
+    name.chars().filter(|c| !c.is_ascii_control()).collect()
+}
+
 pub(crate) fn fix_symbol_name<'a>(name: &'a Name<'a>) -> Name<'a> {
     static COMPILER_NNN: Lazy<Regex> = Lazy::new(|| {
         Regex::new(
diff --git a/src/object_info.rs b/src/object_info.rs
index fbf7fa5..af73e41 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -45,13 +45,16 @@ impl Display for ObjectInfo {
         writeln!(
             f,
             "MODULE {} {} {} {}",
-            self.platform, self.cpu, self.debug_id, self.file_name
+            self.platform,
+            self.cpu,
+            self.debug_id,
+            common::remove_control_chars(&self.file_name)
         )?;
 
         if let Some(code_id) = self.code_id.as_ref() {
             let pe_name = self.pe_name.as_deref().unwrap_or_default();
             let line = format!("INFO CODE_ID {code_id} {pe_name}");
-            writeln!(f, "{}", line.trim())?;
+            writeln!(f, "{}", common::remove_control_chars(line.trim()))?;
         }
 
         if let Some(extra_info) = EXTRA_INFO.get() {
@@ -61,7 +64,7 @@ impl Display for ObjectInfo {
         }
 
         for (n, file_name) in self.files.get_mapping().iter().enumerate() {
-            writeln!(f, "FILE {n} {file_name}")?;
+            writeln!(f, "FILE {n} {}", common::remove_control_chars(file_name))?;
         }
 
         for (n, function_name) in self.inline_origins.iter().enumerate() {
diff --git a/src/symbol.rs b/src/symbol.rs
index 197c971..47830f5 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -8,6 +8,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Bound::{Excluded, Included};
 use symbolic::debuginfo::Object;
 
+use crate::common;
 use crate::line::Lines;
 
 const PDB_MAGIC: u64 = 7381245236781214029;
@@ -46,7 +47,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                self.name,
+                common::remove_control_chars(&self.name),
             )?;
         } else {
             writeln!(
@@ -56,7 +57,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                self.name,
+                common::remove_control_chars(&self.name),
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From 6ac7f657c04cfafa6a002f19866a360cfd4aeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:14 +0000
Subject: [PATCH 17/30] fix: store the symbols even if the name of the store
 isn't valid UTF-8

Nothing was written and the dump was considered as successful.
---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 107f314..c5a3faa 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -205,7 +205,7 @@ fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::R
     anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");
 
     let sym_store_path = |dir: &Path| -> Option<PathBuf> {
-        if dir.to_str()?.is_empty() {
+        if dir.as_os_str().is_empty() {
             return None;
         }
 
-- 
2.43.0


From fd38b1c49968b294e9a9d1e44636b80356a64f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:15 +0000
Subject: [PATCH 18/30] fix: don't write out of the store because of the name
 of a module

The name comes from the file itself (soname, PDB name): with ".." the
symbols ended up next to the store and not in it.
---
 src/dumper.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index c5a3faa..f4813aa 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -6,6 +6,7 @@
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
+use std::ffi::OsStr;
 use std::fmt;
 use std::fs;
 use std::panic::{self, AssertUnwindSafe};
@@ -204,27 +205,32 @@ pub fn get_writer_for_sym(fo: &FileOutput) -> std::io::BufWriter<Box<dyn std::io
 fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::Result<()> {
     anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");
 
-    let sym_store_path = |dir: &Path| -> Option<PathBuf> {
+    let sym_store_path = |dir: &Path| -> common::Result<Option<PathBuf>> {
         if dir.as_os_str().is_empty() {
-            return None;
+            return Ok(None);
         }
 
+        // The name may come from the contents of the file: it mustn't lead out of the store.
+        let name = object_info.get_name();
+        anyhow::ensure!(
+            Path::new(name).file_name() == Some(OsStr::new(name)),
+            "Invalid module name: {:?}",
+            name
+        );
+
         let mut pb = PathBuf::new();
         pb.push(dir);
-        pb.push(utils::get_path_for_sym(
-            object_info.get_name(),
-            object_info.get_debug_id(),
-        ));
-        Some(pb)
+        pb.push(utils::get_path_for_sym(name, object_info.get_debug_id()));
+        Ok(Some(pb))
     };
 
     let (foutput, store) = match output {
         Output::File(fo) => (Some(fo), None),
-        Output::Store(store) => (None, sym_store_path(store)),
+        Output::Store(store) => (None, sym_store_path(store)?),
         Output::FileAndStore {
             file,
             store_directory,
-        } => (Some(file), sym_store_path(store_directory)),
+        } => (Some(file), sym_store_path(store_directory)?),
     };
 
     if let Some(store) = store {
-- 
2.43.0


From 31731127e5030a57dfbc969250be6f6f1707f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:15 +0000
Subject: [PATCH 19/30] fix: look for the PDB in the current directory and not
 in its parent

---
 src/windows/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..31f24bd 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -24,7 +24,7 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
+    pdb.push(pdb_filename);
     if pdb.is_file() {
         Some(utils::read_file(pdb))
     } else {
-- 
2.43.0


From 74cec8b5fd2b03e099142579d9f25316dd6f4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 20/30] fix: use the symbol server when several files are
 dumped

---
 src/dumper.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index f4813aa..d39dc1a 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -401,6 +401,7 @@ fn consumer(
     num_threads: usize,
     output: Output,
     check_cfi: bool,
+    symbol_server: Option<String>,
 ) -> common::Result<()> {
     while let Ok(job) = receiver.recv() {
         if job.is_none() {
@@ -420,8 +421,15 @@ fn consumer(
                 let filename = utils::get_filename(&path);
                 let buf = utils::read_file(&path);
 
-                let info =
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
+                let info = get_object_info(
+                    buf,
+                    &path,
+                    &filename,
+                    mapping,
+                    arch,
+                    symbol_server.as_deref(),
+                    collect_inlines,
+                )?;
 
                 let mut results = results.lock().unwrap();
                 let info = if let Some(prev) = results.remove(info.get_debug_id()) {
@@ -483,6 +491,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let output = config.output.clone();
 
         let check_cfi = config.check_cfi;
+        let symbol_server = config.symbol_server.map(ToOwned::to_owned);
 
         let t = thread::Builder::new()
             .name(format!("dump-syms {i}"))
@@ -490,7 +499,15 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
                 let poison_sender = sender.clone();
                 let res = panic::catch_unwind(AssertUnwindSafe(|| {
                     consumer(
-                        arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
+                        arch,
+                        sender,
+                        receiver,
+                        results,
+                        counter,
+                        num_jobs,
+                        output,
+                        check_cfi,
+                        symbol_server,
                     )
                 }));
                 if !matches!(res, Ok(Ok(()))) {
-- 
2.43.0


From bd91bf43f3b9dc6cc40b2f4a45f61f1cb5b6b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 21/30] fix: honour the path mappings and --inlines for the PE
 files with debug info

---
 src/dumper.rs      | 14 ++++++++++----
 src/windows/pdb.rs | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index d39dc1a..ffa4e34 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -180,10 +180,16 @@ fn get_pe_pdb_object_info<'a>(
     anyhow::bail!("HTTP symbol retrieval not enabled")
 }
 
-fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result<ObjectInfo> {
+fn get_pe_object_info(
+    buf: &[u8],
+    path: &Path,
+    filename: &str,
+    mapping: Option<Arc<PathMappings>>,
+    collect_inlines: bool,
+) -> common::Result<ObjectInfo> {
     let pe = PeObject::parse(buf)
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
-    let pe = ObjectInfo::from_pe(filename, pe)?;
+    let pe = ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)?;
     Ok(pe)
 }
 
@@ -326,13 +332,13 @@ fn get_object_info(
                 &buf,
                 path,
                 filename,
-                file_mapping,
+                file_mapping.clone(),
                 symbol_server,
                 emit_inlines,
             ) {
                 pdb_info
             } else {
-                get_pe_object_info(&buf, path, filename)?
+                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
             }
         }
         FileFormat::MachO => {
diff --git a/src/windows/pdb.rs b/src/windows/pdb.rs
index d624ac6..826a4b6 100644
--- a/src/windows/pdb.rs
+++ b/src/windows/pdb.rs
@@ -35,6 +35,16 @@ impl ObjectInfo {
     }
 
     pub fn from_pe(pe_name: &str, pe: PeObject) -> common::Result<Self> {
+        Self::from_pe_with_mapping(pe_name, pe, None, false)
+    }
+
+    /// The PE files built with MinGW contain some debug information.
+    pub fn from_pe_with_mapping(
+        pe_name: &str,
+        pe: PeObject,
+        mapping: Option<Arc<PathMappings>>,
+        collect_inlines: bool,
+    ) -> common::Result<Self> {
         let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
         let pe = Object::Pe(pe);
         let pdb_name = win_path_file_name(&pdb_name).to_string();
@@ -44,8 +54,8 @@ impl ObjectInfo {
             None,
             Some(pe_name),
             Platform::Win,
-            None,
-            false,
+            mapping,
+            collect_inlines,
         )
     }
 }
-- 
2.43.0


From ccc9530af218743beef4e18b293eba733c4e109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 22/30] fix: don't mix up the symbols of several modules on
 stdout

---
 src/dumper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index ffa4e34..9a77492 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -196,8 +196,8 @@ fn get_pe_object_info(
 #[inline]
 pub fn get_writer_for_sym(fo: &FileOutput) -> std::io::BufWriter<Box<dyn std::io::Write>> {
     let output: Box<dyn std::io::Write> = match fo {
-        FileOutput::Stdout => Box::new(std::io::stdout()),
-        FileOutput::Stderr => Box::new(std::io::stderr()),
+        FileOutput::Stdout => Box::new(std::io::stdout().lock()),
+        FileOutput::Stderr => Box::new(std::io::stderr().lock()),
         FileOutput::Path(path) => {
             let output = std::fs::File::create(path)
                 .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.display()));
-- 
2.43.0


From 0e300aa5c8a03bbfbe6be7e1dc151441a5a43f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:09 +0000
Subject: [PATCH 23/30] fix: keep the name of the PE with its code id when
 merging

---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index af73e41..3f62925 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -285,6 +285,7 @@ impl ObjectInfo {
 
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
+            left.pe_name = right.pe_name;
         }
 
         if right.bin_type == Type::Stripped {
-- 
2.43.0


From 21f36774182584de4911b52b3ff15e4748a6ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:09 +0000
Subject: [PATCH 24/30] fix: don't use a PDB which doesn't belong to the PE
 file

A stale PDB next to the PE gave some symbols with the wrong identity.
---
 src/windows/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 31f24bd..a6befe5 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -4,6 +4,8 @@
 // copied, modified, or distributed except according to those terms.
 
 use std::path::Path;
+#[cfg(feature = "http")]
+use symbolic::debuginfo::pdb::PdbObject;
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
 #[cfg(feature = "http")]
@@ -64,6 +66,9 @@ pub fn get_pe_pdb_buf<'a>(
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
         let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
+        // The PDB next to the PE may come from another build
+        let pdb = pdb
+            .filter(|buf| PdbObject::parse(buf).is_ok_and(|pdb| pdb.debug_id() == pe.debug_id()));
         if pdb_name.is_empty() {
             log::warn!("Invalid pdb filename in PE file: \"{pdb_filename}\"");
             None
-- 
2.43.0


From 1c5991041b04cf78d34b705227fb159f34f474c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:51 +0000
Subject: [PATCH 25/30] fix: don't merge the modules which have no debug id

The PE files built with MinGW usually have no debug id: dumping several of
them at once gave only one module with the symbols of all of them.
---
 src/dumper.rs      | 11 +++++++++--
 src/object_info.rs |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 9a77492..e4b553f 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -437,15 +437,22 @@ fn consumer(
                     collect_inlines,
                 )?;
 
+                // Without a debug id nothing says that two files belong to the same module
+                let key = if info.has_debug_id() {
+                    info.get_debug_id().to_string()
+                } else {
+                    path.to_string_lossy().to_string()
+                };
+
                 let mut results = results.lock().unwrap();
-                let info = if let Some(prev) = results.remove(info.get_debug_id()) {
+                let info = if let Some(prev) = results.remove(&key) {
                     ObjectInfo::merge(info, prev).inspect_err(|_e| {
                         poison_queue(&sender, num_threads);
                     })?
                 } else {
                     info
                 };
-                results.insert(info.get_debug_id().to_string(), info);
+                results.insert(key, info);
             }
             JobType::Dump(d) => {
                 self::store(&output, check_cfi, d)?;
diff --git a/src/object_info.rs b/src/object_info.rs
index 3f62925..38b45fa 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -305,6 +305,10 @@ impl ObjectInfo {
         &self.debug_id
     }
 
+    pub fn has_debug_id(&self) -> bool {
+        self.debug_id.bytes().any(|c| c != b'0')
+    }
+
     pub fn get_name(&self) -> &str {
         &self.file_name
     }
-- 
2.43.0


From 32c40454b3f250fe228f3b2973feb396cd1b9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:36 +0000
Subject: [PATCH 26/30] fix: don't let the placeholder functions displace the
 real symbols in a merge

The functions made up from the exception data of a PE marked the functions of
its PDB as multiple, replaced its public symbols and, when the PE had more
symbols than the PDB, displaced its functions with their lines.
---
 src/object_info.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 38b45fa..1f80de3 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -266,14 +266,22 @@ impl ObjectInfo {
             match left.symbols.entry(*addr) {
                 btree_map::Entry::Occupied(mut e) => {
                     let a_sym = e.get_mut();
-                    if a_sym.is_public {
-                        // FUNC is more interesting than the PUBLIC
+                    if sym.is_synthetic && !(a_sym.is_public && a_sym.is_synthetic) {
+                        // Do not replace an existing symbol with a synthetic one
+                        continue;
+                    }
+
+                    if a_sym.is_public || a_sym.is_synthetic {
+                        // FUNC is more interesting than the PUBLIC or than a synthetic one
                         // so just keep the FUNC
                         sym.remap_lines(file_remapping.as_deref());
                         sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                         std::mem::swap(a_sym, sym);
                     }
-                    a_sym.is_multiple = true;
+
+                    if !sym.is_synthetic {
+                        a_sym.is_multiple = true;
+                    }
                 }
                 btree_map::Entry::Vacant(e) => {
                     sym.remap_lines(file_remapping.as_deref());
-- 
2.43.0


From 8c8799ba769364d6e083ded988463f06725b1508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:29 +0000
Subject: [PATCH 27/30] fix: don't write records without a name

A function or a public symbol may have no name, or a blank one; the name
isn't optional in FUNC and PUBLIC records, and the parsers reject the file.
---
 src/symbol.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 47830f5..1c007a2 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -40,6 +40,14 @@ impl ContainsSymbol for Symbols {
 
 impl Display for Symbol {
     fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
+        let name = common::remove_control_chars(&self.name);
+        // The name isn't optional in a record
+        let name = if name.trim().is_empty() {
+            "<name omitted>"
+        } else {
+            &name
+        };
+
         if self.is_public {
             writeln!(
                 f,
@@ -47,7 +55,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                common::remove_control_chars(&self.name),
+                name,
             )?;
         } else {
             writeln!(
@@ -57,7 +65,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                common::remove_control_chars(&self.name),
+                name,
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From a887555623163b6edefba84560a6fca334971ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:20 +0000
Subject: [PATCH 28/30] fix: keep the path of a source file whose digest can't
 be computed

The mapping error is reported and the path is kept, as when the file
doesn't exist, instead of aborting the dump.
---
 src/utils.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index e132b43..b0bac47 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
+use anyhow::Context;
 use cab::Cabinet;
 use std::fs::{self, File, Metadata};
 use std::io::{Cursor, Read};
@@ -207,20 +208,12 @@ pub fn get_filename(path: &Path) -> String {
 
 pub fn read<P: AsRef<Path>>(path: P) -> common::Result<Vec<u8>> {
     let file_size = fs::metadata(&path)?.len() as usize;
-    let mut file = File::open(&path).unwrap_or_else(|_| {
-        panic!(
-            "Unable to open the file {}",
-            path.as_ref().to_str().unwrap()
-        )
-    });
+    let mut file = File::open(&path)
+        .with_context(|| format!("Unable to open the file {}", path.as_ref().display()))?;
 
     let mut buf = Vec::with_capacity(file_size + 1);
-    file.read_to_end(&mut buf).unwrap_or_else(|_| {
-        panic!(
-            "Unable to read the file {}",
-            path.as_ref().to_str().unwrap()
-        )
-    });
+    file.read_to_end(&mut buf)
+        .with_context(|| format!("Unable to read the file {}", path.as_ref().display()))?;
 
     Ok(buf)
 }
-- 
2.43.0


From ce33c74d8528edd061a420653256b1278cc6eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:37 +0000
Subject: [PATCH 29/30] fix: report a PE file that can't be parsed as an error

A truncated or malformed PE file made the tool panic.
---
 src/dumper.rs        | 3 ++-
 src/windows/utils.rs | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e4b553f..86ae95a 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,6 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
+use anyhow::Context;
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
@@ -188,7 +189,7 @@ fn get_pe_object_info(
     collect_inlines: bool,
 ) -> common::Result<ObjectInfo> {
     let pe = PeObject::parse(buf)
-        .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
+        .with_context(|| format!("Unable to parse the PE file {}", path.display()))?;
     let pe = ObjectInfo::from_pe_with_mapping(filename, pe, mapping, collect_inlines)?;
     Ok(pe)
 }
diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index a6befe5..85d08ef 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -61,8 +61,7 @@ pub fn get_pe_pdb_buf<'a>(
     buf: &'a [u8],
     symbol_server: Option<&Vec<SymbolServer>>,
 ) -> Option<(PeObject<'a>, Vec<u8>, String)> {
-    let pe = PeObject::parse(buf)
-        .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
+    let pe = PeObject::parse(buf).ok()?;
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
         let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
-- 
2.43.0


From 863a4a81c9982c31bd140955255019191607b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:40 +0000
Subject: [PATCH 30/30] fix: an extra INFO line can't end or forge a record

A line given with --extra-info was copied as it is, so one with a line break
made several records.
---
 src/object_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index 1f80de3..2f666ba 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -59,7 +59,7 @@ impl Display for ObjectInfo {
 
         if let Some(extra_info) = EXTRA_INFO.get() {
             for line in extra_info {
-                writeln!(f, "INFO {line:}")?;
+                writeln!(f, "INFO {}", common::remove_control_chars(line))?;
             }
         }
 
-- 
2.43.0

