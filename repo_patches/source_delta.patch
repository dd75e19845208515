From f540a9c5b3dc6a99c23141dbbe0b8832a588beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:03 +0000
Subject: [PATCH 01/35] fix: remember the files added by SourceMap::merge

A path appended to id_to_ref was not added to ref_to_id, so merging a third
file listed the path twice and mapped its lines to a wrong FILE id.
---
 src/source.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/source.rs b/src/source.rs
index f80105a..05a20b3 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -186,6 +186,8 @@ impl SourceMap {
                 let new_id = self.id_to_ref.len() as u32;
                 remapping[id] = new_id;
                 self.id_to_ref.push(other.id_to_ref[id].clone());
+                // remember it, so that the next merge finds it
+                self.ref_to_id.insert(path.clone(), new_id);
             }
         }
 
-- 
2.43.0


From 7090699c3aba98cf0068d0b17a49fa8aca8042a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:38 +0000
Subject: [PATCH 02/35] fix: don't look up temporaries by address in the cache
 of source files

---
 src/source.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 05a20b3..7f8723a 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -5,6 +5,7 @@
 
 use hashbrown::{hash_map, HashMap};
 use log::error;
+use std::borrow::Cow;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -95,11 +96,17 @@ impl SourceFiles {
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
         // A lot of paths are a slice on the same string in the debug file
         // so just use a cache based on the string pointers.
+        let (dir, name) = (file.dir_str(), file.name_str());
         let cache_key = (
             Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
+            Self::cast_ptr(dir.as_bytes()),
+            Self::cast_ptr(name.as_bytes()),
         );
+        if matches!(dir, Cow::Owned(_)) || matches!(name, Cow::Owned(_)) {
+            // Not a slice of the debug file (e.g. the name isn't utf-8) but a temporary: an entry
+            // with the same address is about an other string which has been freed in the meantime.
+            self.cache.remove(&cache_key);
+        }
 
         match self.cache.entry(cache_key) {
             hash_map::Entry::Occupied(e) => *e.get(),
-- 
2.43.0


From bc52cc45a4255d452d12cbe78de37eeac7512faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:41 +0000
Subject: [PATCH 03/35] fix: keep absolute file names as they are

---
 src/source.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index 7f8723a..c0072fc 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -78,7 +78,12 @@ impl SourceFiles {
             let comp_dir = Self::path_to_string(compilation_dir);
             dir = platform.join_paths(&comp_dir, &dir);
         };
-        let path = platform.join_paths(&dir, &name);
+        let path = if !name.is_empty() && platform.is_absolute_path(&name) {
+            // The name is enough (that's the case in binaries produced by Go).
+            name.to_string()
+        } else {
+            platform.join_paths(&dir, &name)
+        };
 
         if canonicalize {
             // Try to get the real path and in case we're on the machine where the files have been compiled
-- 
2.43.0


From e31280c4c376609b0e2764e71f51c737dc210f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:45 +0000
Subject: [PATCH 04/35] fix: join Linux-style paths with a slash below the root
 too

---
 src/platform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/platform.rs b/src/platform.rs
index e881c9f..ed219a0 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -47,13 +47,14 @@ impl Platform {
                 // That's because Platform::Win is used for all PDB files, even for
                 // PDB files for build that were (cross-)compiled on a Linux machine;
                 // those contain Linux paths.
+                let is_linux_path = left.starts_with('/');
                 let left = left.trim_end_matches(['/', '\\']);
                 let right = right.trim_start_matches(['/', '\\']);
 
                 // If `left` happens to be an absolute Linux-style path, use `/` as
                 // the separator. This covers the PDB-on-Linux case we care about; all
                 // the paths in such a PDB appear to be absolute paths.
-                if left.starts_with('/') {
+                if is_linux_path {
                     format!("{left}/{right}")
                 } else {
                     format!("{left}\\{right}")
-- 
2.43.0


From c79469e29ba78c66b80ee7df6796f7ccbaad4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:36 +0000
Subject: [PATCH 05/35] fix: don't let control characters in names break the
 records

---
 src/common.rs      | 10 ++++++++++
 src/object_info.rs |  8 ++++++--
 src/symbol.rs      |  5 +++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9cf3402..fdba2a8 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,6 +5,7 @@
 
 use once_cell::sync::{Lazy, OnceCell};
 use regex::Regex;
+use std::borrow::Cow;
 use std::env::consts::ARCH;
 use std::result;
 use symbolic::common::{Arch, Name};
@@ -40,6 +41,15 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// Remove control characters such as \n: a record is made of a single line.
+pub(crate) fn remove_control_chars(text: &str) -> Cow<'_, str> {
+    if text.contains(|c: char| c.is_ascii_control()) {
+        Cow::Owned(text.replace(|c: char| c.is_ascii_control(), ""))
+    } else {
+        Cow::Borrowed(text)
+    }
+}
+
 pub(crate) fn fix_symbol_name<'a>(name: &'a Name<'a>) -> Name<'a> {
     static COMPILER_NNN: Lazy<Regex> = Lazy::new(|| {
         Regex::new(
diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..63df0e8 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -45,13 +45,16 @@ impl Display for ObjectInfo {
         writeln!(
             f,
             "MODULE {} {} {} {}",
-            self.platform, self.cpu, self.debug_id, self.file_name
+            self.platform,
+            self.cpu,
+            self.debug_id,
+            common::remove_control_chars(&self.file_name)
         )?;
 
         if let Some(code_id) = self.code_id.as_ref() {
             let pe_name = self.pe_name.as_deref().unwrap_or_default();
             let line = format!("INFO CODE_ID {code_id} {pe_name}");
-            writeln!(f, "{}", line.trim())?;
+            writeln!(f, "{}", common::remove_control_chars(line.trim()))?;
         }
 
         if let Some(extra_info) = EXTRA_INFO.get() {
@@ -61,6 +64,7 @@ impl Display for ObjectInfo {
         }
 
         for (n, file_name) in self.files.get_mapping().iter().enumerate() {
+            let file_name = common::remove_control_chars(file_name);
             writeln!(f, "FILE {n} {file_name}")?;
         }
 
diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..f769002 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -8,6 +8,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Bound::{Excluded, Included};
 use symbolic::debuginfo::Object;
 
+use crate::common;
 use crate::line::Lines;
 
 const PDB_MAGIC: u64 = 7381245236781214029;
@@ -46,7 +47,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                self.name,
+                common::remove_control_chars(&self.name),
             )?;
         } else {
             writeln!(
@@ -56,7 +57,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                self.name,
+                common::remove_control_chars(&self.name),
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From dc101f22356d1e8e2644d78c4c1d2a8743124cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:44 +0000
Subject: [PATCH 06/35] fix: don't panic on a symbol name starting with a
 non-ASCII character

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index f769002..5ce9d63 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -223,7 +223,7 @@ impl ParsedWinFuncName {
         }
 
         // Parse the other three.
-        if !c_decorated_name.is_empty() {
+        if c_decorated_name.is_char_boundary(1) {
             if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
                 if let Some((name, param_size)) = rest.rsplit_once('@') {
                     if let Ok(param_size) = param_size.parse::<u32>() {
-- 
2.43.0


From 0290a1d950b6e19eeb13f8818ffdb1b0c48bb1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:32 +0000
Subject: [PATCH 07/35] fix: don't let a SONAME that names no file leave the
 symbol store

---
 src/object_info.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 63df0e8..ec743c9 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -170,6 +170,11 @@ impl ObjectInfo {
             (Object::MachO(macho), _) => macho.name().unwrap_or(main_file_name),
             _ => main_file_name,
         };
+        // The name stored in the object may not name a file
+        let file_name = match Self::file_name_only(file_name) {
+            "" | "." | ".." => main_file_name,
+            _ => file_name,
+        };
 
         Ok(Self {
             symbols,
-- 
2.43.0


From 349dae236c2eb2d83eef1213178b1888c76e11eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:31 +0000
Subject: [PATCH 08/35] fix: report an error when the last of the symbols
 cannot be written

---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index ec743c9..0916f32 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -302,6 +302,7 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From d8f710b1dd39b9e89dc2245d2cc1d7d59203419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:04 +0000
Subject: [PATCH 09/35] fix: don't overflow on symbols reaching the end of the
 address space

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 5ce9d63..be75c44 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -34,7 +34,7 @@ pub trait ContainsSymbol {
 impl ContainsSymbol for Symbols {
     fn is_inside_symbol(&self, rva: u32) -> bool {
         let last = self.range((Included(0), Excluded(rva))).next_back();
-        last.is_some_and(|last| rva < (last.1.rva + last.1.len))
+        last.is_some_and(|last| rva - last.1.rva < last.1.len)
     }
 }
 
-- 
2.43.0


From 7cb57f914490ec9fb078cafc68ad2f52f9353032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:04 +0000
Subject: [PATCH 10/35] fix: don't panic on a truncated .gnu_debugdata section

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index be75c44..cb32bbd 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -170,7 +170,7 @@ pub(super) fn get_compressed_minidebuginfo(object: &Object) -> Option<Vec<u8>> {
             if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                 if section_name == ".gnu_debugdata" {
                     let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
-                    let mut buf: &[u8] = &data[start..(start + length)];
+                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;
                     let mut out: Vec<u8> = Vec::new();
                     lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                     return Some(out);
-- 
2.43.0


From 806423365678aaa470d1c772e9708a9051b70ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:10 +0000
Subject: [PATCH 11/35] fix: don't deadlock when one job has several modules to
 store

---
 src/dumper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..59c856e 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -465,7 +465,8 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     let num_jobs = config.num_jobs.min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // The workers send jobs too, so they mustn't block on a full queue.
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From 9b512b289e5326dafe2db0c531b8049b2bd878fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:10 +0000
Subject: [PATCH 12/35] fix: let exactly one worker find out that the last file
 is loaded

---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 59c856e..293a038 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From 987f5a361692c575d38768137b85af3afaabf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:10 +0000
Subject: [PATCH 13/35] fix: let the other workers end when the only module
 cannot be stored

---
 src/dumper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 293a038..374e4c3 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -359,7 +359,9 @@ fn send_store_jobs(
 ) -> common::Result<()> {
     if results.len() == 1 {
         let (_, d) = results.drain().take(1).next().unwrap();
-        self::store(&output, check_cfi, d)?;
+        // The other threads have nothing left to do, whether the symbols can be stored or not.
+        poison_queue(sender, num_threads);
+        return self::store(&output, check_cfi, d);
     } else {
         for (_, d) in results.drain() {
             sender
-- 
2.43.0


From 49ec16d506e929000566ad5804a4a309b02c8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:03 +0000
Subject: [PATCH 14/35] fix: dump the other files when one cannot be loaded,
 instead of waiting for it

---
 src/dumper.rs | 70 +++++++++++++++++++++++++++++++++++----------------
 src/utils.rs  | 21 ++++++++--------
 2 files changed, 60 insertions(+), 31 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 374e4c3..2573060 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -386,6 +386,31 @@ fn poison_queue(sender: &Sender<Option<JobItem>>, num_threads: usize) {
     }
 }
 
+/// Load a file and add it to what has been found for its debug id.
+fn load(
+    file: String,
+    mapping: Option<Arc<PathMappings>>,
+    arch: Arch,
+    collect_inlines: bool,
+    results: &Mutex<HashMap<String, ObjectInfo>>,
+) -> common::Result<()> {
+    let path = PathBuf::from(file);
+    let filename = utils::get_filename(&path);
+    let buf = utils::try_read_file(&path)?;
+
+    let info = get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
+
+    let mut results = results.lock().unwrap();
+    let info = if let Some(prev) = results.remove(info.get_debug_id()) {
+        ObjectInfo::merge(info, prev)?
+    } else {
+        info
+    };
+    results.insert(info.get_debug_id().to_string(), info);
+
+    Ok(())
+}
+
 #[allow(clippy::too_many_arguments)]
 fn consumer(
     arch: Arch,
@@ -397,9 +422,11 @@ fn consumer(
     output: Output,
     check_cfi: bool,
 ) -> common::Result<()> {
+    let mut result = Ok(());
+
     while let Ok(job) = receiver.recv() {
         if job.is_none() {
-            return Ok(());
+            break;
         }
 
         let JobItem {
@@ -411,25 +438,15 @@ fn consumer(
 
         match typ {
             JobType::Get => {
-                let path = PathBuf::from(file);
-                let filename = utils::get_filename(&path);
-                let buf = utils::read_file(&path);
-
-                let info =
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
-
-                let mut results = results.lock().unwrap();
-                let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
-                        poison_queue(&sender, num_threads);
-                    })?
-                } else {
-                    info
-                };
-                results.insert(info.get_debug_id().to_string(), info);
+                // The other files must be dumped even if this one cannot be.
+                if let Err(e) = load(file, mapping, arch, collect_inlines, &results) {
+                    keep_error(&mut result, e);
+                }
             }
             JobType::Dump(d) => {
-                self::store(&output, check_cfi, d)?;
+                if let Err(e) = self::store(&output, check_cfi, d) {
+                    keep_error(&mut result, e);
+                }
                 continue;
             }
         }
@@ -438,18 +455,29 @@ fn consumer(
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
-            send_store_jobs(
+            if let Err(e) = send_store_jobs(
                 &sender,
                 &mut results,
                 num_threads,
                 output.clone(),
                 check_cfi,
                 collect_inlines,
-            )?;
+            ) {
+                keep_error(&mut result, e);
+            }
         }
     }
 
-    Ok(())
+    result
+}
+
+/// Keep the first error and log the others.
+fn keep_error(result: &mut common::Result<()>, e: anyhow::Error) {
+    if result.is_ok() {
+        *result = Err(e);
+    } else {
+        error!("{e}");
+    }
 }
 
 pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()> {
diff --git a/src/utils.rs b/src/utils.rs
index 67da975..8960368 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
+use anyhow::anyhow;
 use cab::Cabinet;
 use std::fs::{self, File, Metadata};
 use std::io::{Cursor, Read};
@@ -11,26 +12,26 @@ use std::path::{Component, Path, PathBuf};
 use crate::common;
 
 pub fn read_file<P: AsRef<Path>>(path: P) -> Vec<u8> {
-    let metadata = fs::metadata(&path).unwrap_or_else(|_| {
-        panic!(
-            "Unable to open the file {}",
-            path.as_ref().to_str().unwrap()
-        )
-    });
+    try_read_file(path).unwrap_or_else(|e| panic!("{e}"))
+}
+
+pub(crate) fn try_read_file<P: AsRef<Path>>(path: P) -> common::Result<Vec<u8>> {
+    let metadata = fs::metadata(&path)
+        .map_err(|_| anyhow!("Unable to open the file {}", path.as_ref().display()))?;
 
     let (metadata, path) = get_mac_bundle(&metadata, &path)
         .unwrap_or_else(|| (metadata, PathBuf::from(path.as_ref())));
 
     let file_size = metadata.len() as usize;
-    let mut file = File::open(&path)
-        .unwrap_or_else(|_| panic!("Unable to open the file {}", path.to_str().unwrap()));
+    let mut file =
+        File::open(&path).map_err(|_| anyhow!("Unable to open the file {}", path.display()))?;
 
     let mut buf = Vec::with_capacity(file_size + 1);
     file.read_to_end(&mut buf)
-        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));
+        .map_err(|_| anyhow!("Unable to read the file {}", path.display()))?;
 
     read_cabinet(buf, path.clone())
-        .unwrap_or_else(|| panic!("Unable to read the cabinet file {}", path.to_str().unwrap()))
+        .ok_or_else(|| anyhow!("Unable to read the cabinet file {}", path.display()))
 }
 
 pub(crate) fn get_base(file_name: &str) -> PathBuf {
-- 
2.43.0


From f921de38d89835595d852077a12e3b7d9eef483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:03 +0000
Subject: [PATCH 15/35] fix: report an error when some of several files could
 not be dumped

---
 src/dumper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 2573060..4ca3cc3 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -529,11 +529,12 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut result = Ok(());
     for receiver in receivers {
         if let Err(e) = receiver.join().unwrap() {
-            error!("{e}");
+            keep_error(&mut result, e);
         }
     }
 
-    Ok(())
+    result
 }
-- 
2.43.0


From af46e60a07f13a17d09c43dad6a5f45ca2c3f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:44 +0000
Subject: [PATCH 16/35] fix: dump several files even if asked for no job at all

---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 4ca3cc3..de0c6b4 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -490,7 +490,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.min(filenames.len()).max(1);
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
     // The workers send jobs too, so they mustn't block on a full queue.
-- 
2.43.0


From 8ee242afa65b04754eab9f6094a88297250d5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:47 +0000
Subject: [PATCH 17/35] fix: a symbol file could be left truncated in a cache
 when writing it failed or was interrupted

---
 src/cache.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..b5f4798 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -136,12 +136,22 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    let output = File::create(&path)
-        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.to_str().unwrap()));
+    // Write in a temporary file which is then renamed: an interrupted write must never
+    // leave a truncated file in the cache.
+    let mut tmp = path.clone().into_os_string();
+    tmp.push(format!(".{}.tmp", std::process::id()));
+    let tmp = PathBuf::from(tmp);
+    let output = File::create(&tmp)
+        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", tmp.to_str().unwrap()));
     let mut output = BufWriter::new(output);
     output
         .write_all(data)
-        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
+        .and_then(|_| output.flush())
+        .and_then(|_| fs::rename(&tmp, &path))
+        .unwrap_or_else(|_| {
+            let _ = fs::remove_file(&tmp);
+            panic!("Cannot write file {}", path.to_str().unwrap())
+        });
 
     true
 }
-- 
2.43.0


From bcfe1c3d6c60045e3be2b67b04d66301c1fe9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:47 +0000
Subject: [PATCH 18/35] fix: the error page of a symbol server was cached and
 used as the file asked for

---
 src/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache.rs b/src/cache.rs
index b5f4798..21ffb92 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -248,7 +248,7 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
             .header(USER_AGENT, DEFAULT_USER_AGENT)
             .send();
         if let Ok(mut resp) = resp {
-            if resp.copy_to(&mut buf).is_err() {
+            if resp.status() != 200 || resp.copy_to(&mut buf).is_err() {
                 None
             } else if copy_in_cache(job.cache, &buf) {
                 Some(buf)
-- 
2.43.0


From 9539a1f08db3178fbab05b62203955ac609476d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 19/35] fix: searching a file whose name ends with a non-ASCII
 character panicked

---
 src/cache.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 21ffb92..4cf49d8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -186,15 +186,11 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
         .unwrap_or_else(|e| panic!("{}", e));
         jobs.push(job);
         if !file_name.ends_with('_') {
+            let mut base_name = file_name.to_string();
+            base_name.pop();
             let job = Job::new(
                 path,
-                format!(
-                    "{}/{}/{}/{}_",
-                    server.server,
-                    file_name,
-                    id,
-                    &file_name[..file_name.len() - 1]
-                ),
+                format!("{}/{}/{}/{}_", server.server, file_name, id, base_name),
             )
             .unwrap_or_else(|e| panic!("{}", e));
             jobs.push(job);
-- 
2.43.0


From 192f9a07c924e51ea4359457b528852f6b7d30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:04 +0000
Subject: [PATCH 20/35] fix: a symbol at the end of the address space made
 dumping a PDB or a PE panic

---
 src/symbol.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index cb32bbd..e91800b 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -138,7 +138,10 @@ fn append_dummy_symbol_pe_pdb(mut syms: Symbols, name: &str) -> Symbols {
         return syms;
     };
 
-    let rva = if len == 0 { rva + 1 } else { rva + len };
+    // No room for a placeholder when the last symbol reaches the end of the address space.
+    let Some(rva) = rva.checked_add(len.max(1)) else {
+        return syms;
+    };
 
     let name = if name.is_empty() {
         String::from("<unknown>")
-- 
2.43.0


From e343b44718eec6f7629ae418d647f9fd89de0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:28 +0000
Subject: [PATCH 21/35] fix: the second part of an inlined call on the same
 line got the line of its caller

---
 src/collector.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/collector.rs b/src/collector.rs
index 4cca6f2..974fcd1 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -226,10 +226,16 @@ impl Collector {
         let mut next_inline = inline_iter.next();
 
         let mut prev_line_info = None;
+        let mut prev_line_end = 0;
 
         // Iterate over the line records.
         while let Some(line) = next_line.take() {
             let line_range_start = line.address;
+            if prev_line_end < line_range_start {
+                // There is a hole before this record, which may belong to the caller: the line
+                // must be emitted even if it's the same as the previous one.
+                prev_line_info = None;
+            }
             let line_range_end = line.address + line.size.unwrap_or(1);
             let file_id = source.get_id(fun.compilation_dir, &line.file);
             let file_id = source.get_true_id(file_id);
@@ -325,6 +331,8 @@ impl Collector {
                 }
             }
 
+            prev_line_end = current_address;
+
             // Advance the line iterator.
             next_line = line_iter.next();
 
-- 
2.43.0


From e7f383569651d9fc02b011ab51bf9f84aa8509d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:01 +0000
Subject: [PATCH 22/35] fix: the PDB of a PE was looked for in the parent of
 the current directory

---
 src/windows/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..31f24bd 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -24,7 +24,7 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
+    pdb.push(pdb_filename);
     if pdb.is_file() {
         Some(utils::read_file(pdb))
     } else {
-- 
2.43.0


From 481591394fdd2cf98271360423b0fccaf1e007c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:39 +0000
Subject: [PATCH 23/35] fix: a PE was dumped with the PDB of another build when
 one lay beside it

---
 src/windows/utils.rs | 45 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 31f24bd..d912cd9 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -4,36 +4,53 @@
 // copied, modified, or distributed except according to those terms.
 
 use std::path::Path;
+#[cfg(feature = "http")]
+use symbolic::debuginfo::pdb::PdbObject;
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
 #[cfg(feature = "http")]
 use crate::cache::{self, SymbolServer};
 use crate::utils;
 
+/// Read a PDB file, unless it's the one of another build.
+#[cfg(feature = "http")]
+fn read_matching_pdb(path: &Path, pe_debug_id: DebugId) -> Option<Vec<u8>> {
+    if !path.is_file() {
+        return None;
+    }
+    let buf = utils::read_file(path);
+    if PdbObject::parse(&buf).is_ok_and(|pdb| pdb.debug_id() == pe_debug_id) {
+        Some(buf)
+    } else {
+        log::warn!("{} doesn't match the PE file", path.display());
+        None
+    }
+}
+
 #[cfg(feature = "http")]
-fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
+fn try_to_find_pdb(path: &Path, pdb_filename: &str, pe_debug_id: DebugId) -> Option<Vec<u8>> {
     // Just check that the file is in the same directory as the PE one
     let pdb = path.with_file_name(pdb_filename);
     let pdb_cab = pdb.with_extension("pd_");
 
     for pdb in vec![pdb, pdb_cab].into_iter() {
-        if pdb.is_file() {
-            return Some(utils::read_file(pdb));
+        if let Some(buf) = read_matching_pdb(&pdb, pe_debug_id) {
+            return Some(buf);
         }
     }
 
     // We try in CWD
     let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
     pdb.push(pdb_filename);
-    if pdb.is_file() {
-        Some(utils::read_file(pdb))
-    } else {
-        None
-    }
+    read_matching_pdb(&pdb, pe_debug_id)
 }
 
 #[cfg(feature = "http")]
-fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u8>>, String) {
+fn os_specific_try_to_find_pdb(
+    path: &Path,
+    pdb_filename: &str,
+    pe_debug_id: DebugId,
+) -> (Option<Vec<u8>>, String) {
     // We may have gotten either an OS native path, or a Windows path.
     // On Windows, they're both the same. On Unix, they are different, and in that case,
     // we change backslashes to forward slashes for `file_name()` to do its job.
@@ -43,11 +60,9 @@ fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u
     let pdb_path = Path::new(&pdb_filename);
     if let Some(file_name) = pdb_path.file_name() {
         let pdb_name = file_name.to_str().unwrap().to_string();
-        if pdb_path.is_file() {
-            (Some(utils::read_file(pdb_path)), pdb_name)
-        } else {
-            (try_to_find_pdb(path, &pdb_name), pdb_name)
-        }
+        let pdb = read_matching_pdb(pdb_path, pe_debug_id)
+            .or_else(|| try_to_find_pdb(path, &pdb_name, pe_debug_id));
+        (pdb, pdb_name)
     } else {
         (None, "".to_string())
     }
@@ -63,7 +78,7 @@ pub fn get_pe_pdb_buf<'a>(
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
-        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
+        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename, pe.debug_id());
         if pdb_name.is_empty() {
             log::warn!("Invalid pdb filename in PE file: \"{pdb_filename}\"");
             None
-- 
2.43.0


From 406f171b724c5afaebbd2b27e829e91757de4edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:44 +0000
Subject: [PATCH 24/35] fix: say why a file could not be read

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8960368..3dc9c5a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -12,7 +12,7 @@ use std::path::{Component, Path, PathBuf};
 use crate::common;
 
 pub fn read_file<P: AsRef<Path>>(path: P) -> Vec<u8> {
-    try_read_file(path).unwrap_or_else(|e| panic!("{e}"))
+    try_read_file(path).unwrap_or_else(|e| panic!("{}", e))
 }
 
 pub(crate) fn try_read_file<P: AsRef<Path>>(path: P) -> common::Result<Vec<u8>> {
-- 
2.43.0


From d128d9dfd03c08435aeef65279f5ae3e10da80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:45 +0000
Subject: [PATCH 25/35] fix: reading a cabinet without extension, or with an
 entry without a name, panicked

---
 src/utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3dc9c5a..f0d24da 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -140,7 +140,9 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let Some(e) = path.extension().and_then(|e| e.to_str()) else {
+        return path;
+    };
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
@@ -162,7 +164,7 @@ fn get_cabinet_files(cab: &Cabinet<Cursor<&Vec<u8>>>, path: PathBuf) -> Option<(
         for file in folder.file_entries() {
             let file_size = file.uncompressed_size() as usize;
             let path = PathBuf::from(file.name());
-            if path.file_name().unwrap() == file_name {
+            if path.file_name() == Some(file_name) {
                 return Some((file.name().to_string(), file_size));
             }
         }
-- 
2.43.0


From 8f042c55119c1368761f2b57cc7fe2ad6e46aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:27 +0000
Subject: [PATCH 26/35] fix: merging a third file lost the name of the stripped
 one

---
 src/object_info.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 0916f32..eb3ad42 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -295,6 +295,8 @@ impl ObjectInfo {
 
         if right.bin_type == Type::Stripped {
             left.file_name = right.file_name;
+            // The name must survive the next merge, if any.
+            left.bin_type = Type::Stripped;
         }
 
         Ok(left)
-- 
2.43.0


From 86451859bbfb7823f7084c8b5f7dc56ff5bf55c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:39 +0000
Subject: [PATCH 27/35] fix: the order of the files of merged modules changed
 from run to run

---
 src/source.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index c0072fc..e8e577a 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -189,7 +189,12 @@ impl SourceMap {
         let mut remapping = vec![0; other.id_to_ref.len()];
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
+        // Go through the files in the order of their ids: the result mustn't depend on the order
+        // of the hash table.
+        let mut paths: Vec<_> = other.ref_to_id.iter().collect();
+        paths.sort_unstable_by_key(|(_, id)| **id);
+
+        for (path, id) in paths {
             let id = *id as usize;
             if let Some(an_id) = self.ref_to_id.get(path) {
                 // self has already this path so map the id to the existing one
-- 
2.43.0


From 148af8b978ab547b12b491e63a3922153b64e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:00 +0000
Subject: [PATCH 28/35] fix: an image whose recorded PDB name names no file
 could leave the symbol store

---
 src/object_info.rs | 11 ++++++++---
 src/windows/pdb.rs |  8 ++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index eb3ad42..d5bd039 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -171,9 +171,10 @@ impl ObjectInfo {
             _ => main_file_name,
         };
         // The name stored in the object may not name a file
-        let file_name = match Self::file_name_only(file_name) {
-            "" | "." | ".." => main_file_name,
-            _ => file_name,
+        let file_name = if Self::names_no_file(file_name) {
+            main_file_name
+        } else {
+            file_name
         };
 
         Ok(Self {
@@ -208,6 +209,10 @@ impl ObjectInfo {
         file_name.rsplit('/').next().unwrap_or(file_name)
     }
 
+    pub(crate) fn names_no_file(file_name: &str) -> bool {
+        matches!(Self::file_name_only(file_name), "" | "." | "..")
+    }
+
     pub fn merge(left: ObjectInfo, right: ObjectInfo) -> common::Result<ObjectInfo> {
         anyhow::ensure!(
             left.debug_id == right.debug_id,
diff --git a/src/windows/pdb.rs b/src/windows/pdb.rs
index d624ac6..3d6cd08 100644
--- a/src/windows/pdb.rs
+++ b/src/windows/pdb.rs
@@ -37,10 +37,14 @@ impl ObjectInfo {
     pub fn from_pe(pe_name: &str, pe: PeObject) -> common::Result<Self> {
         let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
         let pe = Object::Pe(pe);
-        let pdb_name = win_path_file_name(&pdb_name).to_string();
+        let pdb_name = match win_path_file_name(&pdb_name) {
+            // The name stored in the image may not name a file
+            name if Self::names_no_file(name) => pe_name,
+            name => name,
+        };
         ObjectInfo::from_object(
             &pe,
-            &pdb_name,
+            pdb_name,
             None,
             Some(pe_name),
             Platform::Win,
-- 
2.43.0


From 0fa816c31c849b09bbfb85e0f4f45eabe952dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 29/35] fix: merging an image with its PDB replaced what the
 PDB knows by placeholders

---
 src/object_info.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index d5bd039..9de162c 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -277,14 +277,19 @@ impl ObjectInfo {
             match left.symbols.entry(*addr) {
                 btree_map::Entry::Occupied(mut e) => {
                     let a_sym = e.get_mut();
-                    if a_sym.is_public {
-                        // FUNC is more interesting than the PUBLIC
+                    if sym.is_synthetic && !a_sym.is_synthetic {
+                        // Do not replace an existing symbol with a synthetic one
+                        continue;
+                    }
+                    let is_multiple = !a_sym.is_synthetic;
+                    if a_sym.is_public || a_sym.is_synthetic {
+                        // FUNC is more interesting than the PUBLIC or the synthetic one
                         // so just keep the FUNC
                         sym.remap_lines(file_remapping.as_deref());
                         sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
                         std::mem::swap(a_sym, sym);
                     }
-                    a_sym.is_multiple = true;
+                    a_sym.is_multiple |= is_multiple;
                 }
                 btree_map::Entry::Vacant(e) => {
                     sym.remap_lines(file_remapping.as_deref());
-- 
2.43.0


From d0821af9f753a34426c92f7ec0e83904e37132e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 30/35] fix: merging an image with its PDB lost the name of the
 image

---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 9de162c..a5b5872 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -301,6 +301,7 @@ impl ObjectInfo {
 
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
+            left.pe_name = right.pe_name;
         }
 
         if right.bin_type == Type::Stripped {
-- 
2.43.0


From 9e294ae2490d6f8a1c6dbf0cc6ccba04fb2bbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 31/35] fix: the path of a file in a relative or non-UTF-8
 compilation directory itself repeated or garbled it

---
 src/source.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index e8e577a..161b804 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -74,7 +74,10 @@ impl SourceFiles {
     ) -> String {
         let mut dir = file.dir_str().to_string();
         let name = file.name_str();
-        if !platform.is_absolute_path(&dir) && !compilation_dir.is_empty() {
+        if !compilation_dir.is_empty() && dir == String::from_utf8_lossy(compilation_dir) {
+            // The file is in the compilation directory itself.
+            dir = Self::path_to_string(compilation_dir);
+        } else if !platform.is_absolute_path(&dir) && !compilation_dir.is_empty() {
             let comp_dir = Self::path_to_string(compilation_dir);
             dir = platform.join_paths(&comp_dir, &dir);
         };
-- 
2.43.0


From 89eca8c81e8d09f68c880f079dd0c783e1b4b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:16 +0000
Subject: [PATCH 32/35] fix: a malformed PE file made dumping panic and the
 other files got lost

---
 src/dumper.rs        | 2 +-
 src/windows/utils.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index de0c6b4..f4c3398 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -180,7 +180,7 @@ fn get_pe_pdb_object_info<'a>(
 
 fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result<ObjectInfo> {
     let pe = PeObject::parse(buf)
-        .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
+        .map_err(|e| anyhow::anyhow!("Unable to parse the PE file {}: {e}", path.display()))?;
     let pe = ObjectInfo::from_pe(filename, pe)?;
     Ok(pe)
 }
diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index d912cd9..0aade95 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -74,8 +74,7 @@ pub fn get_pe_pdb_buf<'a>(
     buf: &'a [u8],
     symbol_server: Option<&Vec<SymbolServer>>,
 ) -> Option<(PeObject<'a>, Vec<u8>, String)> {
-    let pe = PeObject::parse(buf)
-        .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
+    let pe = PeObject::parse(buf).ok()?;
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
         let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename, pe.debug_id());
-- 
2.43.0


From 72fbe67078a605ee94740de4979bcffca632d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:21 +0000
Subject: [PATCH 33/35] fix: a symbol file that cannot be created made the
 worker panic and the symbols of other files got lost

---
 src/dumper.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index f4c3398..e407554 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -187,17 +187,23 @@ fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result
 
 #[inline]
 pub fn get_writer_for_sym(fo: &FileOutput) -> std::io::BufWriter<Box<dyn std::io::Write>> {
+    try_get_writer_for_sym(fo).unwrap_or_else(|e| panic!("{}", e))
+}
+
+fn try_get_writer_for_sym(
+    fo: &FileOutput,
+) -> common::Result<std::io::BufWriter<Box<dyn std::io::Write>>> {
     let output: Box<dyn std::io::Write> = match fo {
         FileOutput::Stdout => Box::new(std::io::stdout()),
         FileOutput::Stderr => Box::new(std::io::stderr()),
         FileOutput::Path(path) => {
             let output = std::fs::File::create(path)
-                .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.display()));
+                .map_err(|_| anyhow::anyhow!("Cannot open file {} for writing", path.display()))?;
             Box::new(output)
         }
     };
 
-    std::io::BufWriter::new(output)
+    Ok(std::io::BufWriter::new(output))
 }
 
 fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::Result<()> {
@@ -230,14 +236,14 @@ fn store(output: &Output, check_cfi: bool, object_info: ObjectInfo) -> common::R
         fs::create_dir_all(store.parent().unwrap())?;
 
         let fo = FileOutput::Path(store);
-        let output = get_writer_for_sym(&fo);
+        let output = try_get_writer_for_sym(&fo)?;
         object_info.dump(output)?;
 
         info!("Store symbols at {fo}");
     }
 
     if let Some(file) = foutput {
-        let writer = get_writer_for_sym(file);
+        let writer = try_get_writer_for_sym(file)?;
         object_info.dump(writer)?;
 
         info!("Write symbols at {file}");
-- 
2.43.0


From e30dd334fc3f24f7f2974ecec7dcecbbd6a3624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:26 +0000
Subject: [PATCH 34/35] fix: a cabinet that cannot be read beside an image or a
 PDB made dumping panic

---
 src/windows/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 0aade95..793f5d4 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -18,7 +18,9 @@ fn read_matching_pdb(path: &Path, pe_debug_id: DebugId) -> Option<Vec<u8>> {
     if !path.is_file() {
         return None;
     }
-    let buf = utils::read_file(path);
+    let buf = utils::try_read_file(path)
+        .map_err(|e| log::warn!("{e}"))
+        .ok()?;
     if PdbObject::parse(&buf).is_ok_and(|pdb| pdb.debug_id() == pe_debug_id) {
         Some(buf)
     } else {
@@ -109,7 +111,10 @@ pub(crate) fn find_pe_for_pdb(path: &Path, pdb_debug_id: &DebugId) -> Option<(St
     for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
         path.set_extension(ext);
         if path.is_file() {
-            let buf = utils::read_file(&path);
+            let buf = match utils::try_read_file(&path) {
+                Ok(buf) => buf,
+                Err(_) => continue,
+            };
             if let Ok(pe) = PeObject::parse(&buf) {
                 if ext.ends_with('_') {
                     path.set_extension(fix_extension(ext));
-- 
2.43.0


From 9616c9ccf947a4962033e0fc28433104d5a429a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:10 +0000
Subject: [PATCH 35/35] fix: a directory or a faulty dSYM bundle among several
 files made the worker panic and the other files got lost

---
 src/dumper.rs |  2 +-
 src/utils.rs  | 38 ++++++++++++++++++++------------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e407554..7258799 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -401,8 +401,8 @@ fn load(
     results: &Mutex<HashMap<String, ObjectInfo>>,
 ) -> common::Result<()> {
     let path = PathBuf::from(file);
-    let filename = utils::get_filename(&path);
     let buf = utils::try_read_file(&path)?;
+    let filename = utils::get_filename(&path);
 
     let info = get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
 
diff --git a/src/utils.rs b/src/utils.rs
index f0d24da..03576b6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,7 +19,7 @@ pub(crate) fn try_read_file<P: AsRef<Path>>(path: P) -> common::Result<Vec<u8>>
     let metadata = fs::metadata(&path)
         .map_err(|_| anyhow!("Unable to open the file {}", path.as_ref().display()))?;
 
-    let (metadata, path) = get_mac_bundle(&metadata, &path)
+    let (metadata, path) = try_get_mac_bundle(&metadata, &path)?
         .unwrap_or_else(|| (metadata, PathBuf::from(path.as_ref())));
 
     let file_size = metadata.len() as usize;
@@ -75,38 +75,40 @@ pub fn get_path_for_sym(file_name: &str, id: &str) -> PathBuf {
 }
 
 pub fn get_mac_bundle<P: AsRef<Path>>(metadata: &Metadata, path: P) -> Option<(Metadata, PathBuf)> {
+    try_get_mac_bundle(metadata, path).unwrap_or_else(|e| panic!("{}", e))
+}
+
+fn try_get_mac_bundle<P: AsRef<Path>>(
+    metadata: &Metadata,
+    path: P,
+) -> common::Result<Option<(Metadata, PathBuf)>> {
     if metadata.is_dir() {
         // We may have a dSYM bundle
         let dwarf_path = path.as_ref().to_path_buf().join("Contents/Resources/DWARF");
         if dwarf_path.is_dir() {
-            let entries: Vec<_> = fs::read_dir(&dwarf_path).unwrap().collect();
+            let entries: Vec<_> = fs::read_dir(&dwarf_path)?.collect();
             match entries.len() {
-                0 => panic!(
+                0 => anyhow::bail!(
                     "Unable to find DWARF-bearing file in bundle: {}",
-                    dwarf_path.to_str().unwrap()
+                    dwarf_path.display()
                 ),
                 1 => {
-                    let entry = entries[0].as_ref().unwrap();
-                    Some((
-                        entry.metadata().unwrap_or_else(|_| {
-                            panic!("Unable to open the file {}", entry.path().to_str().unwrap())
-                        }),
-                        entry.path(),
-                    ))
+                    let entry = entries.into_iter().next().unwrap()?;
+                    let metadata = entry.metadata().map_err(|_| {
+                        anyhow!("Unable to open the file {}", entry.path().display())
+                    })?;
+                    Ok(Some((metadata, entry.path())))
                 }
-                _ => panic!(
-                    "Too many DWARF files in bundle: {}",
-                    dwarf_path.to_str().unwrap()
-                ),
+                _ => anyhow::bail!("Too many DWARF files in bundle: {}", dwarf_path.display()),
             }
         } else {
-            panic!(
+            anyhow::bail!(
                 "File {} is a directory and not a mac bundle",
-                path.as_ref().to_str().unwrap()
+                path.as_ref().display()
             )
         }
     } else {
-        None
+        Ok(None)
     }
 }
 
-- 
2.43.0

