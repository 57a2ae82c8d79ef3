From 7e62dac46347339056ab73b174248d6f1662794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 01/12] fix: printing progress must not change the footer of
 the index

Progress asks the writer for its hash before finishing it, and getting the
hash resets the digest of everything written so far.
---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..5e57baa 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..7521c95 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 71282ba37f38c5a52cbfb74be20fe8dd3708e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 02/12] fix: report a failure to write the footer as a write
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 5e57baa..df7216c 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -162,7 +162,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 7521c95..e2b4c30 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -82,7 +82,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 3faf7567dd00007134c33d7a9c82222d4552d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 03/12] fix: emitter writes a complete footer for blake3

The newline was missing and a short write lost the rest of the footer.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..cd4386c 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{}", self.finalize().to_hex().as_str())
     }
 }
 
-- 
2.43.0


From 52102a0af89f2f17802c067952dc8fb0030eaa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 04/12] fix: hash_file must not add a hash of an empty block

A file whose size is a multiple of the block size (an empty one included)
got one hash more than the index of the same file has.
---
 src/v1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..424a15f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -435,6 +435,9 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From 0f102a298fbce4635943727532ad34a6e7ff81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 05/12] fix: parser must not panic on sizes declared by an
 index

A zero block size divided by zero, sizes near u64::MAX overflowed, and
memory was reserved for as many hashes as declared (capacity overflow or
an abort) before looking whether the line contains them.
---
 src/v1/parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 424a15f..cb54467 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,9 +295,11 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
-                                v.to_string()))?,
+                        Some(v) => match u64::from_str_radix(v, 10) {
+                            Ok(block_size) if block_size > 0 => block_size,
+                            _ => return Err(ParseRowError::InvalidBlockSize(
+                                v.to_string())),
+                        },
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
                 },
@@ -524,7 +526,9 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let full_blocks = file_size / block_size;
+                let tail_blocks = (file_size % block_size > 0) as u64;
+                let hashes_num = (full_blocks + tail_blocks) as usize;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
@@ -823,7 +827,9 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // number of hashes is untrusted, data can't contain more than this
+    let max_hashes = data.len() / hash_len;
+    let mut buf = Vec::with_capacity(max_hashes.min(hashes_num) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From 129fc67aa48de1749615d4297296a84ab4295d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 06/12] fix: parser rejects entries outside of their directory

A name like `../x`, `/etc/passwd`, `.` or an empty one, an entry preceding
any directory line and a directory with parent references yielded entries
pointing anywhere (and panics when such entries are compared).
---
 src/v1/parser.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index cb54467..7667808 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -6,7 +6,7 @@ use std::convert::From;
 use std::ffi::{OsStr, OsString};
 use std::os::unix::ffi::{OsStrExt, OsStringExt};
 use std::io::{self, BufRead};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::slice::Chunks;
 use std::str::{self, FromStr};
 
@@ -518,11 +518,28 @@ impl Entry {
     {
         let (entry, tail) = if row.starts_with(b"/") {
             let (path, row) = parse_path_buf(row)?;
+            if path.components().any(|c| c == Component::ParentDir) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Parent reference in directory path {:?}", path)));
+            }
             (Entry::Dir(path), row)
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
-            let (path, row) = parse_path(row)?;
-            let path = current_dir.join(&path);
+            let (name, row) = parse_path(row)?;
+            if !current_dir.is_absolute() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Entry {:?} is outside of any directory", name)));
+            }
+            match name.as_os_str().as_bytes() {
+                b"" | b"." | b".." => return Err(ParseRowError::InvalidLine(
+                    format!("Invalid entry name {:?}", name))),
+                bytes if bytes.contains(&b'/') => {
+                    return Err(ParseRowError::InvalidLine(
+                        format!("Path separator in entry name {:?}", name)))
+                }
+                _ => {}
+            }
+            let path = current_dir.join(&name);
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-- 
2.43.0


From 4ba638350143f06cab05b741425ccc513edf699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 07/12] fix: parser rejects a link without a destination

---
 src/v1/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 7667808..fc9f0d3 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -556,6 +556,10 @@ impl Entry {
                  row)
             } else if file_type == "s" {
                 let (dest, row) = parse_path_buf(row)?;
+                if dest.as_os_str().is_empty() {
+                    return Err(ParseRowError::InvalidLine(
+                        format!("Missing destination of a link")));
+                }
                 (Entry::Link(path, dest), row)
             } else {
                 return Err(ParseRowError::InvalidFileType(
-- 
2.43.0


From fac0ab845339a53f74b0de1b7ddfc7756f45b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 08/12] fix: every line of an index is consumed and counted
 once

A bad line hit by `advance` was parsed again and again (a truncated one was
accepted the second time), a pending line was counted each time it was
looked at, so that errors named wrong lines, iteration never ended after a
read error, and lines behind the footer were delivered as entries.
---
 src/v1/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index fc9f0d3..a2f5811 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -679,16 +679,23 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
     }
 
     fn parse_entry(&mut self) -> Result<Option<Entry>, ParseError> {
-        self._parse_entry().map_err(|e| e.into())
+        self._parse_entry().map_err(|e| {
+            self.current_row.clear();
+            e.into()
+        })
     }
     fn _parse_entry(&mut self) -> Result<Option<Entry>, ErrorEnum> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            self.current_row_num += 1;
+            let res = read_line(self.reader.by_ref(), &mut self.current_row);
+            if res.is_err() {
+                // there is no way to continue from the middle of a line
+                self.exhausted = true;
+            }
+            res.context(self.current_row_num)?;
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
@@ -698,6 +705,8 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
+                // whatever follows the footer is never an entry
+                self.exhausted = true;
                 let mut test_buf = [0; 1];
                 if self.reader.read(&mut test_buf)? != 0 {
                     return Err(ErrorEnum::Parse(
@@ -705,7 +714,6 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                             format!("Found extra lines after the footer")),
                         self.current_row_num));
                 }
-                self.exhausted = true;
                 Ok(None)
             },
             Some(entry) => {
-- 
2.43.0


From 8abe3d6d88f24185fd741abc63885f1b7c21cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 09/12] fix: an interrupted read at the end of data is not an
 error

---
 src/v1/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index a2f5811..f26716d 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -5,7 +5,7 @@ use std::cmp::Ordering;
 use std::convert::From;
 use std::ffi::{OsStr, OsString};
 use std::os::unix::ffi::{OsStrExt, OsStringExt};
-use std::io::{self, BufRead};
+use std::io::{self, BufRead, Read};
 use std::path::{Component, Path, PathBuf};
 use std::slice::Chunks;
 use std::str::{self, FromStr};
@@ -468,8 +468,8 @@ impl Hashes {
                 return Ok(false);
             }
         }
-        let mut test_buf = [0; 1];
-        if f.read(&mut test_buf)? != 0 {
+        let mut rest = Vec::new();
+        if f.take(1).read_to_end(&mut rest)? != 0 {
             return Ok(false);
         }
         Ok(true)
@@ -707,8 +707,8 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     .context(self.current_row_num)?;
                 // whatever follows the footer is never an entry
                 self.exhausted = true;
-                let mut test_buf = [0; 1];
-                if self.reader.read(&mut test_buf)? != 0 {
+                let mut rest = Vec::new();
+                if self.reader.by_ref().take(1).read_to_end(&mut rest)? != 0 {
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
-- 
2.43.0


From a7564f38cf039c81e8fda623c1e401187da35149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 10/12] fix: get_hash must work with readers that return less
 than requested

---
 src/read.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..aa11f4e 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -19,7 +19,7 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
     let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
+    f.read_exact(&mut signature)?;
     if &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
@@ -32,9 +32,7 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
     let mut buf = [0u8; 100];
     assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
-        return Err(io::ErrorKind::UnexpectedEof.into());
-    }
+    f.read_exact(&mut buf[..nbytes])?;
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
         return Err(einval.into());
     }
-- 
2.43.0


From 4791c636851f6705fa081031d6843904ce10b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 11/12] fix: honour ScannerConfig::queue_size

---
 src/v1/mod.rs             | 2 +-
 src/v1/threaded_writer.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..eb17278 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -66,7 +66,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
 {
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
-            config.threads,
+            config.threads, config.queue_size,
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index df7216c..60db557 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -38,7 +38,8 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_size: Option<usize>,
+        mut f: F, hash: H, block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
         writeln!(&mut f,
@@ -52,8 +53,8 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
-            queue: VecDeque::with_capacity(threads*16),
+            queue_limit: queue_size.unwrap_or(threads*16),
+            queue: VecDeque::new(),
             pool: CpuPool::new(threads),
         })
     }
-- 
2.43.0


From b6f2e467ba780e5800c4e0eb6beb4930528001ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 12/12] fix: index tool reports a failure to flush the index

---
 src/bin/index.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index da0f502..20cfb9d 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -14,13 +14,20 @@ use argparse::{ArgumentParser, List, ParseOption, Store, StoreTrue, StoreFalse};
 #[cfg(feature="threads")]
 use num_cpus::get as get_num_cpus;
 
-use dir_signature::{v1, ScannerConfig, HashType};
+use dir_signature::{v1, Error, ScannerConfig, HashType};
 
 #[cfg(not(feature="threads"))]
 fn get_num_cpus() -> usize {
     1
 }
 
+fn write_index<W: Write>(cfg: &ScannerConfig, out: &mut W)
+    -> Result<(), Error>
+{
+    v1::scan(cfg, out)?;
+    out.flush().map_err(Error::WriteError)
+}
+
 pub fn run() -> i32 {
     if let Err(_) = env::var("RUST_LOG") {
         env::set_var("RUST_LOG", "warn");
@@ -107,9 +114,9 @@ pub fn run() -> i32 {
                 return 1;
             }
         };
-        v1::scan(&cfg, &mut io::BufWriter::new(file))
+        write_index(&cfg, &mut io::BufWriter::new(file))
     } else {
-        v1::scan(&cfg, &mut io::stdout())
+        write_index(&cfg, &mut io::stdout())
     };
     match res {
         Ok(()) => return 0,
-- 
2.43.0

