From 8d0917c61356071aeffb5d8efdd0091c4dc2b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 001/120] fix: apply rev only once when sort caches tie

---
 src/comp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..70cf622 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,9 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            // not self.comp_lines, which would apply `reverse` a second time
+            self.comp
+                .comp_lines(left.get(base), right.get(base), self.delim, 0, 0)
         };
         self.reverse(x)
     }
-- 
2.43.0


From bc4d30b29711d1bd3e1e651051109e9be576d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 002/120] fix: whole-line sort key must cache its own line, not
 the whole buffer

---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index 70cf622..3a10be5 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -446,7 +446,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From 4e5a85a0f1511798dc800ce89c86f62ddc9e6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 003/120] fix: numeric compare must see the fraction when only
 one side has one

---
 src/comp.rs | 71 ++++++++++++++++++-----------------------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 3a10be5..fa9f722 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -649,40 +649,24 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
-fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
-        a = &a[1..];
-        b = &b[1..];
+/// significant digits of the fraction, if any
+fn frac_digits(a: &[u8]) -> &[u8] {
+    if a.first() != Some(&b'.') {
+        return &[];
     }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
-        } else {
-            Ordering::Less
-        }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
-        } else {
-            Ordering::Equal
-        }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
-        }
-    } else if b[0].is_ascii_digit() {
-        Ordering::Less
-    } else {
-        Ordering::Equal
+    let mut len = 1;
+    while len < a.len() && a[len].is_ascii_digit() {
+        len += 1;
+    }
+    while len > 1 && a[len - 1] == b'0' {
+        len -= 1;
     }
+    &a[1..len]
+}
+
+/// compare whatever follows two equal integer parts
+fn frac_cmp(a: &[u8], b: &[u8]) -> Ordering {
+    frac_digits(a).cmp(frac_digits(b))
 }
 
 fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
@@ -694,23 +678,16 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         a = skip_comma(a);
         b = skip_comma(b);
     }
-    if a.is_empty() && b.is_empty() {
-        return Ordering::Equal;
-    }
-    if a.is_empty() {
-        if b[0].is_ascii_digit() {
-            return Ordering::Less;
-        }
-        return Ordering::Equal;
+    let a_digit = !a.is_empty() && a[0].is_ascii_digit();
+    let b_digit = !b.is_empty() && b[0].is_ascii_digit();
+    if !a_digit && !b_digit {
+        return frac_cmp(a, b);
     }
-    if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            return Ordering::Greater;
-        }
-        return Ordering::Equal;
+    if !a_digit {
+        return Ordering::Less;
     }
-    if a[0] == b'.' && b[0] == b'.' {
-        return frac_cmp(a, b);
+    if !b_digit {
+        return Ordering::Greater;
     }
     let tmp = a[0].cmp(&b[0]);
 
-- 
2.43.0


From dfa06e03d7bd0dba849f683d26b900afd948ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 004/120] fix: numeric sort cache must not contradict the
 numeric comparison

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index fa9f722..0f03b5e 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1634,8 +1634,10 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        // float parsing disagrees with num_cmp_signed about blanks, commas, exponents and long numbers
+        item.cache = 0;
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From c4c2182b4532b3b4301f78da9852f5a197654f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 005/120] fix: a trailing NUL byte must not vanish in the plain
 and lower sort caches

---
 src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 0f03b5e..53942e2 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1566,7 +1566,7 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(value.len() <= 8 && value.last() != Some(&0));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1592,7 +1592,7 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(value.len() <= 8 && value.last() != Some(&0));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From fba8a9f36f00759d79da3dd4838ea71e709c36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 006/120] fix: negative zero must sort equal to zero

---
 src/num.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..59d85fd 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -116,6 +116,7 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    let d = d + 0.0; // -0.0 is equal to 0.0, so they must map to the same value
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From 6aeabb9df0a278ba5d338bd6934b323faa531636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 007/120] fix: concurrent first use of a registry could see it
 half filled

---
 src/agg.rs     | 3 +++
 src/comp.rs    | 3 +++
 src/matcher.rs | 3 +++
 src/textgen.rs | 3 +++
 src/trans.rs   | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..7a6d7c0 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1278,6 +1278,9 @@ pub struct AggMaker {}
 
 impl AggMaker {
     fn init() -> Result<()> {
+        // nobody else may look at a half filled registry
+        static INIT: Mutex<()> = Mutex::new(());
+        let _guard = INIT.lock().unwrap();
         if !AGG_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/comp.rs b/src/comp.rs
index 53942e2..f054688 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -848,6 +848,9 @@ pub struct CompMaker {}
 impl CompMaker {
     /// add standard match makers
     fn init() -> Result<()> {
+        // nobody else may look at a half filled registry
+        static INIT: Mutex<()> = Mutex::new(());
+        let _guard = INIT.lock().unwrap();
         if !COMP_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..dac5aa0 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1623,6 +1623,9 @@ pub struct MatchMaker {}
 impl MatchMaker {
     /// add standard match makers
     fn init() -> Result<()> {
+        // nobody else may look at a half filled registry
+        static INIT: Mutex<()> = Mutex::new(());
+        let _guard = INIT.lock().unwrap();
         if !MATCH_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..31c08cb 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -293,6 +293,9 @@ pub struct GenMaker {}
 
 impl GenMaker {
     fn init() -> Result<()> {
+        // nobody else may look at a half filled registry
+        static INIT: Mutex<()> = Mutex::new(());
+        let _guard = INIT.lock().unwrap();
         if !GEN_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
diff --git a/src/trans.rs b/src/trans.rs
index 92912ba..53c4e05 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -277,6 +277,9 @@ pub struct TransMaker {}
 impl TransMaker {
     /// add standard trans makers
     fn init() -> Result<()> {
+        // nobody else may look at a half filled registry
+        static INIT: Mutex<()> = Mutex::new(());
+        let _guard = INIT.lock().unwrap();
         if !TRANS_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
-- 
2.43.0


From 887ab6496423384869964e183d72d114eb14ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 008/120] fix: merging must keep equal lines in file order

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..fc27324 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -24,6 +24,7 @@ impl MergeContext<'_> {
     fn compare(&mut self, a: usize, b: usize) -> Ordering {
         self.cmp
             .comp_cols(self.open[a].curr_line(), self.open[b].curr_line())
+            .then(a.cmp(&b)) // equal lines come out in file order
             .reverse()
     }
     fn equal(&mut self, a: &TextLine, b: usize) -> bool {
-- 
2.43.0


From 8f57ce01944c1ef2fb84cb3faf529819bfc3d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 009/120] fix: sort must not fail or panic when a line does not
 fit the remaining buffer

---
 src/sort.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sort.rs b/src/sort.rs
index fc27324..bb7fff9 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -376,6 +376,10 @@ impl Sorter {
 
     // try to make N bytes available, return amount actually available
     fn prepare(&mut self, n: usize) -> usize {
+        if self.data_used >= self.data.capacity() {
+            // a single line fills the whole buffer
+            self.data.reserve(n);
+        }
         let mut nsize = self.data_used + n;
         if nsize > self.data.capacity() {
             nsize = self.data.capacity();
@@ -394,6 +398,10 @@ impl Sorter {
     /// add some more data to be sorted.
     /// must be integer number of lines.
     pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
+        let need = self.data_used + in_data.len();
+        if need > self.data.capacity() {
+            self.data.reserve_exact(need - self.data.len());
+        }
         let sz = self.prepare(in_data.len());
         if sz != in_data.len() {
             eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
@@ -415,6 +423,7 @@ impl Sorter {
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
             if nbytes == 0 {
                 if self.data_used > 0 && self.data[self.data_used - 1] != b'\n' {
+                    self.prepare(1);
                     self.data[self.data_used] = b'\n';
                     self.data_used += 1;
                 }
-- 
2.43.0


From d91ec9b9fc52b3d7f942141dec215138451c0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:08 +0000
Subject: [PATCH 010/120] fix: sort --merge must resolve named keys and check
 that the headers agree

---
 src/sort.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index bb7fff9..7ca9c66 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -32,6 +32,24 @@ impl MergeContext<'_> {
     }
 }
 
+/// all files must have the same header, which is written once
+fn merge_headers(names: &[String], open: &[Reader], w: &mut impl Write) -> Result<()> {
+    let mut checker = HeaderChecker::new();
+    for (name, file) in names.iter().zip(open) {
+        if !file.is_empty() && checker.check_file(file, name)? {
+            file.write_header(w)?;
+        }
+    }
+    Ok(())
+}
+
+/// resolve named columns
+fn merge_lookup(open: &[Reader], cmp: &mut LineCompList) -> Result<()> {
+    open.iter()
+        .find(|x| !x.is_empty())
+        .map_or(Ok(()), |x| cmp.lookup(&x.names()))
+}
+
 /// sort configuration
 #[derive(Copy, Clone, Debug, Default)]
 pub struct SortConfig {
@@ -90,10 +108,9 @@ impl SortConfig {
                     x.do_split(false);
                 }
             }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
-            }
+            merge_headers(in_files, &mcm.open, &mut w)?;
+            let MergeContext { open, cmp } = &mut *mcm;
+            merge_lookup(open, cmp)?;
         }
         for i in 0..in_files.len() {
             if !mc.borrow().open[i].is_done() {
@@ -162,10 +179,8 @@ impl SortConfig {
                 x.do_split(false);
             }
         }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
+        merge_headers(in_files, &open_files, &mut w)?;
+        merge_lookup(&open_files, cmp)?;
 
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
-- 
2.43.0


From d31ddde4a1578faaa7d7b184bfb81ce086ef1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:08 +0000
Subject: [PATCH 011/120] fix: sort --check must resolve named keys

---
 src/bin/cdx/sort_main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..192b07d 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -58,6 +58,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.is_done() {
                 continue;
             }
+            comp.lookup(&f.names())?;
             loop {
                 if f.getline()? {
                     break;
-- 
2.43.0


From 3daaa7fb6c356824b49e4822c262fb403bf3021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:49 +0000
Subject: [PATCH 012/120] fix: a data line that looks like a header must
 survive the merge of sorted runs

---
 src/sort.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 7ca9c66..0f86e47 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -9,7 +9,7 @@ fancier sort
 
 use crate::comp::Item;
 use crate::prelude::*;
-use crate::util::{copy, get_reader, is_cdx, make_header, HeaderChecker};
+use crate::util::{copy, get_reader, is_cdx, make_header, HeadMode, HeaderChecker, TextFileMode};
 use binary_heap_plus::BinaryHeap;
 use std::cell::RefCell;
 //use std::mem;
@@ -43,8 +43,11 @@ fn merge_headers(names: &[String], open: &[Reader], w: &mut impl Write) -> Resul
     Ok(())
 }
 
-/// resolve named columns
-fn merge_lookup(open: &[Reader], cmp: &mut LineCompList) -> Result<()> {
+/// resolve named columns, unless that was already done when the runs were made
+fn merge_lookup(open: &[Reader], text: &TextFileMode, cmp: &mut LineCompList) -> Result<()> {
+    if text.head_mode == HeadMode::No {
+        return Ok(());
+    }
     open.iter()
         .find(|x| !x.is_empty())
         .map_or(Ok(()), |x| cmp.lookup(&x.names()))
@@ -70,10 +73,15 @@ impl SortConfig {
         tmp: &TempDir,
     ) -> Result<()> {
         eprintln!("Merging");
+        // sorted runs never have a header, even if the data looks like one
+        let text = TextFileMode {
+            head_mode: HeadMode::No,
+            ..TextFileMode::default()
+        };
         if self.alt_merge {
-            self.merge_t1(in_files, cmp, w, unique, tmp)
+            self.merge_t1(in_files, &text, cmp, w, unique, tmp)
         } else {
-            self.merge_t2(in_files, cmp, w, unique, tmp)
+            self.merge_t2(in_files, &text, cmp, w, unique, tmp)
         }
     }
 
@@ -81,6 +89,7 @@ impl SortConfig {
     pub fn merge_t2(
         &self,
         in_files: &[String],
+        text: &TextFileMode,
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
@@ -101,7 +110,7 @@ impl SortConfig {
         {
             let mut mcm = mc.borrow_mut();
             for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
+                mcm.open.push(Reader::new_open(x, text)?);
             }
             if !mcm.cmp.need_split() {
                 for x in &mut mcm.open {
@@ -110,7 +119,7 @@ impl SortConfig {
             }
             merge_headers(in_files, &mcm.open, &mut w)?;
             let MergeContext { open, cmp } = &mut *mcm;
-            merge_lookup(open, cmp)?;
+            merge_lookup(open, text, cmp)?;
         }
         for i in 0..in_files.len() {
             if !mc.borrow().open[i].is_done() {
@@ -158,6 +167,7 @@ impl SortConfig {
     pub fn merge_t1(
         &self,
         in_files: &[String],
+        text: &TextFileMode,
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
@@ -172,7 +182,7 @@ impl SortConfig {
         }
         let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
         for x in in_files {
-            open_files.push(Reader::new_open2(x)?);
+            open_files.push(Reader::new_open(x, text)?);
         }
         if !cmp.need_split() {
             for x in &mut open_files {
@@ -180,7 +190,7 @@ impl SortConfig {
             }
         }
         merge_headers(in_files, &open_files, &mut w)?;
-        merge_lookup(&open_files, cmp)?;
+        merge_lookup(&open_files, text, cmp)?;
 
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
@@ -226,9 +236,9 @@ impl SortConfig {
     ) -> Result<()> {
         let tmp = TempDir::new()?;
         if self.alt_merge {
-            self.merge_t1(files, cmp, w, unique, &tmp)
+            self.merge_t1(files, &TextFileMode::default(), cmp, w, unique, &tmp)
         } else {
-            self.merge_t2(files, cmp, w, unique, &tmp)
+            self.merge_t2(files, &TextFileMode::default(), cmp, w, unique, &tmp)
         }
     }
     /*
-- 
2.43.0


From 525121817a1e2196be29fae6c14735de4984eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:49 +0000
Subject: [PATCH 013/120] fix: an output file must not keep the tail of its
 previous contents

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..a416a64 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1207,7 +1207,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(fs::File::create(name)?)
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From b5e872b32ac08e1fe8033c7c97be422e82c82c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:49 +0000
Subject: [PATCH 014/120] fix: join --also must not invent a header for a file
 without one

---
 src/join.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/join.rs b/src/join.rs
index c7f9a94..117ec59 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -190,7 +190,9 @@ impl Joiner {
             let num = x.file_num - 1;
             if self.no_match[num].is_none() {
                 let mut w = get_writer(&x.file_name)?;
-                self.r[num].write_header(&mut *w)?;
+                if self.r[num].has_header() {
+                    self.r[num].write_header(&mut *w)?;
+                }
                 self.no_match[num] = Some(w);
             } else {
                 return err!("Multiple uses of --also for file {}", x.file_num);
-- 
2.43.0


From 6e395415d0e430be077bb8835e59fcfb55ec4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:05 +0000
Subject: [PATCH 015/120] fix: binary search must not hang on an empty line nor
 run off a file without final newline

---
 src/binsearch.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..9b92fe7 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -86,14 +86,12 @@ pub const fn find_end(data: &[u8], mut start: usize) -> usize {
 
 /// return the position after the first newline before start
 /// that is, starting in the middle of a line, find the start of it
+/// a newline is part of the line that it ends
 #[must_use]
 pub const fn find_start(data: &[u8], mut start: usize) -> usize {
-    while (start > 0) && (data[start] != b'\n') {
+    while (start > 0) && (data[start - 1] != b'\n') {
         start -= 1;
     }
-    if data[start] == b'\n' {
-        start += 1;
-    }
     start
 }
 
@@ -104,10 +102,7 @@ pub const fn find_prev(data: &[u8], start: usize) -> usize {
     if start <= 1 {
         return 0;
     }
-    if data[start - 1] != b'\n' {
-        return find_start(data, start);
-    }
-    find_start(data, start - 2)
+    find_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
-- 
2.43.0


From 0a58ce7bb769cbf4acd38f194301a3d609820917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:19 +0000
Subject: [PATCH 016/120] fix: binsearch must not take the header for a data
 line

---
 src/bin/cdx/binsearch_main.rs | 12 ++++++------
 src/binsearch.rs              |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..83ca0c9 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -156,26 +156,26 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
-        let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
+        let (mut start, mut stop) = equal_range_n(m.data(), &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
             if start == 0 {
                 break;
             }
-            start = find_prev(m.get(), start);
+            start = find_prev(m.data(), start);
         }
         for _x in 0..after {
-            stop = find_end(m.get(), stop);
+            stop = find_end(m.data(), stop);
         }
         if filename.is_none() {
-            write_all_nl(&mut w.0, &m.get()[start..stop])?;
+            write_all_nl(&mut w.0, &m.data()[start..stop])?;
         } else {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
-                let end = find_end(m.get(), start);
+                let end = find_end(m.data(), start);
                 w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 w.write_all(&[b'\t'])?;
-                write_all_nl(&mut w.0, &m.get()[start..end])?;
+                write_all_nl(&mut w.0, &m.data()[start..end])?;
                 start = end;
             }
         }
diff --git a/src/binsearch.rs b/src/binsearch.rs
index 9b92fe7..f659af4 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -49,6 +49,11 @@ impl MemMap {
     pub fn get(&self) -> &[u8] {
         &self.map[..]
     }
+    /// get the data lines, that is everything after the CDX header, if any
+    #[must_use]
+    pub fn data(&self) -> &[u8] {
+        &self.map[self.header_len..]
+    }
     /// get column delimiter
     #[must_use]
     pub const fn get_delim(&self) -> u8 {
-- 
2.43.0


From 658e483241aec7848875367b0314a5e64de3ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:19 +0000
Subject: [PATCH 017/120] fix: binsearch --sub-delim must not panic

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 83ca0c9..da579ff 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From be08c9a39487128ad7b55ba56e19f8341c74e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 018/120] fix: max aggregator must be one of the values even if
 all are below the empty one

---
 src/agg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/agg.rs b/src/agg.rs
index 7a6d7c0..dc87a3a 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1072,6 +1072,7 @@ impl Agg for AMean {
 struct Max {
     comp: Comp,
     val: Vec<u8>,
+    empty: bool,
 }
 
 impl Max {
@@ -1079,12 +1080,18 @@ impl Max {
         Ok(Self {
             comp: CompMaker::make_comp(spec)?,
             val: Vec::new(),
+            empty: true,
         })
     }
 }
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
+        if self.empty {
+            self.empty = false;
+            self.val.extend_from_slice(data);
+            return;
+        }
         if self.comp.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
@@ -1096,6 +1103,7 @@ impl Agg for Max {
     }
     fn reset(&mut self) {
         self.val.clear();
+        self.empty = true;
     }
     fn value(&self) -> f64 {
         self.val.to_f64_lossy()
-- 
2.43.0


From d38ae0a7309be62cb007317fae88192ee2373871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 019/120] fix: amean aggregator must print the mean, not the
 sum

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index dc87a3a..28976a9 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1061,7 +1061,7 @@ impl Agg for AMean {
         self.num += 1;
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
-        fmt.print(self.val as f64, w)
+        fmt.print(self.value(), w)
     }
     fn reset(&mut self) {
         self.val = 0;
-- 
2.43.0


From 3cf6e16d96cc11ea2a59de44fafbede4aa3c800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 020/120] fix: merge aggregator must accept a delimiter as its
 only option

---
 src/agg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg.rs b/src/agg.rs
index 28976a9..231a060 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -750,6 +750,7 @@ impl Merge {
                     }
                     sp = &sp[1..];
                 }
+                continue;
             }
             if let Some((a, b)) = sp.split_once('.') {
                 m.add_one(a)?;
-- 
2.43.0


From 018197b020b9322eef5439a5aa6a456be1a0f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 021/120] fix: rev must be honoured by comparators that are not
 line comparators

---
 src/agg.rs  |  4 ++--
 src/comp.rs | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 231a060..8a8a7d5 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -865,7 +865,7 @@ impl Agg for Min {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Greater {
+        if self.comp.comp(&self.val, data) == Ordering::Greater {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1093,7 +1093,7 @@ impl Agg for Max {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
diff --git a/src/comp.rs b/src/comp.rs
index f054688..492bf04 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -153,14 +153,22 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            reverse: false, // reversed by the LineComp
             comp: Box::new(ComparePlain::new()),
         }
     }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        let x = self.comp.comp(left, right);
+        self.reverse(x)
+    }
+    const fn reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
     }
     /// Compare two slices for equality
     #[must_use]
@@ -178,7 +186,8 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        let x = self.comp.comp_self(right);
+        self.reverse(x)
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From 74ce66836eb81d195a47bb547b75147759f30ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 022/120] fix: uniq without a key must compare whole lines

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..6e3b226 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -188,6 +188,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
 
     assert_eq!(files.len(), 1);
+    if comp.is_empty() {
+        comp.add("")?; // compare whole lines
+    }
 
     let mut f = Reader::new(&settings.text_in);
     f.open(&files[0])?;
-- 
2.43.0


From 21145096c247a3400077183e344bb0aaca8018f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:07 +0000
Subject: [PATCH 023/120] fix: uniq must split lines into columns when --which
 or --agg looks at them

---
 src/bin/cdx/uniq_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 6e3b226..91479b0 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -232,7 +232,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || count.comp.need_split() || !agg.is_empty());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From fcfd7ed7f34efdb1f8782459ffda53e62d7e8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:28 +0000
Subject: [PATCH 024/120] fix: uniq --agg-help must print help, not panic

---
 src/bin/cdx/uniq_main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 91479b0..624c10c 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -1,4 +1,5 @@
 use crate::prelude::*;
+use cdx::agg::AggMaker;
 use cdx::comp::{CompMaker, LineComp};
 use cdx::prelude::*;
 
@@ -182,6 +183,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&x.value)?;
         } else if x.name == "agg-pre" {
             agg.push_prefix(&x.value)?;
+        } else if x.name == "agg-help" {
+            AggMaker::help();
+            return Ok(());
         } else {
             unreachable!();
         }
-- 
2.43.0


From 5fc02e6fdb71c89e9f3bf6a9505bd2d90b33a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:42 +0000
Subject: [PATCH 025/120] fix: merge aggregator must not lose a trailing empty
 part

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a416a64..fb6a34a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -574,9 +574,9 @@ pub fn split_plain(parts: &mut Vec<FakeSlice>, line: &[u8], delim: u8) {
         }
         end += 1;
     }
-    if begin != end {
+    if !line.is_empty() {
         let mut f = FakeSlice { begin, end };
-        if line[(end - 1) as usize] == b'\n' {
+        if begin != end && line[(end - 1) as usize] == b'\n' {
             f.end -= 1;
         }
         parts.push(f);
-- 
2.43.0


From a5fa7fe23c135bc68bf69bbb9fe74439e40e2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:55 +0000
Subject: [PATCH 026/120] fix: a column counted from the end (+N) must be
 accepted as a key or aggregate column

---
 src/column.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..741c90d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1485,6 +1485,7 @@ impl NamedCol {
     pub fn parse<'a>(&mut self, orig_spec: &'a str) -> Result<&'a str> {
         let mut spec = orig_spec;
         self.num = 0;
+        self.from_end = 0;
         self.name.clear();
         if spec.is_empty() {
             return err!("Empty string found where column name expected");
@@ -1492,7 +1493,11 @@ impl NamedCol {
         let mut ch = spec.first();
         let was_plus = ch == '+';
         if was_plus {
-            ch = spec.take_first();
+            spec = spec.skip_first();
+            if spec.is_empty() {
+                return err!("'+' must be follwed by a number : {}", orig_spec);
+            }
+            ch = spec.first();
         }
         if ch.is_ascii_digit() && ch != '0' {
             let (a, b) = spec.to_usize();
-- 
2.43.0


From fa39ad7134a4309908ddb4153fd407ff384ab12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:53 +0000
Subject: [PATCH 027/120] fix: a matcher in a column list may be followed by
 more columns, renamed or negated

---
 src/column.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 741c90d..5995ef2 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -799,13 +799,21 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
-                let pos = find_close(spc)?;
+            let open = spc.find('(');
+            if open.is_some() && (!spc.contains(',') || open < spc.find(',')) {
+                // the matcher's own commas do not separate ranges
+                let open = open.unwrap();
+                let pos = open + find_close(&spc[open..])?;
                 self.add_one(&spc[..pos], negate, trans);
                 spc = &spc[pos..];
                 if spc.is_empty() {
                     break;
                 }
+                if let Some(rest) = spc.strip_prefix(',') {
+                    spc = rest;
+                } else {
+                    return err!("Malformed Range {}", spec);
+                }
             } else if let Some((a, b)) = spc.split_once(',') {
                 self.add_one(a, negate, trans);
                 spc = b;
-- 
2.43.0


From 54e68baa440b1c42316cc3764b35b4d5081059ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:48 +0000
Subject: [PATCH 028/120] fix: selecting no column at all must not panic

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 5995ef2..0e07067 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len()
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From ff6e0d2ad6adf09c3b743dd5ae827dc65f4bd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 029/120] fix: line numbers must be right after Reader::open

---
 src/bin/cdx/verify_main.rs |  2 +-
 src/util.rs                | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..bf61abc 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -100,7 +100,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
diff --git a/src/util.rs b/src/util.rs
index fb6a34a..08c9f7a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1549,14 +1549,18 @@ impl Reader {
             loc: FileLocData::default(),
         };
         tmp.cont.read_header(&mut *tmp.file, &mut tmp.lines[0])?;
-        tmp.loc.name = name.to_string();
-        tmp.loc.line = 1;
-        tmp.loc.bytes = if tmp.has_header() {
-            tmp.header().line.len()
+        tmp.init_loc(name);
+        Ok(tmp)
+    }
+    /// location of the first line
+    fn init_loc(&mut self, name: &str) {
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
         } else {
             0
         };
-        Ok(tmp)
     }
     /// get current line contents, without the trailing newline
     #[must_use]
@@ -1588,7 +1592,10 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.cont
+            .read_header(&mut *self.file, &mut self.lines[0])?;
+        self.init_loc(name);
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From d0918b71b9fbc46332d4e59c5b21b0a0a06419aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:03 +0000
Subject: [PATCH 030/120] fix: mixing files with and without a header must be
 refused by every tool

---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 08c9f7a..63ac546 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1968,6 +1968,8 @@ impl HeaderChecker {
         // FIXME - if is_cdx, make sure is also a valid header
         let cdx = is_valid_cdx(first_line, self.mode, fname)?;
         if first_line.is_empty() {
+            // a file without a header
+            self.check(b"\n", fname)?;
             Ok(false)
         } else if first_line.last().unwrap() != &b'\n' && cdx {
             err!("Malformed Header line in file {}", &fname)
-- 
2.43.0


From 8b9b3423d97fb240e6f581446dbd468e602ee423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:03 +0000
Subject: [PATCH 031/120] fix: header modes must do what they say: Strip
 strips, None forbids, Require matches

---
 src/util.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 63ac546..79aef85 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2003,6 +2003,14 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!(
+                            "Header Mismatch. First was {}, File {} has {}",
+                            String::from_utf8_lossy(&self.head),
+                            fname,
+                            String::from_utf8_lossy(first_line)
+                        );
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
@@ -2017,7 +2025,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From 48b979712ab9b72452c9b08aedb4ecb7bd7004c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:03 +0000
Subject: [PATCH 032/120] fix: cat must supply a missing newline after any last
 line, not just the first one

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..7fb460f 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -198,7 +198,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From ac7038168cc5fe0996bb299fe7df48f398d15c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:03 +0000
Subject: [PATCH 033/120] fix: cat and sample must not stop at a file that has
 only a header

---
 src/bin/cdx/cat_main.rs    | 2 +-
 src/bin/cdx/sample_main.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 7fb460f..1c1932a 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..23ec2aa 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
-- 
2.43.0


From c7c8b5ac5d7d4857969a2321460bf659a5866247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:13 +0000
Subject: [PATCH 034/120] fix: a value must be found equal to a whole line

---
 src/comp.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 492bf04..f8e7c84 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -396,6 +396,14 @@ impl LineCompWhole {
     const fn new(comp: Comp) -> Self {
         Self { comp }
     }
+    /// whole lines are compared with their newline, so a value or a final line needs one too
+    fn with_nl(value: &[u8]) -> std::borrow::Cow<'_, [u8]> {
+        if value.last() == Some(&b'\n') {
+            value.into()
+        } else {
+            [value, b"\n"].concat().into()
+        }
+    }
 }
 
 impl LineCompare for LineCompWhole {
@@ -459,23 +467,23 @@ impl LineCompare for LineCompWhole {
     }
 
     fn set(&mut self, value: &[u8]) {
-        self.comp.set(value);
+        self.comp.set(&Self::with_nl(value));
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        self.comp.comp_self(&Self::with_nl(right.line()))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        self.comp.equal_self(&Self::with_nl(right.line()))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(&Self::with_nl(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp.equal_self(&Self::with_nl(right))
     }
 }
 
-- 
2.43.0


From 79e58ae25c1d4061d895730efe00a5fb6c4ed17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:13 +0000
Subject: [PATCH 035/120] fix: verify --first and --last must check both ends
 of a range

---
 src/util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 79aef85..02c2a0d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2132,7 +2132,7 @@ impl CompareOp {
         comp: &mut LineCompList,
         line_num: usize,
     ) -> bool {
-        if !self.invert().line_ok(line, comp) {
+        if !self.line_ok(line, comp) {
             eprint!("Line {line_num} : ");
             prerr_n(&[&line.line]);
             eprint!("should have been {self:?} ");
@@ -2146,7 +2146,7 @@ impl CompareOp {
     /// return (line OP value)
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> bool {
         let o = comp.comp_self_cols(line);
-        self.ord_ok(o)
+        self.invert().ord_ok(o)
     }
     /// does Ordering satisfy `CompareOp`
     #[must_use]
@@ -2296,7 +2296,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
@@ -2312,7 +2312,16 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
-- 
2.43.0


From 42abfae8a21ce2c4d83c427f71b20262d801c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:13 +0000
Subject: [PATCH 036/120] fix: verify --report and --show-matchers must not
 panic

---
 src/bin/cdx/verify_main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index bf61abc..2db7aef 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -46,9 +46,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             list.push(&x.value)?;
         } else if x.name == "key" {
             comp.add(&x.value)?;
-        } else if x.name == "or" {
-            list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +57,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            cdx::matcher::MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From a5b34c2dd19188730ba65db7557a58754d37b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:35 +0000
Subject: [PATCH 037/120] fix: verify must check the last line too

---
 src/bin/cdx/verify_main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 2db7aef..a9c3c7b 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -110,7 +110,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !list.ok_verbose(f.curr_line(), f.line_number(), x) {
                 did_fail = true;
             }
-            if f.getline()? {
+            let done = f.getline()?;
+            if done {
                 if last.is_some()
                     && !last.as_ref().unwrap().line_ok_verbose(
                         f.prev_line(1),
@@ -120,9 +121,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 {
                     fails += 1;
                 }
-                break;
-            }
-            if do_sort {
+            } else if do_sort {
                 did_fail = did_fail || comp_check(&f, &mut comp, do_unique);
             }
             if did_fail {
@@ -131,6 +130,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
             }
+            if done {
+                break;
+            }
         }
         if fails > 0 {
             return cdx_err(CdxError::Silent);
-- 
2.43.0


From 5294f5ff6d7ee0b3c01426efc37391e5d7502d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:35 +0000
Subject: [PATCH 038/120] fix: wc --columns must not stop at a header without
 data nor panic on a long line

---
 src/bin/cdx/wc_main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..fbabffb 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,11 +107,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
-                for (i, x) in f.curr_line().iter().enumerate() {
-                    aggs[colmap[i]].agg.add(x);
+                // columns beyond the header have no name to be counted under
+                for (x, col) in f.curr_line().iter().zip(&colmap) {
+                    aggs[*col].agg.add(x);
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 01a08dbd0649e68106161f9b87fffcef32d5da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:35 +0000
Subject: [PATCH 039/120] fix: sampling two lines must not panic

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..4255f03 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,7 +22,7 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
+        let large = (small * 2 - 2).max(small + 1);
         let mut data = Vec::with_capacity(large);
         for _ in 0..large {
             data.push(Vec::new());
-- 
2.43.0


From ca9fa3ac05cd5fa9943139871bd506c0588666bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:35 +0000
Subject: [PATCH 040/120] fix: transposing a file that is only a header must
 not add an empty column

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..f1ef405 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From 85ded680125a9e6ccf5d4e425269a3d1a8b313b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:35 +0000
Subject: [PATCH 041/120] fix: paste --last must not panic on a file without
 lines

---
 src/bin/cdx/paste_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..2735a46 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -130,7 +130,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && !f.prev_line(1).line().is_empty() {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From e5d9666663a880be1c58d31d378e54cea951e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 042/120] fix: verify --first '<=x' must not be read as '<'
 followed by '=x'

---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 02c2a0d..1884cef 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2175,8 +2175,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|==|!=|<|>)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
@@ -2216,8 +2216,8 @@ impl<'a> RangeSpec<'a> {
     fn new_trail(spec: &'a str) -> Result<(Self, usize)> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("(^|,)(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)([^=].*)$").unwrap();
-            static ref RE2: Regex = Regex::new("(^|,)(<|>|<=|>=|==|!=)([^=].*)$").unwrap();
+                Regex::new("(^|,)(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)([^=].*)$").unwrap();
+            static ref RE2: Regex = Regex::new("(^|,)(<=|>=|==|!=|<|>)([^=].*)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("(^|,)(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("(^|,)(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From d1235cf98f666f2e05481dab62161d300d882949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 043/120] fix: glob retries a star at every position, and does
 not panic at the end of the text

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..a8f67a0 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From 4dcb6c883d498e967427f4167a1d52f06672b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 044/120] fix: case-insensitive comparison of strings does not
 look at byte lengths, which case can change

---
 src/text.rs | 44 ++++++++------------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a8f67a0..b7d0088 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -382,53 +382,25 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 < ch.1 {
-                return Ordering::Less;
-            }
-            if ch.0 > ch.1 {
-                return Ordering::Greater;
-            }
-        }
-        self.len().cmp(&other.len())
+            .cmp(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens_quick(&self, other: &Self) -> Ordering {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 < ch.1 {
-                return Ordering::Less;
-            }
-            if ch.0 > ch.1 {
-                return Ordering::Greater;
-            }
-        }
-        self.len().cmp(&other.len())
+        self.chars()
+            .cmp(other.chars().flat_map(char::to_lowercase))
     }
     fn assign_lower(&self, dst: &mut String) {
         dst.clear();
-- 
2.43.0


From 02c61a3dc5f239c7aaf54fed17ff5cf7e142e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 045/120] fix: utf8.case.exact ignores the case of the target

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index dac5aa0..ad38315 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -755,10 +755,10 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
-        buff.equal_insens_quick(&self.u_data)
+        self.u_data.equal_insens_quick(buff)
     }
     fn show(&self) -> String {
         format!("Case insensitive exact match of {}", self.s_data)
-- 
2.43.0


From 0e50b48bfae6c2e63f12f501076aba9c256d5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 046/120] fix: patterns and targets are lowercased alike, also
 where a final sigma is involved

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index ad38315..6102db4 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -366,7 +366,7 @@ struct PrefixMatchC {
 impl PrefixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -483,7 +483,7 @@ struct SuffixMatchC {
 impl SuffixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -509,14 +509,14 @@ struct InfixMatchC {
 impl InfixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
 }
 impl Match for InfixMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.to_lowercase().contains(&self.s_data) // PERF allocation
+        buff.new_lower().contains(&self.s_data) // PERF allocation
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         find(&buff.to_ascii_lowercase(), &self.u_data).is_some() // PERF allocation
-- 
2.43.0


From 29925269f4536aa68c7de65e24505c40dd87927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 047/120] fix: case-insensitive suffix match with an empty
 pattern does not panic

---
 src/matcher.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 6102db4..df42416 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -406,14 +406,10 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    haystack[haystack.len() - needle.len()..]
+        .iter()
+        .map(u8::to_ascii_lowercase)
+        .eq(needle.iter().copied())
 }
 
 // needle is already lowercase
-- 
2.43.0


From df8764f2f5032a7a94efaabe785bb063445836dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 048/120] fix: the null modifier accepts empty targets rather
 than negating the match

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index df42416..fc6b335 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1859,7 +1859,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From 559162c974bf95e7a2d604bf991753ba443288e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 049/120] fix: the not modifier is honored wherever a matcher
 is used, not only by line matchers

---
 src/matcher.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index fc6b335..dc24f3c 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1026,13 +1026,12 @@ impl WholeMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for WholeMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.line_nl()))
-            } else {
-                self.matcher.umatch(line.line_nl())
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.line_nl()))
+        } else {
+            self.matcher.umatch(line.line_nl())
+        }
     }
 
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
@@ -1118,7 +1117,8 @@ impl LineMatch for ColSetMatcher {
             } else {
                 self.matcher.umatch(line.get(x.num))
             };
-            if did_match {
+            // "not" applies to the determination as a whole
+            if did_match != self.matcher.negate {
                 yes += 1;
             } else {
                 no += 1;
@@ -1162,13 +1162,12 @@ impl ColMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for ColMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
-            } else {
-                self.matcher.umatch(line.get(self.col.num))
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
+        } else {
+            self.matcher.umatch(line.get(self.col.num))
+        }
     }
 
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -1546,11 +1545,7 @@ impl Matcher {
         if self.trim {
             buff = buff.trimw();
         }
-        if self.empty && buff.is_empty() {
-            true
-        } else {
-            self.matcher.smatch(buff)
-        }
+        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.smatch(buff))
     }
     /// Are these bytes ok?
     #[must_use]
@@ -1558,11 +1553,7 @@ impl Matcher {
         if self.trim {
             buff = buff.trimw();
         }
-        if self.empty && buff.is_empty() {
-            true
-        } else {
-            self.matcher.umatch(buff)
-        }
+        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.umatch(buff))
     }
     /// umatch or smatch, depending on self.string
     pub fn do_match(&self, buff: &[u8]) -> Result<bool> {
@@ -1880,6 +1871,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // "not" applies to the combination
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From 339dd80d34f2596eb989e3e47187e09426268115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:51 +0000
Subject: [PATCH 050/120] fix: a pattern can be matched against a bracketed set
 of columns

---
 src/matcher.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index dc24f3c..bbd1f8d 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -272,6 +272,16 @@ impl Determiner {
             return err!("Unknown Determiner {spec}");
         })
     }
+    /// split "Determiner,Rest" into its two parts, where the Determiner might have a threshhold
+    fn split(spec: &str) -> Option<(&str, &str)> {
+        let (name, _) = spec.split_once(',')?;
+        let parts = match name {
+            "atmost" | "atleast" | "exactly" | "atmostno" | "atleastno" | "exactlyno" => 2,
+            _ => 1,
+        };
+        let (pos, _) = spec.match_indices(',').nth(parts - 1)?;
+        Some((&spec[..pos], &spec[pos + 1..]))
+    }
     /// we've seen this many yes's and this many no's, with more to come. Are we done yet?
     #[must_use]
     pub const fn match_mid(&self, yes: usize, no: usize) -> Tri {
@@ -1094,7 +1104,7 @@ struct ColSetMatcher {
 impl ColSetMatcher {
     /// new from parts
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        if let Some((a, b)) = cols.split_once(',') {
+        if let Some((a, b)) = Determiner::split(cols) {
             Ok(Self {
                 matcher: MatchMaker::make2(method, pattern)?,
                 col: ColumnSet::from_spec(b)?,
@@ -1920,9 +1930,12 @@ impl MatchMaker {
     /// Create a matcher from a full spec, i.e. "Matcher,Pattern"
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
-            let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let (cols, rest) = spec.split_at(util::find_close(spec)?);
+            let rest = match rest.strip_prefix(',') {
+                Some(x) => x,
+                None if rest.is_empty() => rest,
+                None => return err!("Expected a comma after '{cols}' in '{spec}'"),
+            };
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From 903447f4f20510757ba309c127681459febc3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:51 +0000
Subject: [PATCH 051/120] fix: comp matcher accepts the documented
 [determiner,columns] and OP.column forms

---
 src/matcher.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index bbd1f8d..04784be 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -910,16 +910,22 @@ impl ColGroup {
         } else if spec.first() == ',' {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
-            let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let (group, rest) = spec.split_at(util::find_close(spec)?);
+            let group = &group[1..group.len() - 1];
+            let (det, cols) = match Determiner::split(group) {
+                Some((a, b)) if !a.is_empty() => match Determiner::new(a) {
+                    Ok(d) => (d, b),
+                    Err(_) => (Determiner::default(), group),
+                },
+                _ => (Determiner::default(), group),
+            };
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
-                    det: Determiner::default(),
+                    det,
                     has_col: true,
                 },
-                rest,
+                rest.strip_prefix(',').unwrap_or(rest),
             ))
         } else if let Some((a, b)) = spec.split_once(',') {
             Ok((
@@ -961,13 +967,16 @@ impl CompMatcher {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-        let op1 = pattern[0..2].parse::<CompareOp>();
+        let op1 = pattern.get(0..2).unwrap_or("").parse::<CompareOp>();
         let op;
         if let Ok(o) = op1 {
             pattern = &pattern[2..];
             op = o;
+            if let Some(rest) = pattern.strip_prefix('.') {
+                pattern = rest;
+            }
         } else {
-            let op1 = pattern[0..1].parse::<CompareOp>();
+            let op1 = pattern.get(0..1).unwrap_or("").parse::<CompareOp>();
             if let Ok(o) = op1 {
                 pattern = &pattern[1..];
                 op = o;
-- 
2.43.0


From a78a4a5742234b43f8ed3ef057c0961ed8347eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:51 +0000
Subject: [PATCH 052/120] fix: a multi-pattern without a pattern is an error
 rather than a panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 04784be..1ed30e4 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1885,6 +1885,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("A multi-pattern must start with a delimiter");
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From 2b9b253216aa54de71f27292051b6db924d3b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:25 +0000
Subject: [PATCH 053/120] fix: a reversed comparison in a range pattern is
 honored

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 1884cef..6ee9dae 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,7 +1,7 @@
 //! Misc utility stuff
 //#![allow(dead_code)]
 use crate::column::ColumnHeader;
-use crate::comp::{CompMaker, Compare};
+use crate::comp::{Comp, CompMaker};
 use crate::prelude::*;
 use anyhow;
 use flate2::read::MultiGzDecoder;
@@ -2345,9 +2345,9 @@ impl CheckLine {
 /// A compare op with some text to compare against
 pub struct CheckBuff {
     op: CompareOp,
-    val: Box<dyn Compare>,
+    val: Comp,
     op2: Option<CompareOp>,
-    val2: Option<Box<dyn Compare>>,
+    val2: Option<Comp>,
 }
 impl fmt::Debug for CheckBuff {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -2366,7 +2366,7 @@ impl CheckBuff {
         Ok(Self {
             op: r.op1.parse::<CompareOp>()?,
             val: {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val1.as_bytes());
                 c
             },
@@ -2378,7 +2378,7 @@ impl CheckBuff {
             val2: if r.val2.is_none() {
                 None
             } else {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val2.unwrap().as_bytes());
                 Some(c)
             },
-- 
2.43.0


From 84c6b288833f049cf647b1bd515a49d625fe56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:57 +0000
Subject: [PATCH 054/120] fix: fractional atmost and atleast determiners are no
 longer swapped

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 1ed30e4..7bbfa3b 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => num::f64_greater(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,7 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) => num::f64_less(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
-- 
2.43.0


From 0631c482c3e1c2acf08cbaca8f5ef945b23115b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 055/120] fix: comp matcher accepts a column of one character,
 as in '<3'

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 7bbfa3b..a4dab29 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -963,7 +963,7 @@ struct CompMatcher {
 impl CompMatcher {
     fn new(incol: &str, mut pattern: &str) -> Result<Self> {
         let target = NamedCol::new_from(incol)?;
-        if pattern.len() < 3 {
+        if pattern.len() < 2 {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-- 
2.43.0


From 96fae9b1575834273a36ee68392a15402136aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 056/120] fix: expressions accept the comparison operators <=
 >= == !=

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..8c8975a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 0b33c8cb70e0a5369d8289a194010223ff262d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 057/120] fix: + and - are binary after a factorial and unary
 at the start of an argument list

---
 src/tok2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 8c8975a..7781779 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,13 +63,14 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
+        Unary(UnaryOp::Fact) => true,
         Unary(_) => false,
         LParen => false,
         RParen => true,
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false,
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From 439323f0ae8a866a488769a89dd7d2279685c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 058/120] fix: underscores are allowed in the names of
 constants and columns in expressions

---
 src/tok2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 7781779..e663b6d 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -153,7 +153,8 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty() && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From 305d147867cbc9797859ba8902f6b323913569ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 059/120] fix: a malformed expression is an error rather than a
 panic or a value

---
 src/shunting_yard.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..9e70c5a 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -46,8 +46,25 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     let mut output = Vec::with_capacity(input.len());
     let mut stack = Vec::with_capacity(input.len());
 
+    let mut want_operand = true;
     for (index, token) in input.iter().enumerate() {
         let token = token.clone();
+        let is_operand = matches!(
+            token,
+            Number(_)
+                | Var(_)
+                | Func(..)
+                | LParen
+                | Unary(UnaryOp::Plus | UnaryOp::Minus)
+        );
+        if is_operand != want_operand {
+            return err!("Operand expected or operand unexpected in expression");
+        }
+        match token {
+            Number(_) | Var(_) => want_operand = false,
+            Binary(_) | Comma => want_operand = true,
+            _ => {}
+        }
         match token {
             Number(_) | Var(_) => output.push(token),
             Unary(_) => stack.push((index, token)),
@@ -113,6 +130,10 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
         }
     }
 
+    if want_operand {
+        return err!("Not Enough Operands");
+    }
+
     while let Some((_index, token)) = stack.pop() {
         match token {
             Unary(_) | Binary(_) => output.push(token),
-- 
2.43.0


From 45ad6ca4461df6902399611de35fa95cf87e5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 060/120] fix: the factorial of zero is one

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..4d8a641 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -649,7 +649,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From 7aa852f9294426dd408a03d417b26f95b0ce1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 061/120] fix: acos computes the arc cosine

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 4d8a641..20b66f2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From f3e67b401b15cf12f4bd6ebe1ea441b880d4de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 062/120] fix: column zero in an expression is an error rather
 than a panic

---
 src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20b66f2..013cf02 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -492,8 +492,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
-                continue;
+                let col = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
+                if col > 0 {
+                    y.col = Some(col - 1);
+                    continue;
+                }
             }
             // FIXME - some way to declare other variables
             return err!("Undefined variable {}", y.name);
-- 
2.43.0


From 40ed69325241bb4dae56e472f04a64916ee3ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 063/120] fix: numbers with too many digits saturate rather
 than panic

---
 src/text.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index b7d0088..0488e19 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -605,14 +605,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as usize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = ret.saturating_mul(mul);
             }
         }
         (ret, curr)
@@ -633,14 +633,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
         ret *= neg;
@@ -687,8 +687,8 @@ impl Text for [u8] {
             }
             let mut exponent: i32 = 0;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
+                exponent = exponent.saturating_mul(10);
+                exponent = exponent.saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
             exponent *= neg_exp;
-- 
2.43.0


From 2aaa8b9a71c2cac9f3dc1283a50aec20974e3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 064/120] fix: integer suffixes m g t p e and M G T P E scale
 by the right powers

---
 src/num.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 59d85fd..d8e111e 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -264,11 +264,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1024_usize.pow(2),
+    1024_usize.pow(3),
+    1024_usize.pow(4),
+    1024_usize.pow(5),
+    1024_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
@@ -286,11 +286,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1000_usize.pow(2),
+    1000_usize.pow(3),
+    1000_usize.pow(4),
+    1000_usize.pow(5),
+    1000_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
-- 
2.43.0


From a3fd5835f105a957baa2dd7f145cfb8885196e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 065/120] fix: values that are not a number have a consistent
 place in numeric orderings

---
 src/comp.rs | 12 ++++++------
 src/num.rs  |  9 ++++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index f8e7c84..06d4f3d 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1695,7 +1695,7 @@ impl Compare for Comparef64 {
         fcmp(left.to_f64_lossy(), right.to_f64_lossy())
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        left.to_f64_lossy() == right.to_f64_lossy()
+        fcmp(left.to_f64_lossy(), right.to_f64_lossy()) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = ulp_to_ulong(value.to_f64_lossy());
@@ -1708,7 +1708,7 @@ impl Compare for Comparef64 {
         fcmp(self.value, right.to_f64_lossy())
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        self.value == right.to_f64_lossy()
+        fcmp(self.value, right.to_f64_lossy()) == Ordering::Equal
     }
 }
 
@@ -1870,7 +1870,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1894,7 +1894,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
@@ -1921,7 +1921,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
         let value = self.exprs[0].eval(right);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
     fn comp_self_line(&mut self, right: &[u8], delim: u8) -> Ordering {
         let value = self.exprs[0].eval_line(right, delim);
@@ -1929,7 +1929,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_line(&mut self, right: &[u8], delim: u8) -> bool {
         let value = self.exprs[0].eval_line(right, delim);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
 }
 
diff --git a/src/num.rs b/src/num.rs
index d8e111e..c46d063 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -110,12 +110,19 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
     if x > y {
         return Ordering::Greater;
     }
-    Ordering::Less
+    if x < y {
+        return Ordering::Less;
+    }
+    // NaN is equal to itself, and greater than everything else
+    x.is_nan().cmp(&y.is_nan())
 }
 
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    if d.is_nan() {
+        return u64::MAX;
+    }
     let d = d + 0.0; // -0.0 is equal to 0.0, so they must map to the same value
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
-- 
2.43.0


From 28d64b52bd589040e8e61cc90c153420a45f289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:21 +0000
Subject: [PATCH 066/120] fix: a zero with a large exponent is zero

---
 src/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text.rs b/src/text.rs
index 0488e19..868bd87 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -712,6 +712,7 @@ impl Text for [u8] {
                 //  	    These two lose accuracy
                 //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LOG2_10).exp2();},
                 //	    _ => {ret *= ((exponent as f64) * std::f64::consts::LN_10).exp();},
+                _ if ret == 0.0 => {}
                 _ => {
                     ret *= libm::exp10(f64::from(exponent));
                 }
-- 
2.43.0


From 5b00ddd36e861aa87c393c0f9926fbc9961dc45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:36 +0000
Subject: [PATCH 067/120] fix: the columns of an expression are looked up anew
 in each file

---
 src/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 013cf02..303472f 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -293,6 +293,7 @@ pub struct Expr {
     expr: Vec<Node>,
     vars: Vec<VarMap>, // FIXME - Rc<RefCell<Vec<VarMap>>>, shared
     stack: Vec<f64>,   // temp space for eval
+    preset: Option<usize>, // number of variables that are not columns
 }
 
 const fn to_f(x: bool) -> f64 {
@@ -479,7 +480,8 @@ impl Expr {
             }
             n.replace_range(pos..pos + len, &nval);
         }
-        let start_vars = self.vars.len();
+        let start_vars = *self.preset.get_or_insert(self.vars.len());
+        self.vars.truncate(start_vars);
         self.parse(&n)?;
         'outer: for y in self.vars.iter_mut().skip(start_vars) {
             for (i, x) in fieldnames.iter().enumerate() {
-- 
2.43.0


From 6a29e80b0ed43817bfa46114d587bf31833c0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 068/120] fix: a quoted value is written with its closing quote

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 6ee9dae..a1c9ef4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -558,6 +558,9 @@ fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
         }
         w.write_all(&[*ch])?;
     }
+    if made_quote {
+        w.write_all(&[b'"'])?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 98942afa1a68f4d8bca1c3d9959893c2e3e269ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 069/120] fix: quoted and escaped lines split into exactly
 their values, empty ones included

---
 src/util.rs | 57 +++++++++++++++++------------------------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index a1c9ef4..4512e32 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -352,6 +352,10 @@ impl TextFileMode {
             QuoteMode::Quote => write_quotes(w, buf, self.delim, self.line_break),
         }
     }
+    /// remove one trailing line delimiter
+    fn strip_eol<'a>(&self, line: &'a [u8]) -> &'a [u8] {
+        line.strip_suffix(&[self.line_break]).unwrap_or(line)
+    }
     /// split data line into columns
     pub fn split(&self, line: &mut TextLine) {
         match self.col_mode {
@@ -359,12 +363,14 @@ impl TextFileMode {
             QuoteMode::Backslash => {
                 line.orig.clear();
                 line.orig.extend_from_slice(&line.line);
-                split_backslash(&mut line.parts, &line.orig, &mut line.line, self.delim);
+                let text = self.strip_eol(&line.orig);
+                split_backslash(&mut line.parts, text, &mut line.line, self.delim);
             }
             QuoteMode::Quote => {
                 line.orig.clear();
                 line.orig.extend_from_slice(&line.line);
-                split_quotes(&mut line.parts, &line.orig, &mut line.line, self.delim);
+                let text = self.strip_eol(&line.orig);
+                split_quotes(&mut line.parts, text, &mut line.line, self.delim);
             }
         }
     }
@@ -608,14 +614,10 @@ pub const fn enslash(ch: u8) -> u8 {
     }
 }
 
-/// split a line by a delimiter. Remove trailing newline, if any.
+/// split a line, without its line delimiter, by a delimiter.
 pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
-    let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
-    }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut last_was_slash = false;
@@ -639,54 +641,31 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
-/// split a line by a delimiter. Remove trailing newline, if any.
+/// split a line, without its line delimiter, by a delimiter.
+/// A doubled quote is a quote, a single one starts or ends quoting.
 pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
-    let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
-    }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
-    let mut last_was_quote = false;
     let mut in_quote = false;
-    for ch in line {
-        if in_quote {
-            if last_was_quote {
-                if *ch == b'"' {
-                    tmp.push(*ch);
-                    end += 1;
-                    continue;
-                } else {
-                    in_quote = false;
-                    // not continue
-                }
-            } else if *ch == b'"' {
-                last_was_quote = true;
-                continue;
-            }
-        } else if *ch == b'"' {
-            in_quote = true;
-            last_was_quote = true;
+    let mut iter = line.iter().peekable();
+    while let Some(ch) = iter.next() {
+        if *ch == b'"' && iter.next_if(|x| **x == b'"').is_none() {
+            in_quote = !in_quote;
             continue;
         }
-
         tmp.push(*ch);
-        if *ch == delim {
+        if *ch == delim && !in_quote {
             parts.push(FakeSlice { begin, end });
             begin = end + 1;
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From b0e0f6c7e5b69232af2af2c475884787f4b27a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 070/120] fix: quoted and escaped lines are written as they
 were read

---
 src/util.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4512e32..7dbae08 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -767,7 +767,8 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        let line = self.line();
+        &line[..line.len() - 1]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -779,6 +780,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -801,6 +804,7 @@ impl TextLine {
     pub fn clear(&mut self) {
         self.parts.clear();
         self.line.clear();
+        self.orig.clear();
     }
     /// How many column in the line
     #[must_use]
@@ -1547,14 +1551,12 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        self.curr_line().line_nl()
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        self.prev_line(n).line_nl()
     }
     /// get delimiter
     #[must_use]
@@ -1568,7 +1570,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1608,8 +1610,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].orig.clear();
         if self
             .cont
             .text
@@ -1647,12 +1650,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
-- 
2.43.0


From f7cf3460a88f27941c0d548dafba77e0f8d423e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 071/120] fix: line delimiters other than newline are neither
 part of a value nor replaced by newlines

---
 src/column.rs |  4 ++--
 src/util.rs   | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 0e07067..b7e0b33 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -234,7 +234,7 @@ impl ColumnHeader {
             res.push(text.delim as char);
         }
         self.add_head(&mut res, text);
-        res.push('\n');
+        res.push(text.line_break as char);
         res
     }
 
@@ -1428,7 +1428,7 @@ impl Writer {
                 }
             }
         };
-        w.write_all(&[b'\n'])?;
+        w.write_all(&[self.text.line_break])?;
         Ok(())
     }
 }
diff --git a/src/util.rs b/src/util.rs
index 7dbae08..276d5ae 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -359,7 +359,14 @@ impl TextFileMode {
     /// split data line into columns
     pub fn split(&self, line: &mut TextLine) {
         match self.col_mode {
-            QuoteMode::Plain => split_plain(&mut line.parts, &line.line, self.delim),
+            QuoteMode::Plain => {
+                split_plain(&mut line.parts, &line.line, self.delim);
+                if self.line_break != b'\n' && line.line.last() == Some(&self.line_break) {
+                    if let Some(x) = line.parts.last_mut() {
+                        x.end -= 1;
+                    }
+                }
+            }
             QuoteMode::Backslash => {
                 line.orig.clear();
                 line.orig.extend_from_slice(&line.line);
@@ -376,6 +383,10 @@ impl TextFileMode {
     }
     /// split data line into columns
     pub fn split_head(&self, line: &mut StringLine) {
+        if self.line_break != b'\n' && line.line.as_bytes().last() == Some(&self.line_break) {
+            line.line.pop();
+            line.line.push('\n');
+        }
         line.split(self.delim);
         if line.line.starts_with(" CDX") {
             line.parts.remove(0);
-- 
2.43.0


From 41173410a457896d11018af2a9a7dfb82f18fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 072/120] fix: a quoted value is written between quotes

---
 src/util.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 276d5ae..ed786ec 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -563,19 +563,18 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    let need_quote = buf.iter().any(|ch| *ch == tab || *ch == eol);
+    if need_quote {
+        w.write_all(&[b'"'])?;
+    }
     for ch in buf {
         if *ch == b'"' {
             w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+        } else {
+            w.write_all(&[*ch])?;
         }
-        w.write_all(&[*ch])?;
     }
-    if made_quote {
+    if need_quote {
         w.write_all(&[b'"'])?;
     }
     Ok(())
-- 
2.43.0


From c731ae22025157bdaed39b6ec4ed6af04db832c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 073/120] fix: columns of a file without a header can be
 selected whatever the column delimiter

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index ed786ec..c39458b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1319,7 +1319,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(self.text.delim as char);
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From d56fcb9bf697be5103e73b7fedcc4136938a1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 074/120] fix: a header may end in the line delimiter asked for

---
 src/bin/cdx/globals.rs |  1 +
 src/util.rs            | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/globals.rs b/src/bin/cdx/globals.rs
index 9dc9c09..f4ad265 100644
--- a/src/bin/cdx/globals.rs
+++ b/src/bin/cdx/globals.rs
@@ -113,6 +113,7 @@ impl Settings {
                 unreachable!();
             }
         }
+        self.checker.line_break = Some(self.text_out().line_break);
         Ok(())
     }
 }
diff --git a/src/util.rs b/src/util.rs
index c39458b..c95d146 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1879,6 +1879,8 @@ impl Default for HeaderMode {
 pub struct HeaderChecker {
     /// the mode to enforce
     pub mode: HeaderMode,
+    /// what ends a header, default newline
+    pub line_break: Option<u8>,
     /// the first header seen
     head: Vec<u8>,
     /// true after first header has been processed
@@ -1892,7 +1894,7 @@ pub fn is_cdx(data: &[u8]) -> bool {
     // check for more validity?
 }
 
-fn is_valid_cdx(data_in: &[u8], mode: HeaderMode, fname: &str) -> Result<bool> {
+fn is_valid_cdx(data_in: &[u8], mode: HeaderMode, fname: &str, eol: u8) -> Result<bool> {
     if mode == HeaderMode::Ignore {
         return Ok(false);
     }
@@ -1903,7 +1905,7 @@ fn is_valid_cdx(data_in: &[u8], mode: HeaderMode, fname: &str) -> Result<bool> {
         return Ok(true);
     }
     let mut data = data_in;
-    if data.last().unwrap() == &b'\n' {
+    if data.last().unwrap() == &eol {
         data = &data[..data.len() - 1];
     }
     if data.len() < 6 {
@@ -1961,12 +1963,13 @@ impl HeaderChecker {
     /// return true if the line should be part of the output
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
         // FIXME - if is_cdx, make sure is also a valid header
-        let cdx = is_valid_cdx(first_line, self.mode, fname)?;
+        let eol = self.line_break.unwrap_or(b'\n');
+        let cdx = is_valid_cdx(first_line, self.mode, fname, eol)?;
         if first_line.is_empty() {
             // a file without a header
             self.check(b"\n", fname)?;
             Ok(false)
-        } else if first_line.last().unwrap() != &b'\n' && cdx {
+        } else if first_line.last().unwrap() != &eol && cdx {
             err!("Malformed Header line in file {}", &fname)
         } else if self.saw_one {
             match self.mode {
-- 
2.43.0


From bee36818d98b2edea54d6fbfa5a5f070927f6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:33 +0000
Subject: [PATCH 075/120] fix: headers and compression are recognized however
 the start of the input arrives

---
 src/util.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c95d146..76755ea 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1248,14 +1248,37 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
+    let (start, inner) = peek_start(inner)?;
     let mut outer = io::BufReader::new(inner);
-    let start = outer.fill_buf()?;
-    if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+    if start.starts_with(GZIP_START) {
+        outer = io::BufReader::new(peek_start(Box::new(MultiGzDecoder::new(outer)))?.1);
     }
     Ok(Infile::new(outer, name))
 }
 
+const GZIP_START: &[u8] = &[0x1fu8, 0x8bu8, 0x08u8];
+const HEADER_START: &[u8] = b" CDX";
+
+/// Read the start of a file, until it is clear if it is compressed or has a header.
+/// Return that and a reader of the whole file, which provides it in one piece.
+fn peek_start(mut inner: Box<dyn Read>) -> Result<(Vec<u8>, Box<dyn Read>)> {
+    let mut start = Vec::new();
+    let mut buff = [0u8; 4];
+    while (GZIP_START.starts_with(&start) || HEADER_START.starts_with(&start))
+        && start.len() < buff.len()
+    {
+        let want = buff.len() - start.len();
+        match inner.read(&mut buff[..want]) {
+            Ok(0) => break,
+            Ok(n) => start.extend_from_slice(&buff[..n]),
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e.into()),
+        }
+    }
+    let all = Box::new(io::Cursor::new(start.clone()).chain(inner));
+    Ok((start, all))
+}
+
 #[derive(Debug, Default)]
 /// shared context for any input file type
 pub struct InfileContext {
-- 
2.43.0


From ede42bccf04e77b41b563a057083d576bea61089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 076/120] fix: an empty quoted value is empty, and so written
 that it is read back

---
 src/util.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 76755ea..ae991ec 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -563,7 +563,8 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let need_quote = buf.iter().any(|ch| *ch == tab || *ch == eol);
+    let need_quote =
+        buf.first() == Some(&b'"') || buf.iter().any(|ch| *ch == tab || *ch == eol);
     if need_quote {
         w.write_all(&[b'"'])?;
     }
@@ -655,7 +656,8 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
 }
 
 /// split a line, without its line delimiter, by a delimiter.
-/// A doubled quote is a quote, a single one starts or ends quoting.
+/// A quote at the start of a value starts quoting. Otherwise
+/// a doubled quote is a quote, a single one starts or ends quoting.
 pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>, delim: u8) {
     parts.clear();
     tmp.clear();
@@ -664,7 +666,8 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     let mut in_quote = false;
     let mut iter = line.iter().peekable();
     while let Some(ch) = iter.next() {
-        if *ch == b'"' && iter.next_if(|x| **x == b'"').is_none() {
+        let at_start = begin == end && !in_quote;
+        if *ch == b'"' && (at_start || iter.next_if(|x| **x == b'"').is_none()) {
             in_quote = !in_quote;
             continue;
         }
-- 
2.43.0


From 9b10137ab72d399eba302f2a3b5d117f7684b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH 077/120] fix: sample writes a header with the line delimiter
 it was read with

---
 src/bin/cdx/sample_main.rs | 6 +++---
 src/util.rs                | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 23ec2aa..6f90660 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -2,7 +2,6 @@ use crate::prelude::*;
 use cdx::prelude::*;
 use cdx::sampler::Smooth;
 use cdx::tabs::Rect;
-use cdx::util::HeaderChecker;
 use std::ops::RangeInclusive;
 
 #[derive(Default)]
@@ -92,7 +91,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     ];
     let (args, files) = args::parse(&prog, &A, argv, settings)?;
 
-    let mut checker = HeaderChecker::new();
     let mut floop = For::default();
     let mut ranges = Ranges::default();
     let mut sample = 10;
@@ -130,6 +128,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         sample = Rect::from_screen().height;
     }
 
+    // lines are written as they were read
+    settings.checker.line_break = Some(settings.text_in.line_break);
     let mut w = get_writer("-")?;
     for x in &files {
         let mut f = Reader::new(&settings.text_in);
@@ -137,7 +137,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.is_empty() {
             continue;
         }
-        if checker.check_file(&f, x)? {
+        if settings.checker.check_file(&f, x)? {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/util.rs b/src/util.rs
index ae991ec..9dbe92a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -383,11 +383,17 @@ impl TextFileMode {
     }
     /// split data line into columns
     pub fn split_head(&self, line: &mut StringLine) {
-        if self.line_break != b'\n' && line.line.as_bytes().last() == Some(&self.line_break) {
+        let other_eol =
+            self.line_break != b'\n' && line.line.as_bytes().last() == Some(&self.line_break);
+        if other_eol {
             line.line.pop();
             line.line.push('\n');
         }
         line.split(self.delim);
+        if other_eol {
+            line.line.pop();
+            line.line.push(self.line_break as char);
+        }
         if line.line.starts_with(" CDX") {
             line.parts.remove(0);
         }
-- 
2.43.0


From 695316000e4bf014b7b41f8f699ba89ab3e4210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 078/120] fix: a value that cannot be transformed is an error
 rather than a panic

---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index b7e0b33..bfadba6 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1083,12 +1083,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1105,10 +1105,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 4172203b51c1f8a6cb94f28c48417a7de16fe614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 079/120] fix: aliases of transforms are known from the first
 use

---
 src/trans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trans.rs b/src/trans.rs
index 53c4e05..76ecc8e 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -398,6 +398,7 @@ impl TransMaker {
             spec.push(',');
             spec.push_str(pattern);
         }
+        Self::init()?;
         let mut conf = TransSettings::default();
         let mut kind = "";
         if !trans.is_empty() {
-- 
2.43.0


From 004d7dad30e65994b254e2a99e51f6fb6bcaa824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 080/120] fix: normalizing white space does not put a space
 after the first character

---
 src/trans.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trans.rs b/src/trans.rs
index 76ecc8e..410bcb2 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -124,8 +124,8 @@ impl Trans for NormSpace {
             } else {
                 if need_space && !dst.is_empty() {
                     dst.push(b' ');
-                    need_space = false;
                 }
+                need_space = false;
                 dst.push(*x);
             }
         }
@@ -148,8 +148,8 @@ impl Trans for NormSpaceUtf8 {
             } else {
                 if need_space && !self.tmp.is_empty() {
                     self.tmp.push(' ');
-                    need_space = false;
                 }
+                need_space = false;
                 self.tmp.push(x);
             }
         }
-- 
2.43.0


From 665547696c687d27254e74fb86da7ca760c2d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:15 +0000
Subject: [PATCH 081/120] fix: a sample far larger than the input needs no more
 memory than the input

---
 src/sampler.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index 4255f03..48aa992 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -11,7 +11,7 @@ use crate::prelude::*;
 pub struct Smooth {
     small: usize,       // goal size
     large: usize,       // maximum size
-    data: Vec<Vec<u8>>, // always length large
+    data: Vec<Vec<u8>>, // grows to at most large
     jump: usize,        // number of lines between entries
     pos: usize,         // number of lines between last and penultimate entries in data
     size: usize,        // current number of 'live' elements in data
@@ -22,24 +22,19 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = (small * 2 - 2).max(small + 1);
-        let mut data = Vec::with_capacity(large);
-        for _ in 0..large {
-            data.push(Vec::new());
-        }
+        let large = (small.saturating_mul(2) - 2).max(small.saturating_add(1));
         Self {
             small,
             large,
-            data,
+            data: Vec::new(),
             jump: 1,
             pos: 0,
             size: 0,
         }
     }
     fn verify(&self) -> bool {
-        debug_assert!(self.data.len() == self.large);
-        debug_assert!(self.size <= self.large);
-        debug_assert!(self.size <= self.large);
+        debug_assert!(self.data.len() <= self.large);
+        debug_assert!(self.size <= self.data.len());
         //	debug_assert!(self.pos <= self.jump);
         true
     }
@@ -51,6 +46,9 @@ impl Smooth {
                 self.jump *= 2;
                 self.collapse();
             }
+            if self.size == self.data.len() {
+                self.data.push(Vec::new());
+            }
             self.data[self.size].clear();
             self.data[self.size].extend(x);
             self.size += 1;
-- 
2.43.0


From ddfde5388d28232c94eb825fa7f5c38efabfd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:54 +0000
Subject: [PATCH 082/120] fix: counters are known before the first aggregator
 is made

---
 src/agg.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 8a8a7d5..e796cc6 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1297,15 +1297,6 @@ impl AggMaker {
         Self::do_add_alias("max", "maximum")?;
         Self::do_add_alias("mean", "avg")?;
         Self::do_add_alias("amean", "aavg")?;
-        Self::do_push_counter("chars", "Count the characters", |utf8, _p| {
-            Ok(Box::new(Chars::new(utf8)))
-        })?;
-        Self::do_push_counter("swords", "Count words, meaning non-space", |utf8, _p| {
-            Ok(Box::new(Swords::new(utf8)))
-        })?;
-        Self::do_push_counter("awords", "Count words, meaning alphanumeric", |utf8, _p| {
-            Ok(Box::new(Awords::new(utf8)))
-        })?;
         Self::do_push("asum", "Sum of the given counter", |p| {
             Ok(Rc::new(RefCell::new(ASum::new(p)?)))
         })?;
@@ -1352,6 +1343,24 @@ impl AggMaker {
         })?;
         Ok(())
     }
+    // separate from init(), because the agg mutex is held when make2() needs a counter
+    fn init_counters() -> Result<()> {
+        static INIT: Mutex<()> = Mutex::new(());
+        let _guard = INIT.lock().unwrap();
+        if !COUNTER_MAKER.lock().unwrap().is_empty() {
+            return Ok(());
+        }
+        Self::do_push_counter("chars", "Count the characters", |utf8, _p| {
+            Ok(Box::new(Chars::new(utf8)))
+        })?;
+        Self::do_push_counter("swords", "Count words, meaning non-space", |utf8, _p| {
+            Ok(Box::new(Swords::new(utf8)))
+        })?;
+        Self::do_push_counter("awords", "Count words, meaning alphanumeric", |utf8, _p| {
+            Ok(Box::new(Awords::new(utf8)))
+        })?;
+        Ok(())
+    }
     /// Add a new Agg. If an Agg already exists by that name, replace it.
     //    pub fn push<F: 'static>(tag: &'static str, help: &'static str, maker: F) -> Result<()>
     pub fn push<F>(tag: &'static str, help: &'static str, maker: F) -> Result<()>
@@ -1366,7 +1375,7 @@ impl AggMaker {
     where
         F: Fn(bool, &str) -> Result<Box<dyn Counter>> + Send + 'static,
     {
-        Self::init()?;
+        Self::init_counters()?;
         Self::do_push_counter(tag, help, maker)
     }
     /// Add a new alias. If an alias already exists by that name, replace it.
@@ -1459,6 +1468,7 @@ impl AggMaker {
             println!("{:12}{}", x.tag, x.help);
         }
         println!("Counters :");
+        Self::init_counters().unwrap();
         for x in &*COUNTER_MAKER.lock().unwrap() {
             println!("{:12}{}", x.tag, x.help);
         }
@@ -1505,9 +1515,7 @@ impl AggMaker {
     }
     /// Create a Agg from a name and a pattern
     pub fn make_counter2(spec: &str, pattern: &str) -> Result<Box<dyn Counter>> {
-        // we can't call init here, because mutex is already held by make2()
-        //        Self::init()?;
-        // we need to split the list of counters into a separate init
+        Self::init_counters()?;
         let mut name = "";
         let mut utf8 = false;
         if !spec.is_empty() {
-- 
2.43.0


From 870e863ce2664af66adb046801535a0723da68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 083/120] fix: tabs on a terminal of unknown size uses the
 default size

---
 src/tabs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..ea62af4 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -27,7 +27,11 @@ impl Rect {
             ws_xpixel: 0,
             ws_ypixel: 0,
         };
-        if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0 {
+        // a terminal may not know its size
+        if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0
+            && ws.ws_row > 0
+            && ws.ws_col > 0
+        {
             Self {
                 width: ws.ws_col as usize,
                 height: (ws.ws_row - 1) as usize,
-- 
2.43.0


From 29bd707042b701b85a4dc1a9fff6060bd297bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 084/120] fix: tabs shows lines with more columns than the
 first, or than fit the screen

---
 src/tabs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tabs.rs b/src/tabs.rs
index ea62af4..9a610a5 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -89,13 +89,16 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.push(0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
@@ -160,13 +163,16 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.push(0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
-- 
2.43.0


From 02291fcb86dc5ebf0372871db971f39f7e38f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 085/120] fix: tabs shows more files than there are lines on
 the screen

---
 src/bin/cdx/tabs_main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index ae42ba1..6d305fd 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -41,7 +41,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
-        let mut lines_left = base_rect.height - (2 * files.len()) + 1;
+        let mut lines_left = (base_rect.height + 1).saturating_sub(2 * files.len());
         let mut files_left = files.len();
         for x in &files {
             let mut v = Vec::new();
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &v {
                 println!("{}", x);
             }
-            lines_left -= v.len();
+            lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
                 println!("{:-<1$}", "", real);
-- 
2.43.0


From 0eee2dd90cc3481edce6654637082e4a6ad9f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:50 +0000
Subject: [PATCH 086/120] fix: the decimal generator prints no debugging text

---
 src/textgen.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index 31c08cb..ed7a1ca 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -50,15 +50,6 @@ impl DecimalGen {
                 }
             }
         }
-        eprintln!(
-            "{:?}",
-            Self {
-                sign,
-                pre,
-                post,
-                post_size
-            }
-        );
         Ok(Self {
             sign,
             pre,
-- 
2.43.0


From f9a30b3112f1ac431ddb48bb8c57550f19164bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:50 +0000
Subject: [PATCH 087/120] fix: a decimal pattern with too many digits is an
 error

---
 src/textgen.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index ed7a1ca..05acc00 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -28,6 +28,13 @@ struct DecimalGen {
     post_size: usize,
 }
 impl DecimalGen {
+    // ten to the number of digits
+    fn limit(digits: &str) -> Result<usize> {
+        match 10_usize.checked_pow(digits.len() as u32) {
+            Some(x) => Ok(x),
+            None => err!("Too many digits in decimal pattern '{}'", digits),
+        }
+    }
     // [-]NNN[.NNNN]
     fn new(spec: &str) -> Result<Self> {
         let mut sign = false;
@@ -42,11 +49,11 @@ impl DecimalGen {
             }
             if !spec.is_empty() {
                 if let Some((a, b)) = spec.split_once('.') {
-                    pre = 10_usize.pow(a.len() as u32);
+                    pre = Self::limit(a)?;
                     post_size = b.len();
-                    post = 10_usize.pow(post_size as u32);
+                    post = Self::limit(b)?;
                 } else {
-                    pre = 10_usize.pow(spec.len() as u32);
+                    pre = Self::limit(spec)?;
                 }
             }
         }
-- 
2.43.0


From 8bbc3d7b6120f788d148e394bb51a4a56bbbfdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:50 +0000
Subject: [PATCH 088/120] fix: an impossible normal distribution is an error

---
 src/textgen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index 05acc00..4ef281d 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -139,10 +139,10 @@ impl NormalDistGen {
                 }
             }
         }
-        Ok(Self {
-            fmt,
-            norm: Normal::new(mean, dev).unwrap(),
-        })
+        match Normal::new(mean, dev) {
+            Ok(norm) => Ok(Self { fmt, norm }),
+            Err(e) => err!("Invalid normal distribution '{}' : {}", spec, e),
+        }
     }
 }
 impl Gen for NormalDistGen {
-- 
2.43.0


From 30a107838cf1f0a8405a37723709bdff7c07f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:50 +0000
Subject: [PATCH 089/120] fix: counting does not overflow

---
 src/textgen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index 4ef281d..8a00bb8 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -183,7 +183,7 @@ impl CountGen {
 }
 impl Gen for CountGen {
     fn write(&mut self, w: &mut dyn Write, loc: &Where) -> Result<()> {
-        write!(w, "{}", loc.line as isize + self.start - 1)?;
+        write!(w, "{}", loc.line as i128 + self.start as i128 - 1)?;
         Ok(())
     }
 }
-- 
2.43.0


From 6cc15c4ca39826a74b59044aa2ed84a647d1a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:35 +0000
Subject: [PATCH 090/120] fix: what one tooltest leaves behind does not fail
 the next

---
 src/tooltest.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..e4b187b 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -253,8 +253,10 @@ impl Test {
     /// run the test
     pub fn run(&mut self, config: &Config) -> Result<bool> {
         let mut keep_files = false;
+        // a directory of its own, so that nothing is left for the next test
+        let own_tmp = TempDir::new_in(config.tmp.path())?;
         let mut tmp: String = if config.tmpdir.is_empty() {
-            config.tmp.path().to_owned().to_string_lossy().to_string()
+            own_tmp.path().to_owned().to_string_lossy().to_string()
         } else {
             keep_files = true;
             config.tmpdir.clone()
-- 
2.43.0


From 2e681888f5f4bcf8b408418e1bd04044ad0aed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:47 +0000
Subject: [PATCH 091/120] fix: the random ordering is consistent while it is
 used

---
 src/comp.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 06d4f3d..ace09f6 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1470,34 +1470,42 @@ impl LineCompList {
     }
 }
 
+/// Order by randomly seeded hash of value. A consistent order, because sorting needs one.
 #[derive(Default, Debug)]
-struct CompareRandom {}
+struct CompareRandom {
+    hasher: std::collections::hash_map::RandomState,
+    value: Vec<u8>,
+}
 impl CompareRandom {
     fn new() -> Self {
         Self::default()
     }
-    fn ord(&self) -> Ordering {
-        if fastrand::bool() {
-            Ordering::Less
-        } else {
-            Ordering::Greater
-        }
+    fn hash(&self, value: &[u8]) -> u64 {
+        use std::hash::BuildHasher;
+        self.hasher.hash_one(value)
     }
 }
 impl Compare for CompareRandom {
-    fn comp(&self, _left: &[u8], _right: &[u8]) -> Ordering {
-        self.ord()
+    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
+        self.hash(left)
+            .cmp(&self.hash(right))
+            .then_with(|| left.cmp(right))
     }
-    fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn equal(&self, left: &[u8], right: &[u8]) -> bool {
+        left == right
     }
-    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
-    fn set(&mut self, _value: &[u8]) {}
-    fn comp_self(&self, _right: &[u8]) -> Ordering {
-        self.ord()
+    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
+        item.cache = self.hash(value);
+        item.clear_complete();
     }
-    fn equal_self(&self, _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn set(&mut self, value: &[u8]) {
+        self.value = value.to_vec();
+    }
+    fn comp_self(&self, right: &[u8]) -> Ordering {
+        self.comp(&self.value, right)
+    }
+    fn equal_self(&self, right: &[u8]) -> bool {
+        self.value == right
     }
 }
 
-- 
2.43.0


From b6ba3e85f134907fac855ff45b66475a6a46fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:29 +0000
Subject: [PATCH 092/120] fix: merge aggregator with max_parts:0 writes no
 parts

---
 src/agg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index e796cc6..28f471b 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -820,15 +820,15 @@ impl Agg for Merge {
         } else {
             let mut num_written = 0;
             for x in &self.data.parts {
+                if num_written >= self.max_parts {
+                    break;
+                }
                 if x.len() >= self.min_len && x.len() <= self.max_len {
                     if num_written > 0 {
                         w.write_all(&[self.out_delim])?;
                     }
                     w.write_all(x.get(self.data.line()))?;
                     num_written += 1;
-                    if num_written >= self.max_parts {
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From 8e620338cc953336c38506b0fec5e9655e0a4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:29 +0000
Subject: [PATCH 093/120] fix: a LineAgger spec names the new column after its
 placement

---
 src/agg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 28f471b..ddee5b8 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -123,9 +123,9 @@ impl LineAgger {
             if a.eq_ignore_ascii_case("replace") {
                 Self::new_replace2(b, spec)
             } else if a.eq_ignore_ascii_case("prefix") || a.eq_ignore_ascii_case("prepend") {
-                Self::new_prefix2(spec, spec)
+                Self::new_prefix2(b, spec)
             } else if a.eq_ignore_ascii_case("suffix") || a.eq_ignore_ascii_case("append") {
-                Self::new_append2(spec, spec)
+                Self::new_append2(b, spec)
             } else {
                 err!("Unknown placement type '{}' in LineAgg spec '{}'", a, spec)
             }
-- 
2.43.0


From 8174a8cd10129aee79dc965bf4bca83cbc8234fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 094/120] fix: paste joins lines with the delimiter of the text
 mode

---
 src/bin/cdx/paste_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 2735a46..07dcda8 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -88,6 +88,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         curr_cols += f.header().len();
         fds.push(f);
     }
+    let delim = [settings.text_out().delim];
     let mut w = get_writer("-")?;
     header.check_rename()?;
     if do_header {
@@ -126,7 +127,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&delim)?;
             }
             need_delim = true;
             if f.is_done() {
@@ -136,7 +137,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&delim)?;
                         }
                         nd = true;
                         w.write_all(dflt.get(j).as_bytes())?;
-- 
2.43.0


From 70692412c2fb8eddfc55cfe4ff332ca04e6c6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 095/120] fix: transpose writes in the output text mode

---
 src/bin/cdx/transpose_main.rs |  8 +++++++-
 src/transpose.rs              | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/bin/cdx/transpose_main.rs b/src/bin/cdx/transpose_main.rs
index b753051..a97e711 100644
--- a/src/bin/cdx/transpose_main.rs
+++ b/src/bin/cdx/transpose_main.rs
@@ -22,6 +22,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             unreachable!();
         }
     }
-    cdx::transpose::transpose(&files[0], head, lines, &settings.text_in)?;
+    cdx::transpose::transpose(
+        &files[0],
+        head,
+        lines,
+        &settings.text_in,
+        &settings.text_out(),
+    )?;
     Ok(())
 }
diff --git a/src/transpose.rs b/src/transpose.rs
index f1ef405..2ab690b 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -3,7 +3,13 @@
 use crate::prelude::*;
 
 /// transpose
-pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode) -> Result<()> {
+pub fn transpose(
+    file: &str,
+    head: bool,
+    max_lines: usize,
+    text: &TextFileMode,
+    text_out: &TextFileMode,
+) -> Result<()> {
     let mut f = Reader::new(text);
     f.open(file)?;
     if f.is_empty() {
@@ -20,23 +26,24 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut w = get_writer("-")?;
     if head {
-        w.write_all(b" CDX\t")?;
+        w.write_all(b" CDX")?;
+        w.write_all(&[text_out.delim])?;
     }
     for i in 0..f.header().len() {
         let mut need_tab = if f.has_header() {
-            w.write_all(f.header()[i].as_bytes())?;
+            text_out.write(&mut *w, f.header()[i].as_bytes())?;
             true
         } else {
             false
         };
         for x in &data {
             if need_tab {
-                w.write_all(b"\t")?;
+                w.write_all(&[text_out.delim])?;
             }
             need_tab = true;
-            w.write_all(&x[i])?;
+            text_out.write(&mut *w, &x[i])?;
         }
-        w.write_all(b"\n")?;
+        w.write_all(&[text_out.line_break])?;
     }
     Ok(())
 }
-- 
2.43.0


From f163ebc1616b93f45cb32c0aa7a6b33b5aa977c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:58 +0000
Subject: [PATCH 096/120] fix: join reads and writes in the text mode

---
 src/bin/cdx/join_main.rs |  2 ++
 src/join.rs              | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/join_main.rs b/src/bin/cdx/join_main.rs
index c9a41b4..2ed0456 100644
--- a/src/bin/cdx/join_main.rs
+++ b/src/bin/cdx/join_main.rs
@@ -14,6 +14,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
 
     let mut config = JoinConfig::new();
     config.infiles = files;
+    config.text_in = settings.text_in;
+    config.out_delim = settings.text_out().delim;
     for x in args {
         if x.name == "key" {
             config.keys.push(x.value);
diff --git a/src/join.rs b/src/join.rs
index 117ec59..8a46f56 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -85,6 +85,8 @@ pub struct JoinConfig {
     pub col_specs: Vec<OutColSpec>,
     /// skip sortedness check, normally join fails if input file is not sorted
     pub skip_check: bool,
+    /// format of the input files
+    pub text_in: TextFileMode,
     /// output delimiter, default tab
     pub out_delim: u8,
     /// lookback limit for JoinType::Full. Default 100.
@@ -173,7 +175,7 @@ impl Joiner {
         }
 
         for x in &config.infiles {
-            self.r.push(Reader::new_open2(x)?);
+            self.r.push(Reader::new_open(x, &config.text_in)?);
         }
 
         for _x in 0..config.infiles.len() {
@@ -240,9 +242,15 @@ impl Joiner {
         }
 
         if self.r[0].has_header() {
-            self.yes_match.write_all(b" CDX")?;
+            let mut need_delim = config.text_in.head_mode.has_cdx();
+            if need_delim {
+                self.yes_match.write_all(b" CDX")?;
+            }
             for x in &self.out_cols {
-                self.yes_match.write_all(&[config.out_delim])?;
+                if need_delim {
+                    self.yes_match.write_all(&[config.out_delim])?;
+                }
+                need_delim = true;
                 x.write_head(&mut *self.yes_match, &self.r)?;
             }
             self.yes_match.0.write_all(&[b'\n'])?;
-- 
2.43.0


From ea3b9ddc6abaea9a9dd1fe65fc83dc884330edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 097/120] fix: wc --format applies to the default line count
 too

---
 src/bin/cdx/wc_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index fbabffb..25f243f 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -83,7 +83,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut totals = Vec::new();
     let do_totals;
     let show_file;
-    agg.fmt(fmt);
     if do_columns {
         if agg.is_empty() {
             agg.push("bytes,asum,chars")?;
@@ -171,6 +170,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if agg.is_empty() {
             agg.push("lines,count")?;
         }
+        agg.fmt(fmt);
         totals.resize(agg.len(), 0.0);
         show_file = match show_file_name {
             Tri::Yes => true,
-- 
2.43.0


From e3fe57e2d2513b73f70f846342c518aacb811c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 098/120] fix: a tool that could not write its output does not
 report success

---
 src/bin/cdx/binsearch_main.rs | 1 +
 src/bin/cdx/cat_main.rs       | 1 +
 src/bin/cdx/cgrep_main.rs     | 1 +
 src/bin/cdx/cut_main.rs       | 1 +
 src/bin/cdx/filegen_main.rs   | 1 +
 src/bin/cdx/paste_main.rs     | 1 +
 src/bin/cdx/sample_main.rs    | 1 +
 src/bin/cdx/sort_main.rs      | 1 +
 src/bin/cdx/uniq_main.rs      | 2 ++
 src/bin/cdx/wc_main.rs        | 1 +
 src/join.rs                   | 4 ++++
 src/sort.rs                   | 1 +
 src/tabs.rs                   | 1 +
 src/tooltest.rs               | 3 +++
 src/transpose.rs              | 1 +
 15 files changed, 21 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index da579ff..d2d6b46 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -180,5 +180,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 1c1932a..18f0d1c 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -209,5 +209,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(b"\n")?;
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..55048dd 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -71,5 +71,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..0d3dd4f 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -64,5 +64,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/filegen_main.rs b/src/bin/cdx/filegen_main.rs
index 4a74263..cc1834a 100644
--- a/src/bin/cdx/filegen_main.rs
+++ b/src/bin/cdx/filegen_main.rs
@@ -53,5 +53,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     for _i in 0..num_lines {
         list.write(&mut w.0, b'\t')?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 07dcda8..62b0a2f 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -153,5 +153,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 6f90660..bb2fe06 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -176,5 +176,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index 192b07d..56439da 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -81,6 +81,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             config.sort(&files, comp, &mut w.0, unique)?;
         }
+        w.flush()?;
     }
     Ok(())
 }
diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 624c10c..a32586e 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -233,6 +233,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         w.write_all(ch.get_head(&settings.text_out()).as_bytes())?;
     }
     if f.is_done() {
+        w.flush()?;
         return Ok(());
     }
 
@@ -296,5 +297,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 25f243f..fc50987 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -244,5 +244,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/join.rs b/src/join.rs
index 8a46f56..90b5d28 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -329,6 +329,10 @@ impl Joiner {
             }
             self.r[1].getline()?;
         }
+        self.yes_match.flush()?;
+        for x in self.no_match.iter_mut().flatten() {
+            x.flush()?;
+        }
         Ok(())
     }
 }
diff --git a/src/sort.rs b/src/sort.rs
index 0f86e47..3178835 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -489,6 +489,7 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
         let nsize = self.data.len() - self.data_calc;
diff --git a/src/tabs.rs b/src/tabs.rs
index 9a610a5..d03ff4f 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -134,6 +134,7 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
         do_center = false;
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
 
diff --git a/src/tooltest.rs b/src/tooltest.rs
index e4b187b..4ac7087 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -269,6 +269,7 @@ impl Test {
             fname.push_str(&x.name);
             let mut w = get_writer(&fname)?;
             w.write_all(&x.content)?;
+            w.flush()?;
         }
         let mut tmp_stdin = tmp.clone();
         tmp_stdin.push_str("stdin");
@@ -383,10 +384,12 @@ impl Test {
             fname.push_str("stdout");
             let mut w = get_writer(&fname)?;
             w.write_all(&output.stdout)?;
+            w.flush()?;
             fname.clone_from(&tmp);
             fname.push_str("stderr");
             w = get_writer(&fname)?;
             w.write_all(&output.stderr)?;
+            w.flush()?;
         }
         if failed {
             prerr(&[b"Test ", self.name.as_bytes(), b" failed ", &self.cmd]);
diff --git a/src/transpose.rs b/src/transpose.rs
index 2ab690b..119c0b5 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -45,5 +45,6 @@ pub fn transpose(
         }
         w.write_all(&[text_out.line_break])?;
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From bdb979374b40365bed8324016e2ba9be694cfa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 099/120] fix: tabs does not panic when its output cannot be
 written

---
 src/bin/cdx/tabs_main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index 6d305fd..8eb0d2c 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -2,13 +2,14 @@ use crate::prelude::*;
 use cdx::prelude::*;
 use cdx::tabs;
 
-fn print_centered(txt: &str, width: usize) {
+fn print_centered(w: &mut impl Write, txt: &str, width: usize) -> Result<()> {
     if txt.len() > width {
     } else {
         let left = (width - txt.len()) / 2;
         let right = width - txt.len() - left;
-        println!("{: <3$}{}{: <4$}", "", txt, "", left, right);
+        writeln!(w, "{: <3$}{}{: <4$}", "", txt, "", left, right)?;
     }
+    Ok(())
 }
 
 pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
@@ -28,6 +29,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     if end {
         eprintln!();
     }
+    let mut w = get_writer("-")?;
     if files.len() == 1 {
         let mut v = Vec::new();
         tabs::show2(
@@ -37,7 +39,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             &settings.text_in,
         )?;
         for x in v {
-            println!("{}", x);
+            writeln!(w, "{}", x)?;
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
@@ -47,16 +49,17 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let mut v = Vec::new();
             let r = tabs::Rect::new(base_rect.width, lines_left / files_left);
             let real = tabs::show2(x, &r, &mut v, &settings.text_in)?;
-            print_centered(x, real);
+            print_centered(&mut w.0, x, real)?;
             for x in &v {
-                println!("{}", x);
+                writeln!(w, "{}", x)?;
             }
             lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
-                println!("{:-<1$}", "", real);
+                writeln!(w, "{:-<1$}", "", real)?;
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From 511bcd041132c68178386c981fce93632749c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:20 +0000
Subject: [PATCH 100/120] fix: join refuses more than two files, rather than
 repeat the first line of the others

---
 src/join.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/join.rs b/src/join.rs
index 90b5d28..bdebfde 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -173,6 +173,12 @@ impl Joiner {
                 config.infiles.len()
             );
         }
+        if config.infiles.len() > 2 {
+            return err!(
+                "Only two input files supported, {} found",
+                config.infiles.len()
+            );
+        }
 
         for x in &config.infiles {
             self.r.push(Reader::new_open(x, &config.text_in)?);
-- 
2.43.0


From de03520b15a8cb3cf553037abd7f709ee2053211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:20 +0000
Subject: [PATCH 101/120] fix: sample --for with a huge step does not panic

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index bb2fe06..85cc15f 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -158,7 +158,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             while f.line_number() <= floop.to {
                 if f.line_number() == next {
                     w.write_all(f.curr_line().line())?;
-                    next += floop.by;
+                    next = next.saturating_add(floop.by);
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 508ce66854c767a38f3661545ecab5ba8322aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 102/120] fix: the least signed integer is read as itself

---
 src/text.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 868bd87..2263c50 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -634,7 +634,7 @@ impl Text for [u8] {
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
             ret = ret.saturating_mul(10);
-            ret = ret.saturating_add((curr[0] - b'0') as isize);
+            ret = ret.saturating_add(neg * (curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
@@ -643,7 +643,6 @@ impl Text for [u8] {
                 ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
-        ret *= neg;
         (ret, curr)
     }
     fn to_f64(&self) -> (f64, &Self) {
-- 
2.43.0


From 9b2edfee316d05019acd65df063b26c77db1893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 103/120] fix: column +0 is out of bounds

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index bfadba6..4d8d28d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -864,7 +864,7 @@ impl ColumnSet {
         if let Some(stripped) = colname.strip_prefix('+') {
             let n = stripped.to_usize_whole(colname.as_bytes(), "column")?;
             let len = fieldnames.len();
-            if n > len {
+            if n < 1 || n > len {
                 err!("Column {} out of bounds", colname)
             } else {
                 Ok(len - n)
-- 
2.43.0


From 04eebd1ef34b95b7c7a88cbe3360d5aa4e219255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:59 +0000
Subject: [PATCH 104/120] fix: transforms apply to a list of only excluded
 columns

---
 src/column.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 4d8d28d..81fff8d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -982,9 +982,12 @@ impl ColumnSet {
         }
 
         if self.pos.is_empty() {
+            let trans = self.neg.iter().find_map(|s| s.trans);
             for x in 0..fieldnames.len() {
                 if !no_cols.contains(&x) {
-                    self.columns.push(OutCol::from_num(x));
+                    let mut x = OutCol::from_num(x);
+                    x.trans = trans;
+                    self.columns.push(x);
                 }
             }
         } else {
-- 
2.43.0


From f36058b88b9b3910f132b35e1429b063e874c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 105/120] fix: join applies the transforms of its output
 columns

---
 src/column.rs |  2 +-
 src/join.rs   | 28 +++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 81fff8d..74cb431 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1086,7 +1086,7 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
+    pub(crate) fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
             self.trans[trans].trans(cols.get(col.num), cols)
diff --git a/src/join.rs b/src/join.rs
index bdebfde..3d1f90b 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -105,23 +105,32 @@ pub struct JoinConfig {
 struct OneOutCol {
     file: usize,
     col: OutCol,
+    // ColumnSet, and position therein
+    set: Option<(usize, usize)>,
 }
 
 impl OneOutCol {
-    fn new(file: usize, col: &OutCol) -> Self {
+    fn new(file: usize, col: &OutCol, set: (usize, usize)) -> Self {
         Self {
             file,
             col: col.clone(),
+            set: Some(set),
         }
     }
     const fn new_plain(file: usize, col: usize) -> Self {
         Self {
             file,
             col: OutCol::from_num(col),
+            set: None,
         }
     }
-    fn write(&self, mut w: impl Write, f: &[Reader]) -> Result<()> {
-        w.write_all(f[self.file].curr().get(self.col.num))?;
+    fn write(&self, mut w: impl Write, f: &[Reader], sets: &mut [ColumnSet]) -> Result<()> {
+        let line = f[self.file].curr();
+        if let Some((set, col)) = self.set {
+            w.write_all(sets[set].fetch(line, col)?)?;
+        } else {
+            w.write_all(line.get(self.col.num))?;
+        }
         Ok(())
     }
     fn write_head(&self, mut w: impl Write, f: &[Reader]) -> Result<()> {
@@ -154,6 +163,7 @@ struct Joiner {
     yes_match: Outfile,
     no_match: Vec<Option<Outfile>>,
     out_cols: Vec<OneOutCol>,
+    out_sets: Vec<ColumnSet>,
 }
 
 impl Joiner {
@@ -164,6 +174,7 @@ impl Joiner {
             yes_match: get_writer(&config.match_out)?,
             no_match: Vec::new(),
             out_cols: Vec::new(),
+            out_sets: Vec::new(),
         })
     }
     fn join(&mut self, config: &JoinConfig) -> Result<()> {
@@ -238,9 +249,11 @@ impl Joiner {
                     );
                 }
                 x.cols.lookup(&self.r[x.file].names())?;
-                for y in x.cols.get_cols() {
-                    self.out_cols.push(OneOutCol::new(x.file, y));
+                for (i, y) in x.cols.get_cols().iter().enumerate() {
+                    let set = (self.out_sets.len(), i);
+                    self.out_cols.push(OneOutCol::new(x.file, y, set));
                 }
+                self.out_sets.push(x.cols);
             }
         }
         if self.out_cols.is_empty() {
@@ -275,10 +288,11 @@ impl Joiner {
             'outer: loop {
                 match cmp {
                     Ordering::Equal => loop {
-                        self.out_cols[0].write(&mut *self.yes_match, &self.r)?;
+                        let sets = &mut self.out_sets;
+                        self.out_cols[0].write(&mut *self.yes_match, &self.r, sets)?;
                         for x in &self.out_cols[1..] {
                             self.yes_match.write_all(&[config.out_delim])?;
-                            x.write(&mut *self.yes_match, &self.r)?;
+                            x.write(&mut *self.yes_match, &self.r, sets)?;
                         }
                         self.yes_match.write_all(&[b'\n'])?;
                         if self.r[0].getline()? {
-- 
2.43.0


From 38c545fc7bef10931ac8d7c7091964111128892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 106/120] fix: join gives its output columns the names asked
 for

---
 src/join.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/join.rs b/src/join.rs
index 3d1f90b..d037b75 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -134,7 +134,11 @@ impl OneOutCol {
         Ok(())
     }
     fn write_head(&self, mut w: impl Write, f: &[Reader]) -> Result<()> {
-        w.write_all(f[self.file].header().get(self.col.num).as_bytes())?;
+        if self.col.name.is_empty() {
+            w.write_all(f[self.file].header().get(self.col.num).as_bytes())?;
+        } else {
+            w.write_all(self.col.name.as_bytes())?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From be5eb18d18b84f068b45f189a1928846281f58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:39 +0000
Subject: [PATCH 107/120] fix: wc: the last --total counts, also after --total
 only

---
 src/bin/cdx/wc_main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index fc50987..62ddf13 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -62,6 +62,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if x.value.eq_ignore_ascii_case("only") {
                 total_only = true;
             } else {
+                total_only = false;
                 show_totals = Tri::new(&x.value)?;
             }
         } else if x.name == "with-header" {
-- 
2.43.0


From bdd6b79fc6d31e6ed14c762148dfcdd0ec6d58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:39 +0000
Subject: [PATCH 108/120] fix: a repeated option that lacks its value is an
 error

---
 src/bin/cdx/args.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/args.rs b/src/bin/cdx/args.rs
index 143e3c9..9f88f08 100644
--- a/src/bin/cdx/args.rs
+++ b/src/bin/cdx/args.rs
@@ -124,7 +124,7 @@ pub fn add_arg<'t>(a: clap::Command<'t>, x: &ArgSpec, hide_help: bool) -> clap::
     b = b.hide_long_help(hide_help);
     a.arg(b)
 }
-pub fn get_arg(m: &clap::ArgMatches, x: &ArgSpec, v: &mut Vec<ArgValue>) {
+pub fn get_arg(m: &clap::ArgMatches, x: &ArgSpec, v: &mut Vec<ArgValue>) -> Result<()> {
     if x.value.is_empty() {
         if m.occurrences_of(x.name) > 0 {
             let ind = m.indices_of(x.name).unwrap().collect::<Vec<_>>();
@@ -135,10 +135,14 @@ pub fn get_arg(m: &clap::ArgMatches, x: &ArgSpec, v: &mut Vec<ArgValue>) {
     } else if let Some(arg) = m.values_of(x.name) {
         let ind = m.indices_of(x.name).unwrap().collect::<Vec<_>>();
         assert_eq!(ind.len(), arg.len());
+        if !x.positional && m.occurrences_of(x.name) != arg.len() as u64 {
+            return err!("The argument --{} requires a value", x.name);
+        }
         for (i, val) in arg.enumerate() {
             v.push(ArgValue::new(x.name, val, ind[i]));
         }
     }
+    Ok(())
 }
 
 pub fn parse(
@@ -177,12 +181,12 @@ pub fn parse(
     glob.handle_std_help(&m)?;
     let mut v: Vec<ArgValue> = Vec::new();
     for x in globals::global_args() {
-        get_arg(&m, x, &mut v);
+        get_arg(&m, x, &mut v)?;
     }
     glob.consume(&v)?;
     v.clear();
     for x in spec {
-        get_arg(&m, x, &mut v);
+        get_arg(&m, x, &mut v)?;
     }
     // values_of_os
     let mut files: Vec<String> = Vec::new();
-- 
2.43.0


From fef685d23f9caf3a6319390faa9c8d3db8948c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 109/120] fix: uniq keeps the columns it does not aggregate,
 whatever their names

---
 src/agg.rs    |  4 ++--
 src/column.rs | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index ddee5b8..3f95e46 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -668,14 +668,14 @@ impl LineAggList {
                 w.push(Box::new(x.clone()));
             }
         }
-        'outer: for (i, x) in head.iter().enumerate() {
+        'outer: for i in 0..head.len() {
             for y in &self.v {
                 if matches!(&y.out, AggType::Replace) && y.is_col(i) {
                     w.push(Box::new(y.clone()));
                     continue 'outer;
                 }
             }
-            w.push(Box::new(ColumnSingle::with_name(x).unwrap()));
+            w.push(Box::new(ColumnSingle::with_num(i)));
         }
         for x in &self.v {
             if let AggType::Append(_s) = &x.out {
diff --git a/src/column.rs b/src/column.rs
index 74cb431..9f6f5f7 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -608,6 +608,17 @@ impl ColumnSingle {
             new_name: String::new(),
         })
     }
+    /// new from zero-based column number
+    #[must_use]
+    pub fn with_num(num: usize) -> Self {
+        Self {
+            col: NamedCol {
+                num,
+                ..NamedCol::default()
+            },
+            new_name: String::new(),
+        }
+    }
 }
 
 impl ColumnFun for ColumnSingle {
-- 
2.43.0


From 5acfb66c2193ce210d2f33d9c7d889dc3969f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:23 +0000
Subject: [PATCH 110/120] fix: paste: a default for a column that does not
 exist is an error, not a panic

---
 src/column.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index 9f6f5f7..5656459 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -458,6 +458,9 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
+                if j >= fieldnames.len() {
+                    return err!("Column {} out of bounds", j + 1);
+                }
                 self.strings[j].clone_from(&x.value);
                 self.has_value[j] = true;
             }
-- 
2.43.0


From 72b4c2d19669ba0cfdc36e711d87caa79236a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:23 +0000
Subject: [PATCH 111/120] fix: ScopedValues: make_ints and make_floats no
 longer panic

---
 src/column.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 5656459..4905dd0 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -471,9 +471,10 @@ impl ScopedValues {
     pub fn make_ints(&mut self) -> Result<()> {
         self.ints.clear();
         for i in 0..self.strings.len() {
-            self.ints[i] = self
+            let val = self
                 .get(i)
                 .to_isize_whole(self.get(i).as_bytes(), "number")?;
+            self.ints.push(val);
         }
         Ok(())
     }
@@ -481,7 +482,8 @@ impl ScopedValues {
     pub fn make_floats(&mut self) -> Result<()> {
         self.floats.clear();
         for i in 0..self.strings.len() {
-            self.floats[i] = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            let val = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            self.floats.push(val);
         }
         Ok(())
     }
-- 
2.43.0


From 26f50f9bf0b3f3ecbf3ebe253b194404181f58e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:23 +0000
Subject: [PATCH 112/120] fix: ColumnSet::write does not panic if the first
 column does not exist

---
 src/column.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 4905dd0..d3c1b50 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1058,26 +1058,20 @@ impl ColumnSet {
         if !self.did_lookup {
             return cdx_err(CdxError::NeedLookup);
         }
-        let mut iter = self.columns.iter();
-        match iter.next() {
-            None => {}
-            Some(first) => {
-                w.write_all(cols[first.num].as_bytes())?;
-
-                for x in iter {
-                    w.write_all(delim.as_bytes())?;
-                    if x.num < cols.len() {
-                        w.write_all(cols[x.num].as_bytes())?;
-                    } else {
-                        return err!(
-                            "Line has only {} columns, but column {} was requested.",
-                            cols.len(),
-                            x.num + 1
-                        );
-                    }
-                }
+        for (i, x) in self.columns.iter().enumerate() {
+            if i > 0 {
+                w.write_all(delim.as_bytes())?;
             }
-        };
+            if x.num < cols.len() {
+                w.write_all(cols[x.num].as_bytes())?;
+            } else {
+                return err!(
+                    "Line has only {} columns, but column {} was requested.",
+                    cols.len(),
+                    x.num + 1
+                );
+            }
+        }
         w.write_all(&[b'\n'])?;
         Ok(())
     }
-- 
2.43.0


From b00f58695474c207de7cc4c1618a3664a50f2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:22 +0000
Subject: [PATCH 113/120] fix: binsearch --filename without a number of parts
 writes the whole file name, not nothing

---
 src/bin/cdx/binsearch_main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index d2d6b46..dcf90f8 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -173,7 +173,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
                 let end = find_end(m.data(), start);
-                w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                if file.tail == 0 {
+                    w.write_all(f.as_bytes())?;
+                } else {
+                    w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
+                }
                 w.write_all(&[b'\t'])?;
                 write_all_nl(&mut w.0, &m.data()[start..end])?;
                 start = end;
-- 
2.43.0


From 8d6af9b9f8f71a1be68d19d164ed5580afe71b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:22 +0000
Subject: [PATCH 114/120] fix: binsearch --filename without a column name no
 longer makes an empty one, which was then refused

---
 src/bin/cdx/binsearch_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index dcf90f8..f19b134 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -16,7 +16,8 @@ impl FileNameColumn {
     }
     fn set(&mut self, spec: &str) -> Result<()> {
         if spec.is_empty() {
-            *self = Self::default();
+            self.name = "filename".to_string();
+            self.tail = 0;
             return Ok(());
         }
         if spec.as_bytes().contains(&b':') {
@@ -24,7 +25,7 @@ impl FileNameColumn {
             self.name = name.to_string();
             self.tail = tail.to_usize_whole(spec.as_bytes(), "file path parts")?;
         } else if spec.as_bytes()[0].is_ascii_digit() {
-            self.name.clear();
+            self.name = "filename".to_string();
             self.tail = spec.to_usize_whole(spec.as_bytes(), "file path parts")?;
         } else {
             self.tail = 0;
-- 
2.43.0


From 38aefda37945b0ec5b54c266a18a46a77fc6f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:12 +0000
Subject: [PATCH 115/120] fix: a bracketed column in an expression is not taken
 for another column named c1, c2 etc

---
 src/expr.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 303472f..4781fc4 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -465,6 +465,11 @@ impl Expr {
     /// resolve named columns
     pub fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         let mut n = self.expr_str.clone();
+        // bracketed columns need a variable name that is not the name of a column
+        let mut tag = "c".to_string();
+        while fieldnames.iter().any(|x| x.starts_with(&tag)) {
+            tag.push('_');
+        }
         while let Some(pos) = n.find('[') {
             let len = find_close(&n[pos..])?;
             let mut s = ColumnSet::new();
@@ -473,10 +478,10 @@ impl Expr {
             let v = s.get_cols_num();
             let mut nval = String::new();
             if !v.is_empty() {
-                write!(nval, "c{}", v[0] + 1)?;
+                write!(nval, "{tag}{}", v[0] + 1)?;
             }
             for x in v.iter().skip(1) {
-                write!(nval, ",c{}", x + 1)?;
+                write!(nval, ",{tag}{}", x + 1)?;
             }
             n.replace_range(pos..pos + len, &nval);
         }
@@ -493,7 +498,8 @@ impl Expr {
             lazy_static! {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
-            if let Some(cn) = CN.captures(&y.name) {
+            let name = y.name.strip_prefix(&tag).map(|x| format!("c{x}"));
+            if let Some(cn) = CN.captures(name.as_ref().unwrap_or(&y.name)) {
                 let col = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
                 if col > 0 {
                     y.col = Some(col - 1);
-- 
2.43.0


From f251562c796b67768053790411a26ee11a122122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:03 +0000
Subject: [PATCH 116/120] fix: a Reader opened on a second file starts at its
 first line, with nothing left of the first file

---
 src/util.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9dbe92a..4283124 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1617,10 +1617,9 @@ impl Reader {
     }
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
-        self.file = get_reader(name)?;
-        self.cont
-            .read_header(&mut *self.file, &mut self.lines[0])?;
-        self.init_loc(name);
+        let mut fresh = Self::new_open_with(name, self.lines.len() - 1, &self.cont.text)?;
+        fresh.do_split = self.do_split;
+        *self = fresh;
         Ok(())
     }
     /// The full text of the header, without the trailing newline
-- 
2.43.0


From c97a92cab41d7883441c5b0b550ebb57d1a8e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:03 +0000
Subject: [PATCH 117/120] fix: TextLine::line_nl of a line that was never read
 is empty, and does not panic

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 4283124..62d2501 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -787,7 +787,7 @@ impl TextLine {
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
         let line = self.line();
-        &line[..line.len() - 1]
+        &line[..line.len().saturating_sub(1)]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
-- 
2.43.0


From dbab3a11208f22348a91b06605ce33a36211b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:50 +0000
Subject: [PATCH 118/120] fix: cgrep --location columns are separated by the
 delimiter of the output, like their names in the header

---
 src/bin/cdx/cgrep_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 55048dd..c53eaf5 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, settings.text_out().delim, f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
-- 
2.43.0


From cb2eb1a5c7f72547aa7bf9d9f9b96ec773097801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:43 +0000
Subject: [PATCH 119/120] fix: a name without columns in a field list, as in
 'a:', is an error and not a crash

---
 src/column.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index d3c1b50..b5572bf 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -886,7 +886,7 @@ impl ColumnSet {
                 Ok(len - n)
             }
         } else {
-            let ch = colname.first();
+            let ch = colname.chars().next().unwrap_or('0');
             if ch.is_ascii_digit() && ch != '0' {
                 let n = colname.to_usize_whole(colname.as_bytes(), "column")?;
                 if n < 1 {
@@ -929,13 +929,13 @@ impl ColumnSet {
     }
     /// turn range into list of column numbers
     fn range(fieldnames: &[&str], rng: &str) -> Result<Vec<OutCol>> {
-        if rng.is_empty() {
-            return err!("Empty Range {}", rng);
-        }
         let (name, range) = match rng.split_once(':') {
             None => ("", rng),
             Some(x) => x,
         };
+        if range.is_empty() {
+            return err!("Empty Range {}", rng);
+        }
 
         let ch = range.first();
         if ch == '(' {
-- 
2.43.0


From eeaa611c42a3a7bc9cab844d5d068041a3dfacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:43 +0000
Subject: [PATCH 120/120] fix: binsearch with a huge number of lines of context
 stops at the end of the file

---
 src/bin/cdx/binsearch_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index f19b134..d782898 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -166,6 +166,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             start = find_prev(m.data(), start);
         }
         for _x in 0..after {
+            if stop == m.data().len() {
+                break;
+            }
             stop = find_end(m.data(), stop);
         }
         if filename.is_none() {
-- 
2.43.0

