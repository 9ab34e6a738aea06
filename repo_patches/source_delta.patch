From 51b09d5e4e8a5e7957943000905822ade9db77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 01/13] fix: zero-length reads must succeed at the end of the
 input

An empty trailing field (e.g. a callchain with nr = 0 as the last field of
a sample) was reported as EOF when read from contiguous borrowed data.
---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..244d237 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // An empty slice is available even if the source has no data left.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
@@ -293,6 +298,10 @@ where
     }
 
     pub(crate) fn parse_array<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
+        if N == 0 {
+            return Ok([0u8; N]);
+        }
+
         let chunk = self.data.chunk()?;
 
         if chunk.len() < N {
-- 
2.43.0


From 707aac007054ed72b7a485a3169ea6fa6b3838d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 02/13] fix: swap the halves in the edge cases of split_at on
 owned data

Splitting an owned cow at 0 or at its length returned the two parts in
the wrong order, so e.g. a TEXT_POKE record without old bytes had old and
new bytes swapped when it was not parsed from borrowed data.
---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From 8b55b2ff7c5e86f8707aa6facbfdd81e20827bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 03/13] fix: a serialized perf_event_attr occupies exactly size
 bytes

The size includes both the type and the size fields but only one of them
was subtracted, so parsing needed and consumed 4 bytes too many.
---
 src/impls/perf_event_attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..107b454 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,9 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        let mut p = p.split_at(
+            attr.size as usize - mem::size_of_val(&attr.type_) - mem::size_of_val(&attr.size),
+        )?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From f3d069e807521a7390c7805b38c51191e8c26e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 04/13] fix: dispatch PERF_RECORD_SWITCH to visit_switch

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 244d237..b457a89 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -589,6 +589,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From 09aaa95adf629f5e95a19c66231580a8ac1056d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 05/13] fix: parse_rest at the end of the input yields an empty
 slice

Records with an empty body or an empty name were reported as EOF.
---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index b457a89..5c24254 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -398,7 +398,12 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            // There is nothing left.
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From 82a307b3e39f7fed30d83dbba694de9577841722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 06/13] fix: Namespaces::uts returned the user namespace

---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From 48ac19046c098db332bdf3ed83e520b1be51e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 07/13] fix: samples with no register ABI contain no registers

---
 src/records/sample.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..4dbfa01 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -355,10 +355,17 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi = p.parse()?;
+        // The kernel does not emit any registers if there is no ABI.
+        let count = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(count)? },
         })
     }
 }
-- 
2.43.0


From 2bb7279ad77922ef1fc2cac215b6bcb2a2b3a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 08/13] fix: parse the weight field when WEIGHT_STRUCT is set

The field was not consumed, which shifted all the fields after it.
---
 src/records/sample.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 4dbfa01..270c2cf 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,10 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight = p.parse_if(
+            // Both flags select the same 8-byte field.
+            sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT),
+        )?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From 376bc359a247db82fb0edc5bb74bfa204c4208f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 09/13] fix: the parser returned by parse_metadata knows the
 record's misc flags

Without them MMAP2 records with a build id and switch-out records were
misparsed when reading records via parse_metadata.
---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 5c24254..0eab3b3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -553,6 +553,11 @@ where
             }
         };
 
+        // Some records are parsed differently depending on the misc flags.
+        let p = Parser {
+            config: p.config.with_misc(header.misc),
+            data: p.data,
+        };
         let metadata = RecordMetadata::new(header, sample_id);
         Ok((p, metadata))
     }
-- 
2.43.0


From fb9860008bd0f594438fef650b2bb0ceffac056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 10/13] fix: print build ids as hexadecimal

The nibbles were in the wrong order and the digits above 9 were offset by
10, printing K..P instead of A..F.
---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From 376c096b8d7743d8146874c21e394c0c30c7b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 11/13] fix: separate the error category from its cause when
 displaying errors

The separator was only written for external errors, which have no
category text to separate the cause from.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From 4f2e614ccc62e3d31e814211d07bfa6638a7b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 12/13] fix: keep the remaining length of a record's body
 parser up to date

---
 src/parsebuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..ad655d1 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -234,7 +234,8 @@ unsafe impl<'p> ParseBuf<'p> for ParseBufCursor<'p> {
             .checked_add(count)
             .expect("advanced past the end of the buffer");
 
-        self.len
+        self.len = self
+            .len
             .checked_sub(count)
             .expect("advanced past the end of the buffer");
 
-- 
2.43.0


From e0734112bcd098af12228fe630f691f65fd503af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:09 +0000
Subject: [PATCH 13/13] fix: parse_slice of zero-sized values returns as many
 as were asked for

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 0eab3b3..ff807fa 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -462,6 +462,12 @@ where
             return Ok(None);
         }
 
+        // A slice of zero-sized values takes up no bytes but it still has a length.
+        if std::mem::size_of::<T>() == 0 {
+            let ptr = std::ptr::NonNull::<T>::dangling().as_ptr();
+            return Ok(Some(std::slice::from_raw_parts(ptr, len)));
+        }
+
         let byte_len = len.checked_mul(std::mem::size_of::<T>()).ok_or_else(|| {
             ParseError::custom(
                 ErrorKind::InvalidRecord,
-- 
2.43.0

