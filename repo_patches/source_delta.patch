From 9e50f33192d740aea63c3866f2f89496abb82779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:12 +0000
Subject: [PATCH 01/33] fix: accept an entry point in buffers of 256 bytes and
 more

The length of the buffer following the anchor was truncated to eight bits
before it was compared with the entry point length, so a valid entry point
was rejected with BadSize whenever that length modulo 256 was small.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..d21024f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From 9c427cc5c9d76d17a38676237019c739e1d06cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 02/33] fix: do not read or slice outside the buffer while
 walking the table

A buffer shorter than the table length of the entry point made the walk
read the structure header out of bounds or panic on a slice, and so did a
structure length smaller than the structure header. The table is now
bounded by the buffer, and a length below the header size is BadSize.
---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d21024f..4af606a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -522,15 +522,17 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        // The table never extends past the buffer it is read from
+        let smbios_len = (self.smbios_len as usize).min(self.buffer.len()) as u32;
+        if smbios_len.saturating_sub(self.idx) < mem::size_of::<HeaderPacked>() as u32 {
             return None;
         }
 
         let working = &self.buffer[(self.idx as usize)..];
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        let strings_idx: u32 = self.idx.saturating_add(header.len as u32);
+        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= smbios_len {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-- 
2.43.0


From 6ba064c3cbfd8dac90025b37aec6887f7082a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:16 +0000
Subject: [PATCH 03/33] fix: raw accessors no longer overflow on out-of-range
 offsets

RawStructure::get, get_slice and get_string panicked on an offset inside
the header or on one large enough to overflow.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4af606a..dcaca2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -644,14 +644,14 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
         // Ignore header
-        let start = offset - 4;
         let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, size).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        let start = offset.checked_sub(4)?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From 384f46ff93bfb973a6d1f94bfc711f77c180c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 04/33] fix: BIOS information no longer decodes bytes past the
 formatted section

The layout was chosen from the SMBIOS version alone, so a structure shorter than
that layout was decoded from the bytes following it, even past the buffer.
---
 src/structures/000_bios.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..54e03a0 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -3,6 +3,7 @@
 //! BIOS Information structure
 
 use core::fmt;
+use core::mem::size_of;
 
 use crate::bitfield::{BitField, FlagType, Layout};
 use crate::{MalformedStructureError, RawStructure};
@@ -126,7 +127,7 @@ impl<'buffer> Bios<'buffer> {
         }
 
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +156,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && structure.data.len() >= size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -185,6 +186,15 @@ impl<'buffer> Bios<'buffer> {
                 })
             }
             _ => {
+                lib_ensure!(
+                    structure.data.len() >= size_of::<BiosPacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x12,
+                    )
+                );
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
-- 
2.43.0


From b1cb4a6a7cc499cc27268532b7daca881bdef24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 05/33] fix: System information no longer decodes bytes past
 the formatted section

The layout was chosen from the SMBIOS version alone, so a structure shorter than
that layout was decoded from the bytes following it, even past the buffer.
---
 src/structures/001_system.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..11d2928 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -5,6 +5,8 @@
 //! associated with a single system instance and contains one and only one System Information
 //! (Type 1) structure.
 
+use core::mem::size_of;
+
 use crate::{MalformedStructureError, RawStructure};
 
 /// The wakeup type defined in the SMBIOS specification.
@@ -107,7 +109,17 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        lib_ensure!(
+            structure.data.len() >= size_of::<SystemPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x08,
+            )
+        );
+
+        if structure.version < (2, 1).into() || structure.data.len() < size_of::<SystemPacked2_1>() {
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +133,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || structure.data.len() < size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
-- 
2.43.0


From b1c63cf16a602d6c5d2b10819161063bd754f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 06/33] fix: Baseboard information no longer decodes bytes past
 the formatted section

The whole layout was read regardless of the length of the structure, and a
chassis handle cut in half by the structure end was still reported.
---
 src/structures/002_baseboard.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..24aa5dc 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -117,7 +117,20 @@ impl<'buffer> BaseBoard<'buffer> {
             board_type: u8,
         }
 
-        let_as_struct!(packed, BaseBoardPacked, structure.data);
+        // Fields past the serial number are optional
+        lib_ensure!(
+            structure.data.len() >= 4,
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x08,
+            )
+        );
+        let mut data = [0u8; core::mem::size_of::<BaseBoardPacked>()];
+        let present = structure.data.len().min(data.len());
+        data[..present].copy_from_slice(&structure.data[..present]);
+        let_as_struct!(packed, BaseBoardPacked, data);
 
         let asset = if structure.data.len() > 4 {
             Some(structure.find_string(packed.asset)?)
@@ -134,7 +147,7 @@ impl<'buffer> BaseBoard<'buffer> {
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
+        let chassis_handle = if structure.data.len() > 8 {
             Some(packed.chassis_handle)
         } else {
             None
-- 
2.43.0


From 74905080a03b92f2ebc56018e7d0078d12032c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 07/33] fix: Processor information no longer decodes bytes past
 the formatted section

The layout was chosen from the SMBIOS version alone, so a structure shorter than
that layout was decoded from the bytes following it, even past the buffer.
---
 src/structures/004_processor.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..52266dc 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -7,6 +7,7 @@
 //! describe the 80487 co1021 processor.
 
 use core::fmt;
+use core::mem::size_of;
 
 use bitflags::bitflags;
 
@@ -615,7 +616,18 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        lib_ensure!(
+            structure.data.len() >= size_of::<ProcessorPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x1A,
+            )
+        );
+
+        let length = structure.data.len();
+        if structure.version < (2, 1).into() || length < size_of::<ProcessorPacked2_1>() {
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +655,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || length < size_of::<ProcessorPacked2_3>() {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +683,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || length < size_of::<ProcessorPacked2_5>() {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +711,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || length < size_of::<ProcessorPacked2_6>() {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +739,7 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || length < size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
-- 
2.43.0


From fe6ce8f3da18f585ea4cd1ff11cde972ad5eed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 08/33] fix: Cache information is decoded by version and
 length, also for 2.0, 2.1 and 3.1

Tables of version 2.0 or older panicked (unreachable), 2.1 and 3.1 were decoded
with the layout of the preceding version, and structures shorter than the layout
were decoded from the bytes following them, even past the buffer.
---
 src/structures/007_cache.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..b827bfa 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -6,6 +6,7 @@
 //! depending on the SMBIOS version.
 
 use core::fmt;
+use core::mem::size_of;
 
 use bitflags::bitflags;
 
@@ -212,7 +213,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +231,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v >= (2, 1).into() && structure.data.len() >= size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -248,7 +249,16 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
+                lib_ensure!(
+                    structure.data.len() >= size_of::<CachePacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x0F,
+                    )
+                );
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -266,7 +276,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From a3887969bce60d2235108a8b225836b00c9bdd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 09/33] fix: Port connector information no longer decodes bytes
 past the formatted section

A structure shorter than the layout was decoded from the bytes following it.
---
 src/structures/008_port_connector.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..c31aefb 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,15 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<PortConnectorPacked>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x09,
+            )
+        );
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
-- 
2.43.0


From 5e37422879900f16db51694092671b4bf2ae8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 10/33] fix: BIOS language information no longer decodes bytes
 past the formatted section

A structure shorter than the layout was decoded from the bytes following it.
---
 src/structures/013_bios_language.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..3acd8f3 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -2,6 +2,8 @@
 //!
 //! The information in this structure defines the installable language attributes of the BIOS.
 
+use core::mem::size_of;
+
 use crate::bitfield::{BitField, FlagType, Layout};
 use crate::{MalformedStructureError, RawStructure};
 
@@ -50,6 +52,15 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                lib_ensure!(
+                    structure.data.len() >= size_of::<BiosLanguagePacked2_1>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x16,
+                    )
+                );
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +70,15 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                lib_ensure!(
+                    structure.data.len() >= size_of::<BiosLanguagePacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x15,
+                    )
+                );
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From 9b1f11f8c4aab2b55905725ec3a05cea9ffb06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 11/33] fix: let_as_struct never reads past the end of its
 slice

A slice shorter than the structure was undefined behaviour, reachable through
the public From<&[u8]> conversions of contained elements and peer devices.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index dcaca2d..89495c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,6 +71,7 @@ use core::str;
 macro_rules! let_as_struct {
     ($name:ident, $ty:ty, $data:expr) => {
         use core::ptr;
+        assert!($data.len() >= core::mem::size_of::<$ty>());
         let $name: $ty = unsafe { ptr::read($data.as_ptr() as *const _) };
     };
 }
-- 
2.43.0


From 3ffeb337516239f4de8f31cdaa69486f9968e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:20 +0000
Subject: [PATCH 12/33] fix: ROM size of 16 MB or more without an extended size
 no longer panics

Before SMBIOS 3.1 there is no extended size to look at, but the conversion of
such a size to bytes ran into unreachable!().
---
 src/structures/000_bios.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 54e03a0..1eeda5b 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -338,7 +338,8 @@ impl From<RomSize> for u64 {
                 _ => unimplemented!(),
             }
         } else {
-            unreachable!();
+            // The field is not extended: 16 MB or greater
+            256 * (64 << 10)
         }
     }
 }
-- 
2.43.0


From 1af47875ca6ce120948a864a8a3e9be65bae7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:22 +0000
Subject: [PATCH 13/33] fix: contained elements of a chassis are not limited to
 255 bytes

The size of the records was computed in eight bits, which panicked or lost
records and shifted the SKU number, and records shorter than an element were
read past their end.
---
 src/structures/003_enclosure.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..f61fdb5 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -413,7 +413,8 @@ impl<'buffer> ContainedElements<'buffer> {
         let count: u8 = read_bytes(data)?;
         let record_length: u8 = read_bytes(data)?;
 
-        if count == 0 || record_length == 0 {
+        let length = count as usize * record_length as usize;
+        if length == 0 {
             return Some(Self {
                 chunks: [].chunks(usize::MAX),
                 count,
@@ -421,9 +422,12 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
-        let chunks = data.get(0..length)?.chunks(record_length as usize);
+        let mut chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
+        if (record_length as usize) < 3 {
+            // A record of this length does not hold an element
+            chunks = [].chunks(usize::MAX);
+        }
         Some(Self {
             chunks,
             count,
-- 
2.43.0


From e74ab508b04bb3c7984be56885b85c6203738fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:24 +0000
Subject: [PATCH 14/33] fix: report processor characteristics of SMBIOS 2.5
 tables

The field is part of the 2.5 layout, but it was decoded and dropped.
---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 52266dc..4912890 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -737,7 +737,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || length < size_of::<ProcessorPacked3_0>() {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
-- 
2.43.0


From f234d6093ff4ba1ffec70dd02eeb77101bc6339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:26 +0000
Subject: [PATCH 15/33] fix: decode U.2 slot types

The codes of PCI Express SFF-8639 (U.2) slots were reported as plain PCI
Express slots, and the U.2 variants were never produced.
---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..1179102 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 4a84d7705e3645076278f15e7cace2df910b0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:28 +0000
Subject: [PATCH 16/33] fix: slot pitch is in units of 1/100 mm

The text was ten times too large: 1250 is 12.5 mm.
---
 src/structures/009_system_slots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 1179102..56b9e98 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -877,7 +877,7 @@ impl fmt::Display for SlotPitch {
         if self.0 == 0 {
             write!(f, "Not given or is unknown")
         } else {
-            write!(f, "{:.1} mm", (self.0 as f32) / 10.0)
+            write!(f, "{:.2} mm", (self.0 as f32) / 100.0)
         }
     }
 }
-- 
2.43.0


From 6cb96bba1d1fbe38181f2b8c7041dc23add1a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:30 +0000
Subject: [PATCH 17/33] fix: iterating installable languages no longer
 overflows

The one-based string number overflowed after the 255th language, or after
polling an exhausted iterator often enough.
---
 src/structures/013_bios_language.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 3acd8f3..afaa650 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -100,9 +100,13 @@ impl<'a> InstallableLanguages<'a> {
 impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index;
-        self.index += 1;
-        self.structure.find_string(index).ok()
+        // Zero is not a string number: the last one (255) has been returned
+        if self.index == 0 {
+            return None;
+        }
+        let language = self.structure.find_string(self.index).ok()?;
+        self.index = self.index.wrapping_add(1);
+        Some(language)
     }
 }
 
-- 
2.43.0


From 8a1c74faccf20b649a384785d8bc880fd171cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 18/33] fix: group associations without a group name no longer
 panic

A structure of header length only underflowed the size of its items.
---
 src/structures/014_group_associations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..56c6cc3 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -43,7 +43,7 @@ impl<'a> GroupAssociations<'a> {
         let handle = structure.handle;
         let slice =
             structure
-                .get_slice(0x05, structure.length as usize - 0x05)
+                .get_slice(0x05, (structure.length as usize).saturating_sub(0x05))
                 .ok_or(InvalidFormattedSectionLength(
                     InfoType::GroupAssociations,
                     handle,
-- 
2.43.0


From e3dfeb84f32197ab715f1fa290fdef000dad852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:33 +0000
Subject: [PATCH 19/33] fix: event log with descriptors of zero length no
 longer panics

---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..b9dc993 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // There is no data if the descriptors are of zero size
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From b12687e712c4753292d6fdeba5d28c90fbea2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:35 +0000
Subject: [PATCH 20/33] fix: physical memory array of SMBIOS 2.1 and 2.7, and
 of short structures

The fields of a table were only decoded from the version following the one that
introduced them, and a structure shorter than its fields panicked.
---
 src/structures/016_physical_memory_array.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..12ba427 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -198,19 +198,19 @@ impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
         let mut pma = PhysicalMemoryArray::default();
         let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
+        pma.handle = structure.handle;
+        if structure.version >= (2, 1).into() {
+            pma.location = MemoryArrayLocation::from(structure.get::<u8>(0x04)?);
             mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
+            pma.r#use = MemoryArrayUse::from(structure.get::<u8>(0x05)?);
             mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
+            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.get::<u8>(0x06)?);
             mem_pointer += 1;
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
                 get_optional_qword(&mut mem_pointer, structure.data, 0)?
             } else {
@@ -250,7 +250,8 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
 
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -260,7 +261,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -270,7 +272,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From 38d4b3353ad44a9d3264b8957f3ea6d7cd6e2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:59 +0000
Subject: [PATCH 21/33] fix: memory device form factor codes start at one

Every form factor below DIMM was reported as its successor.
---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From 8831ac92fa044ea5c570158c7e454afb8f166cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:01 +0000
Subject: [PATCH 22/33] fix: decode memory devices of SMBIOS 2.1, 2.3 and 2.6

A structure of the 2.1 length passed the check for the minimum length and then
failed on the fields later versions have added.
---
 src/structures/017_memory_device.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 1774b77..422a2d1 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -389,6 +389,11 @@ impl<'a> MemoryDevice<'a> {
             ));
         }
 
+        let optional_string = |offset| match structure.get::<u8>(offset) {
+            Ok(index) => structure.find_string(index),
+            Err(_) => Ok(""),
+        };
+
         Ok(MemoryDevice {
             handle,
             physical_memory_handle: structure.get::<u16>(0x04)?,
@@ -403,12 +408,12 @@ impl<'a> MemoryDevice<'a> {
             memory_type: structure.get::<u8>(0x12)?.into(),
             type_detail: Detail::from_bits_truncate(structure.get::<u16>(0x13)?),
             speed: structure.get::<u16>(0x15).ok().filter(|v| v != &0x0000),
-            manufacturer: structure.get_string(0x17)?,
-            serial: structure.get_string(0x18)?,
-            asset_tag: structure.get_string(0x19)?,
-            part_number: structure.get_string(0x1A)?,
-            attributes: structure.get::<u8>(0x1B)?,
-            extended_size: structure.get::<u32>(0x1C)?,
+            manufacturer: optional_string(0x17)?,
+            serial: optional_string(0x18)?,
+            asset_tag: optional_string(0x19)?,
+            part_number: optional_string(0x1A)?,
+            attributes: structure.get::<u8>(0x1B).unwrap_or_default(),
+            extended_size: structure.get::<u32>(0x1C).unwrap_or_default(),
             configured_memory_speed: structure.get::<u16>(0x20).ok().filter(|v| v != &0x0000),
             minimum_voltage: structure.get::<u16>(0x22).ok().filter(|v| v != &0x0000),
             maximum_voltage: structure.get::<u16>(0x24).ok().filter(|v| v != &0x0000),
-- 
2.43.0


From aa60de6e64adf77cec862f52c3529c94ef9f5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:03 +0000
Subject: [PATCH 23/33] fix: battery design capacity of 65536 mWh and more no
 longer overflows

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From b3d27ffffca62cdf58b2829b0b377aec7fc71f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:05 +0000
Subject: [PATCH 24/33] fix: iterating a bit field never indexes out of its
 layout

A layout shorter than the value, which includes the default one, panicked, and
so did an iterator created with an index past the value.
---
 src/bitfield.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..092a90f 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -179,7 +179,7 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
     type Item = Flag<'a>;
     fn next(&mut self) -> Option<Self::Item> {
         let len = core::mem::size_of::<T>() * 8;
-        if self.index == len {
+        if self.index >= len {
             None
         } else {
             let is_set = (self.value.into() & (1 << self.index)) != 0;
@@ -188,7 +188,7 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
             Some(Flag {
                 position: Position(p),
                 is_set,
-                type_: self.layout[p],
+                type_: self.layout.get(p).copied().unwrap_or_default(),
             })
         }
     }
-- 
2.43.0


From 7f3bf28e0a02a88981cd4c6e039bc27bbd798bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:07 +0000
Subject: [PATCH 25/33] fix: range of a single reserved bit that follows
 another reserved range

Such a range ended at zero instead of its start.
---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 092a90f..94ee305 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,7 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From c8a078164335b21243bf72302a0e771c8cb0a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:09 +0000
Subject: [PATCH 26/33] fix: report the first BIOS characteristics extension
 byte of 2.1 to 2.3 tables

The byte is defined for version 2.1 and later, but was only decoded from 2.4 on.
---
 src/structures/000_bios.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 1eeda5b..a92150f 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -207,7 +207,11 @@ impl<'buffer> Bios<'buffer> {
                         extended: None,
                     },
                     bios_characteristics: Characteristics(packed.bios_characteristics),
-                    bios_characteristics_exttension_1: None,
+                    bios_characteristics_exttension_1: structure
+                        .get::<u8>(0x12)
+                        .ok()
+                        .filter(|_| structure.version >= (2, 1).into())
+                        .map(CharacteristicsExtension1),
                     bios_characteristics_exttension_2: None,
                     bios_revision: None,
                     firmware_revision: None,
-- 
2.43.0


From 95bbfabd96d0b72e985099b1704e59b6ce30be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 27/33] fix: codes of the PC-98 and CXL memory array locations

They are A0h to A4h in the specification (7.17.1), not 0Bh to 0Fh.
---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 12ba427..9187df3 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -42,11 +42,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From a9037d902365516dd3aa2dea1796c55b4b112ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:41 +0000
Subject: [PATCH 28/33] fix: event log type descriptors longer than two bytes
 are no longer dropped

---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index b9dc993..8d1874b 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -376,7 +376,8 @@ impl Iterator for SupportedEventLogTypeDescriptors<'_> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let next = self.0.next()?;
-        next.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
+        // A descriptor may be longer than the two bytes that are defined
+        next.get(..2)?.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
             log_type: a[0].into(),
             variable_data_format_type: a[1].into(),
         })
-- 
2.43.0


From 6e91081bff1e6dfd325f8de4320c12b8cbe57960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:43 +0000
Subject: [PATCH 29/33] fix: minimum length named for a short enclosure
 includes its header

---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index f61fdb5..66e6289 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -197,7 +197,7 @@ impl<'buffer> Enclosure<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<EnclosurePacked2_0>() as u8,
+                (core::mem::size_of::<EnclosurePacked2_0>() + core::mem::size_of::<HeaderPacked>()) as u8,
             ));
         }
 
-- 
2.43.0


From 91a7a3d1d3e61c1626ef357ebc96848dccf81b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:43 +0000
Subject: [PATCH 30/33] fix: missing space in the length error of memory
 devices

---
 src/structures/017_memory_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 422a2d1..460edee 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -384,7 +384,7 @@ impl<'a> MemoryDevice<'a> {
             return Err(InvalidFormattedSectionLength(
                 InfoType::MemoryDevice,
                 handle,
-                "at least",
+                "at least ",
                 0x15,
             ));
         }
-- 
2.43.0


From c866f03a60fce2cf00fe8b5cabfa00a8c2ad4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:43 +0000
Subject: [PATCH 31/33] fix: length error of group associations names the
 minimum length

---
 src/structures/014_group_associations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index 56c6cc3..8306451 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -47,8 +47,8 @@ impl<'a> GroupAssociations<'a> {
                 .ok_or(InvalidFormattedSectionLength(
                     InfoType::GroupAssociations,
                     handle,
-                    "",
-                    structure.length,
+                    "minimum of ",
+                    0x05,
                 ))?;
         Ok(GroupAssociations {
             handle,
-- 
2.43.0


From 3f37aed64b2a5fc586430528749b50ae218f2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:43 +0000
Subject: [PATCH 32/33] fix: length error of short event logs names the minimum
 length

---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 8d1874b..adc473c 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -181,7 +181,7 @@ impl<'a> SystemEventLog<'a> {
                         InfoType::SystemEventLog,
                         handle,
                         "minimum of ",
-                        0,
+                        0x17,
                     ))
                 }
             }
-- 
2.43.0


From 083e8140290f5a8f98be1464ed87e14f2635ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:17 +0000
Subject: [PATCH 33/33] fix: a string behind one that is not UTF-8 is found by
 its reference

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 89495c6..cbdbfbd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -627,8 +627,11 @@ impl<'buffer> RawStructure<'buffer> {
         if idx == 0 {
             Ok("")
         } else {
-            self.strings()
+            self.strings
+                .split(|elm| *elm == 0)
+                .take_while(|slice| !slice.is_empty())
                 .nth((idx - 1) as usize)
+                .and_then(|slice| str::from_utf8(slice).ok())
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
-- 
2.43.0

