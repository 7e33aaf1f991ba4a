From d2d4ce2f9a0d22f36db02a12dab13177ed101cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 01/16] fix: write the record length when serializing a REL
 directory entry

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..0252f93 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From 47f2c7b727ee02561719935ddef2c1fff49ff6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 02/16] fix: serialize the GEOS info description into its own
 field

---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From 678fe3fb2c8df89e4964728744bfddfc6a2d76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 03/16] fix: do not return the same bytes again from
 GEOSReader::read

---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From 126e101d4a6c66facafda2b66f6bfacfd0f9b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 04/16] fix: do not treat the link of a VLIR index block as a
 record

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..89ccbc6 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,8 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            // The first two bytes are the block's link, and not an index entry.
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From f42dca46b7b110cd4974ce1249f2b219139e2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 05/16] fix: reject REL files with a zero record length or a
 truncated side sector

---
 src/disk/file.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..91678a1 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -341,6 +341,11 @@ impl RelativeFile {
             _ => return Err(DiskError::InvalidRelativeFile.into()),
         };
 
+        // A record length of zero would make it impossible to count the records.
+        if record_size == 0 {
+            return Err(DiskError::InvalidRelativeFile.into());
+        }
+
         // Find side sectors.  Side sector locations are stored redundantly -- once as
         // a linked chain of sectors, and also as a list within each side
         // sector.  I'm not sure how the CBM drives approach this redundancy,
@@ -354,16 +359,6 @@ impl RelativeFile {
             let sector = sector?;
             side_sectors.push(sector.location);
 
-            // Process the list of side sectors which is contained within each side sector.
-            let list_bytes = &sector.data
-                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
-            let list: Vec<Location> = list_bytes
-                .chunks(2)
-                .map(|c| Location::new(c[0], c[1]))
-                .filter(|l| l.0 != 0)
-                .collect();
-            side_sector_lists.push(list);
-
             // How many bytes are used in this side sector?
             let size = match ChainLink::new(&sector.data)? {
                 ChainLink::Next(_) => BLOCK_SIZE,
@@ -374,6 +369,16 @@ impl RelativeFile {
                 return Err(DiskError::InvalidRelativeFile.into());
             }
 
+            // Process the list of side sectors which is contained within each side sector.
+            let list_bytes = &sector.data
+                [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
+            let list: Vec<Location> = list_bytes
+                .chunks(2)
+                .map(|c| Location::new(c[0], c[1]))
+                .filter(|l| l.0 != 0)
+                .collect();
+            side_sector_lists.push(list);
+
             // Extract the data locations contained in this side sector.
             let mut sectors: Vec<Location> = sector.data[SIDE_SECTOR_DATA_OFFSET..size]
                 .chunks(2)
-- 
2.43.0


From adb2cd3c2ffdaa2d94112bfcd98c705e413e5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 06/16] fix: ignore a partial entry at the end of a directory
 sector when searching a free slot

---
 src/disk/directory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0252f93..868e528 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -717,7 +717,7 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From e1c1efc8a7fe0b7b18ddf47b989257ddbfdcd1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 07/16] fix: detect chain loops when opening a file for writing

---
 src/disk/chain.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..8cb210c 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -218,9 +218,15 @@ impl ChainWriter {
         {
             let blocks = blocks.borrow();
 
+            let mut visited_sectors = HashSet::new();
             let mut block = blocks.sector(start)?;
             tail_location = start;
+            visited_sectors.insert(start);
             while let ChainLink::Next(location) = ChainLink::new(block)? {
+                // Loop detection.
+                if !visited_sectors.insert(location) {
+                    return Err(DiskError::ChainLoop.into());
+                }
                 block = blocks.sector(location)?;
                 tail_location = location;
             }
-- 
2.43.0


From ca8fc0f7f3847f80bfdc1e5993eace2383e17f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 08/16] fix: reset the scheme along with the extra bytes of a
 directory entry

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 868e528..230e940 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -458,6 +458,7 @@ impl DirectoryEntry {
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
         self.file_size = 0;
+        self.scheme = Scheme::Linear;
         // The position field must be left untouched.
     }
 
-- 
2.43.0


From eb893b6c8ec57f42ef3ae56ef536052a97379996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 09/16] fix: return InvalidLocation for tracks and sectors
 which the BAM does not cover

---
 src/disk/bam.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..68b1690 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -275,22 +275,43 @@ impl Bam {
 
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
+        self.check_track(track)?;
         Ok(&self.entries[(track - 1) as usize])
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
+        self.check_track(track)?;
         Ok(&mut self.entries[(track - 1) as usize])
     }
 
+    /// Confirm that this BAM has an entry for the specified track.
+    fn check_track(&self, track: u8) -> io::Result<()> {
+        if track < 1 || track as usize > self.entries.len() {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
+    /// Confirm that the specified sector is represented in this BAM.
+    pub fn check_location(&self, location: Location) -> io::Result<()> {
+        self.check_track(location.0)?;
+        if location.1 >= self.format.sectors_in_track(location.0) {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From d41acc988ba92057eb0d297134b9c64a0be3d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 10/16] fix: reject an overlong disk name before wiping the
 disk

---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..f334f5d 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Validate the disk name before anything is overwritten.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 742bd6aa24017bebf8542c405856d066622f435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 11/16] fix: do not overflow the block count of a directory
 entry

---
 src/disk/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 8cb210c..b89c5f2 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -246,7 +246,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From 8d21eaecd6773452249b1a78667ab834b49424af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 12/16] fix: open the disk image writable for cdisk append

---
 src/bin/cdisk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..c9c2bdf 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -319,7 +319,9 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    let file = disk.open_file(&filename.into())?;
+    Ok(Box::new(file.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From 1ab539f6aea5029ddb1720f877bf881e3c88e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:20 +0000
Subject: [PATCH 13/16] fix: write the BAM to the image when creating a file or
 extending the directory

---
 src/disk/directory.rs | 3 +++
 src/disk/mod.rs       | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 230e940..0f3ad10 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -783,6 +783,9 @@ where
         block[1] = new_sector.1;
     }
 
+    // Write the updated BAM
+    bam.borrow_mut().flush()?;
+
     // Return the new entry
     Ok(new_entry)
 }
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index f334f5d..a17cf3c 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -471,6 +471,11 @@ pub trait Disk {
             }
         }
 
+        // Write the updated BAM, so the disk image is consistent even if the caller
+        // never opens a writer.
+        drop(blocks);
+        bam.flush()?;
+
         // Return the file handle
         Ok(File::Linear(LinearFile::new(
             self.blocks(),
-- 
2.43.0


From 30ebe0f4c05b97a37ef53398735346c94e565785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:20 +0000
Subject: [PATCH 14/16] fix: do not leak a sector when creating a file on a
 read-only image

---
 src/disk/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index a17cf3c..829ec45 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -432,6 +432,9 @@ pub trait Disk {
         directory::check_filename_validity(filename)?;
         self.check_filename_availability(filename)?;
 
+        // Fail before touching the BAM if the image cannot be written.
+        self.blocks_ref().check_writability()?;
+
         // Find the next available directory slot
         let mut entry = self.next_free_directory_entry()?;
 
-- 
2.43.0


From 21ec46fb836840d2a96aa80ab0915e29a3b0b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:20 +0000
Subject: [PATCH 15/16] fix: free all of the sectors of a deleted file, or
 none, and write the BAM

---
 src/disk/chain.rs     | 18 +++++++++++++-----
 src/disk/file.rs      | 16 +++++-----------
 src/disk/geos/file.rs | 22 ++++------------------
 3 files changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index b89c5f2..bcc8cfc 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -372,14 +372,22 @@ impl io::Write for ChainWriter {
 pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
     // Read the whole chain first to be sure we can visit every block with no
     // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+    let locations = ChainIterator::new(blocks.clone(), start).locations()?;
 
     // Deallocate
+    free_sectors(blocks, bam, &locations)
+}
+
+/// Deallocate the provided sectors, and write the updated BAM.  If this cannot
+/// be done for all of the sectors, then none of them are deallocated.
+pub fn free_sectors(blocks: BlockDeviceRef, bam: BamRef, locations: &[Location]) -> io::Result<()> {
+    blocks.borrow().check_writability()?;
     let mut bam = bam.borrow_mut();
     for location in locations {
-        bam.free(location)?;
+        bam.check_location(*location)?;
     }
-    bam.flush()?;
-
-    Ok(())
+    for location in locations {
+        bam.free(*location)?;
+    }
+    bam.flush()
 }
diff --git a/src/disk/file.rs b/src/disk/file.rs
index 91678a1..26192e8 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -474,17 +474,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
+        // Deallocate the chain and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::free_sectors(self.blocks.clone(), self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 89ccbc6..a1555ac 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -89,24 +89,10 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
-
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info block
+        // (if present), and the VLIR records (if this is a VLIR file).
+        let locations = self.occupied_sectors()?;
+        chain::free_sectors(self.blocks.clone(), self.bam.clone(), &locations)?;
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
-- 
2.43.0


From a23cfc01381b73049e9c98ed198ac0a242853e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:12 +0000
Subject: [PATCH 16/16] fix: refuse record indices past the end of a sequential
 GEOS file

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index a1555ac..1fedfc2 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -60,7 +60,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0

