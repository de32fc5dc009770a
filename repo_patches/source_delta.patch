From 6225ece6c03621087170b3c94b26c6077c1b5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 01/66] fix: failed write, delete or shred must leave the disk
 image unchanged

The saved transaction state was a view of the live arrays, so rolling back
copied the modified data onto itself; errors other than AtrError skipped the
rollback altogether.
---
 atrcopy/diskimages.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..f5c8078 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -322,7 +322,7 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        state = self.bytes.copy(), self.style.copy()
         return state
 
     def rollback_transaction(self, state):
@@ -353,7 +353,7 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -387,7 +387,7 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -400,7 +400,7 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
-- 
2.43.0


From 0e8f9ba07243b0fd07886db4958b97c80e4faace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 02/66] fix: out of range sector raises ByteNotInFile166 rather
 than NameError

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index f5c8078..192dec1 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From 093d5056808e0c5072ad322c12a2dda7c15f4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 03/66] fix: location of the 128 byte boot sectors in double
 density images

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..3255dd6 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -417,7 +417,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From 45c9751c6ad65c291cac3bfd33160dd05d760a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 04/66] fix: writing and reading back a zero length file

A zero length file was stored with no sectors and a start sector of -1, which
made the disk unreadable, and an empty file read back as the entire disk.
---
 atrcopy/diskimages.py | 3 ++-
 atrcopy/segments.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 192dec1..ee6b1c0 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -363,7 +363,8 @@ class DiskImageBase(Bootable):
         data = to_numpy(data)
         sectors = BaseSectorList(self.header)
         index = 0
-        while index < len(data):
+        # an empty file still needs a sector to be the target of its dirent
+        while index < len(data) or len(sectors) == 0:
             count = min(self.header.payload_bytes, len(data) - index)
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..41bb486 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1090,7 +1090,7 @@ class DefaultSegment:
 
 class EmptySegment(DefaultSegment):
     def __init__(self, rawdata, name="", error=None):
-        DefaultSegment.__init__(self, rawdata, 0, name, error)
+        DefaultSegment.__init__(self, rawdata[0:0], 0, name, error)
 
     def __str__(self):
         s = "%s (empty file)" % (self.name, )
-- 
2.43.0


From 18f2e7e2452879c767b5b0316afe5212e1a372d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:20 +0000
Subject: [PATCH 05/66] fix: refuse to add a 65th file to an Atari DOS
 directory

The directory had no size limit, so the entry was written into sector 369,
overwriting the data of whichever file owned that sector.
---
 atrcopy/ataridos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3255dd6..a87fc84 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,9 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    def __init__(self, header, num_dirents=64, sector_class=WriteableSector):
+        Directory.__init__(self, header, num_dirents, sector_class)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
-- 
2.43.0


From ec691b55c4b6793a70f436bb59f880b94a97ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:20 +0000
Subject: [PATCH 06/66] fix: directory layout of double density Atari DOS disks

DOS stores 8 entries in each directory sector even when sectors are 256 bytes.
Packing 16 into a sector hid all but the first 8 files of disks formatted and
written by DOS, and adding a file overwrote entries.
---
 atrcopy/ataridos.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index a87fc84..44fe265 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -55,6 +55,13 @@ class AtariDosDirectory(Directory):
     def dirent_class(self):
         return AtariDosDirent
 
+    def get_dirent_sector(self):
+        # a directory sector holds 8 dirents regardless of the sector size; the
+        # second half of a double density directory sector is unused.
+        s = Directory.get_dirent_sector(self)
+        s.sector_size = 8 * AtariDosDirent.format.itemsize
+        return s
+
     def encode_empty(self):
         return np.zeros([16], dtype=np.uint8)
 
@@ -553,7 +560,8 @@ class AtariDosDiskImage(DiskImageBase):
             self.unused_sectors += extra_free
 
     def get_directory(self, directory=None):
-        dir_bytes, style = self.get_sectors(361, 368)
+        # 8 dirents per sector regardless of the sector size
+        dir_bytes = np.concatenate([self.get_sectors(s)[0][0:128] for s in range(361, 369)])
         i = 0
         num = 0
         files = []
@@ -641,14 +649,13 @@ class AtariDosDiskImage(DiskImageBase):
         start, count = self.get_contiguous_sectors(361, 8)
         segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
-        index = 0
         for filenum in range(64):
+            index = (filenum // 8) * self.header.sector_size + (filenum % 8) * 16
             segment.set_comment_at(index + 0x00, "FILE #%d: Flag" % filenum)
             segment.set_comment_at(index + 0x01, "FILE #%d: Number of sectors in file" % filenum)
             segment.set_comment_at(index + 0x03, "FILE #%d: Starting sector number" % filenum)
             segment.set_comment_at(index + 0x05, "FILE #%d: Filename" % filenum)
             segment.set_comment_at(index + 0x0d, "FILE #%d: Extension" % filenum)
-            index += 16
         segments.append(segment)
         return segments
 
-- 
2.43.0


From 07c1ca25a9cfc1f8b0d6f8ae8014c34bd84b0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:20 +0000
Subject: [PATCH 07/66] fix: keep existing Atari DOS directory entries as they
 are on disk

Rewriting the directory replaced the blanks padding every file name with NULs,
which DOS does not match, and dropped flag bits.
---
 atrcopy/ataridos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 44fe265..d03601d 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -105,6 +105,7 @@ class AtariDosDirent(Dirent):
         self.current_sector = 0
         self.current_read = 0
         self.sectors_seen = None
+        self.raw_dirent = None
         self.parse_raw_dirent(image, bytes)
 
     def __str__(self):
@@ -146,6 +147,7 @@ class AtariDosDirent(Dirent):
     def parse_raw_dirent(self, image, data):
         if data is None:
             return
+        self.raw_dirent = data.copy()
         values = data.view(dtype=self.format)[0]
         flag = values[0]
         self.flag = flag
@@ -163,14 +165,18 @@ class AtariDosDirent(Dirent):
         self.is_sane = self.sanity_check(image)
 
     def encode_dirent(self):
-        data = np.zeros([self.format.itemsize], dtype=np.uint8)
+        if self.raw_dirent is None:
+            data = np.zeros([self.format.itemsize], dtype=np.uint8)
+        else:
+            data = self.raw_dirent.copy()
         values = data.view(dtype=self.format)[0]
-        flag = (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
+        flag = (int(self.flag) & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        if self.raw_dirent is None:
+            values[3] = self.basename.ljust(8)
+            values[4] = self.ext.ljust(3)
         return data
 
     def mark_deleted(self):
-- 
2.43.0


From 6a4aa6bef5c9f2b513120daeee9873243e7e3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:20 +0000
Subject: [PATCH 08/66] fix: keep the VTOC free sector count in step with the
 sector bit map

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d03601d..12fabb2 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -42,6 +42,8 @@ class AtariDosVTOC(VTOC):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
         self.vtoc1[0x0a:0x64] = packed
+        hi, lo = divmod(int(self.sector_map[0:720].sum()), 256)
+        self.vtoc1[3:5] = [lo, hi]
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
-- 
2.43.0


From 61666f18054bde1af53261b0f4947b19efa2482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:20 +0000
Subject: [PATCH 09/66] fix: deleting a file must not match an already deleted
 entry

A deleted entry with the same name was found first, so the sectors it used to
own, which may belong to other files by now, were marked as free.
---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..e1f4569 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -223,11 +223,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From cc7038a21822b29050a7b9c4d88911f14b44b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 10/66] fix: unlocked text files do not end the DOS 3.3 catalog

The flag byte of an unlocked text file is zero; only a track number of zero
marks an unused entry. Such a file and everything after it in its catalog
sector was invisible, and lost when the catalog was rewritten.
---
 atrcopy/dos33.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..4db0dca 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -469,7 +469,8 @@ class Dos33DiskImage(DiskImageBase):
             i = 0xb
             while i < 256:
                 dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if dirent.track == 0 and not dirent.deleted:
+                    # entry has never been used
                     break
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
-- 
2.43.0


From 3a2c675e3ba1e691928c89ae05a5c5f47a63a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 11/66] fix: keep the lock flag of DOS 3.3 files when rewriting
 the catalog

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 4db0dca..e570cd9 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -239,7 +239,7 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
+        self.locked = (values[2] & 0x80) > 0
         self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From 319889192e659e62696a80835b4e1110a36f3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 12/66] fix: DOS 3.3 file names are 30 characters

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index e570cd9..0fa0840 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -240,7 +240,7 @@ class Dos33Dirent(Dirent):
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
         self.locked = (values[2] & 0x80) > 0
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        self.filename = (data[3:0x21] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
-- 
2.43.0


From 1bdde2d19ceab831824870c2007911d242441f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 13/66] fix: keep existing DOS 3.3 catalog entries as they are
 on disk

Rewriting the catalog dropped inverse and flashing characters from names and
the file type of deleted entries.
---
 atrcopy/dos33.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 0fa0840..d17cbe3 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -172,6 +172,7 @@ class Dos33Dirent(Dirent):
         self.current_read = 0
         self.sectors_seen = None
         self.sector_map = None
+        self.raw_dirent = None
         self.parse_raw_dirent(image, bytes)
 
     def __str__(self):
@@ -230,6 +231,7 @@ class Dos33Dirent(Dirent):
     def parse_raw_dirent(self, image, data):
         if data is None:
             return
+        self.raw_dirent = data.copy()
         values = data.view(dtype=self.format)[0]
         self.track = values[0]
         if self.track == 0xff:
@@ -245,6 +247,13 @@ class Dos33Dirent(Dirent):
         self.is_sane = self.sanity_check(image)
 
     def encode_dirent(self):
+        if self.raw_dirent is not None:
+            # already on disk, so the only possible change is being deleted
+            data = self.raw_dirent.copy()
+            if self.deleted and data[0] != 0xff:
+                data[0x20] = data[0]
+                data[0] = 0xff
+            return data
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
         values = data.view(dtype=self.format)[0]
         values[0] = 0xff if self.deleted else self.track
-- 
2.43.0


From 0bd63006d4cbb777394e989b98c32f5768b77dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 14/66] fix: use the last sector of the DOS 3.3 catalog

The last catalog sector could not be written, so with more than 98 entries no
file could be added or even deleted.
---
 atrcopy/dos33.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index d17cbe3..5b86b77 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -574,12 +574,12 @@ class Dos33DiskImage(DiskImageBase):
     def get_directory_sector_links(self, sector_num):
         if sector_num == -1:
             sector_num = self.header.first_directory
+        elif sector_num == 0:
+            raise errors.NoSpaceInDirectory("No space left in catalog")
         self.assert_valid_sector(sector_num)
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From c8a9d19c2caf2a35dd0d2db83b27f03289d9d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 15/66] fix: store the sector offset in each DOS 3.3
 track/sector list

---
 atrcopy/dos33.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 5b86b77..83e19e7 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -23,6 +23,9 @@ class Dos33TSSector(WriteableSector):
             self.set_tslist(sector_list, start, end)
 
     def set_tslist(self, sector_list, start, end):
+        # offset of the first data sector described by this list
+        self.data[5] = start & 0xff
+        self.data[6] = start >> 8
         index = 0xc
         for i in range(start, end):
             sector = sector_list[i]
-- 
2.43.0


From 9d4a58569c7600f5dd1c6d205414a75f96c2f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:00 +0000
Subject: [PATCH 16/66] fix: cyclic links in a damaged disk image are an error,
 not an endless loop

---
 atrcopy/ataridos.py  | 6 +++++-
 atrcopy/dos33.py     | 8 ++++++++
 atrcopy/spartados.py | 4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 12fabb2..4b8be66 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -257,7 +257,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (raw[-3] << 8) + raw[-2]
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 83e19e7..25ba341 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -309,8 +309,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
@@ -473,8 +477,12 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         num = 0
         files = []
+        seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in seen:
+                raise errors.InvalidDiskImage("Catalog sector %d is linked more than once" % sector)
+            seen.add(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..95307b3 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -209,7 +209,11 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        seen = set()
         while sector > 0:
+            if sector in seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
-- 
2.43.0


From 30835caa61ca301ead67e4a8910a09f5cf3f2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:00 +0000
Subject: [PATCH 17/66] fix: SpartaDOS files whose data fills their sector map

Reading went past the end of the map, and a length over 8MB was negative.
---
 atrcopy/spartados.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 95307b3..dc21454 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -13,7 +13,7 @@ class SpartaDosDirent(AtariDosDirent):
         ('status', 'u1'),
         ('sector', '<u2'),
         ('len_l', '<u2'),
-        ('len_h', 'i1'),
+        ('len_h', 'u1'),
         ('filename','S8'),
         ('ext','S3'),
         ('date','S3'),
@@ -96,7 +96,10 @@ class SpartaDosDirent(AtariDosDirent):
         self.length_remaining = self.length
 
     def read_sector(self, image):
-        sector = self.sector_map[self.sector_map_index]
+        if self.length_remaining <= 0 or self.sector_map_index >= len(self.sector_map):
+            sector = 0
+        else:
+            sector = self.sector_map[self.sector_map_index]
         if sector == 0:
             return None, True, 0, self.length_remaining
         raw, pos, size = image.get_raw_bytes(sector)
@@ -220,6 +223,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
                 m = np.copy(b[4:].view(dtype='<u2'))
             else:
                 m = np.hstack((m, b[4:].view(dtype='<u2')))
+        if m is None:
+            raise errors.InvalidFile("Empty sector map")
         return m
 
     def get_directory_segments(self):
-- 
2.43.0


From 2bb8f454001a69709463d469c0fd1a33017fe3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:00 +0000
Subject: [PATCH 18/66] fix: do not list deleted or unused SpartaDOS directory
 entries as files

---
 atrcopy/spartados.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index dc21454..93609ed 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -178,7 +178,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         s = self.get_file_segment(d)
         for filenum, i in enumerate(range(23, d.length, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
-            self.files.append(dirent)
+            if dirent.in_use:
+                self.files.append(dirent)
         self.root_dir_dirent = d
 
     def get_boot_segments(self):
-- 
2.43.0


From c3eb930c9e4caaba55b0712a2d5b5ff314970fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:27 +0000
Subject: [PATCH 19/66] fix: sector labels of the VTOC and directory of double
 density disks

---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 4b8be66..f673a13 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -633,7 +633,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(self.first_vtoc, self.num_vtoc)
-        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 128, 3, self.header.sector_size, name="VTOC")
+        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 0, 0, self.header.sector_size, name="VTOC")
         segment.style[:] = get_style_bits(data=True)
         segment.set_comment_at(0x00, "Type code")
         segment.set_comment_at(0x01, "Total number of sectors")
@@ -645,7 +645,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments.append(segment)
         if self.vtoc2 > 0:
             start, count = self.get_contiguous_sectors(self.vtoc2, 1)
-            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 128, 3, self.header.sector_size, name="VTOC2")
+            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 0, 0, self.header.sector_size, name="VTOC2")
             segment.style[:] = get_style_bits(data=True)
             segment.set_comment_at(0x00, "Repeat of sectors 48-719")
             segment.set_comment_at(0x44, "Sector bit map 720-1023")
@@ -659,7 +659,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(361, 8)
-        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
+        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 0, 0, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
         for filenum in range(64):
             index = (filenum // 8) * self.header.sector_size + (filenum % 8) * 16
-- 
2.43.0


From c51e7f840201571f9f56c8afd8b54fe315d2b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:56 +0000
Subject: [PATCH 20/66] fix: position of contiguous sectors that begin at the
 start of the image

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index ee6b1c0..7a1a242 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -253,7 +253,7 @@ class DiskImageBase(Bootable):
         count = 0
         for index in range(sector, sector + num):
             pos, size = self.header.get_pos(index)
-            if start == 0:
+            if count == 0:
                 start = pos
             count += size
         return start, count
-- 
2.43.0


From 77544454870779a07a19ab836438159369194011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:16 +0000
Subject: [PATCH 21/66] fix: converting an Atari disk image to ATR format

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index f673a13..20c01ec 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -513,7 +513,7 @@ class AtariDosDiskImage(DiskImageBase):
         """
         first_data = len(self.header)
         raw = self.rawdata[first_data:]
-        data = add_atr_header(raw)
+        data = add_atr_header(raw.get_data())
         newraw = SegmentData(data)
         image = self.__class__(newraw)
         return image
-- 
2.43.0


From 2d1fe5b32ce52877f43e79636939ac254fc570e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:07 +0000
Subject: [PATCH 22/66] fix: a sector byte count larger than the sector is an
 error

---
 atrcopy/ataridos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 20c01ec..6e0959e 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -236,6 +236,8 @@ class AtariDosDirent(Dirent):
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
         num_bytes = raw[-1]
+        if num_bytes > len(raw) - 3:
+            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
         return raw[0:num_bytes], num_bytes
 
     def set_values(self, filename, filetype, index):
@@ -263,6 +265,8 @@ class MydosDirent(AtariDosDirent):
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
         num_bytes = raw[-1]
+        if num_bytes > len(raw) - 3:
+            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
         return raw[0:num_bytes], num_bytes
 
 
-- 
2.43.0


From 22705d45ce8ac3dc5ea7ebf9bd5a10669138e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:17 +0000
Subject: [PATCH 23/66] fix: refuse ATR images with an impossible sector size

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 6e0959e..f8b26b9 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -429,6 +429,8 @@ class AtrHeader(BaseHeader):
             self.num_initial_sectors = 3
         else:
             self.image_size = size
+        if self.sector_size < 128:
+            raise errors.InvalidDiskImage("Invalid sector size %d" % self.sector_size)
         self.first_vtoc = 360
         self.num_vtoc = 1
         self.first_directory = 361
-- 
2.43.0


From 581f706399e3a603dc57f58bf35c792668a0d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:27 +0000
Subject: [PATCH 24/66] fix: damaged SpartaDOS root directory

---
 atrcopy/spartados.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 93609ed..02afce8 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -176,7 +176,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         bytes, pos, size = self.get_raw_bytes(sector)
         d = SpartaDosDirent(self, 0, bytes[0:23], starting_sector=self.root_dir)
         s = self.get_file_segment(d)
-        for filenum, i in enumerate(range(23, d.length, 23)):
+        for filenum, i in enumerate(range(23, len(s) - 22, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
             if dirent.in_use:
                 self.files.append(dirent)
@@ -230,6 +230,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_directory_segments(self):
         dirent = self.root_dir_dirent
+        if dirent is None:
+            return []
         segment = self.get_file_segment(dirent)
         segment.name = dirent.filename
         segment.map_width = 23
-- 
2.43.0


From 9099d48a8dbbd5f54ab7664e3f4f2bff7882d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:14 +0000
Subject: [PATCH 25/66] fix: a DOS 3.3 VTOC cannot make sectors outside the
 image valid

---
 atrcopy/dos33.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 25ba341..2fb4e4e 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -466,7 +466,8 @@ class Dos33DiskImage(DiskImageBase):
         if self.header.sector_size != 256:
             log.warning(f"Nonstandard sector size {self.header.sector_size}; this is likely an error, setting to 256")
             self.header.sector_size = 256
-        self.header.max_sectors = int(values['num_tracks']) * int(values['sectors_per_track'])
+        # the VTOC may be damaged; there are no more sectors than in the image
+        self.header.max_sectors = min(int(values['num_tracks']) * int(values['sectors_per_track']), self.header.image_size // self.header.sector_size)
         self.header.ts_pairs = int(values['max_pairs'])
         self.header.dos_release = values['dos_release']
         self.header.last_track_num = values['last_track']
-- 
2.43.0


From 395042f3f14b02dd5bb7361c31ce84a6646204df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:18 +0000
Subject: [PATCH 26/66] fix: a run address of zero is a run address

---
 atrcopy/executables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index fc1ffb1..4e0df81 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -25,7 +25,7 @@ def get_xex(segments, run_addr=None):
             runad = True
     if not runad:
         words = np.empty([1], dtype='<u2')
-        if run_addr:
+        if run_addr is not None:
             found = False
             for s in segments:
                 if run_addr >= s.origin and run_addr < s.origin + len(s):
@@ -73,7 +73,7 @@ def get_bsave(segments, run_addr=None):
         origin = min(origin, s.origin)
         last = max(last, s.origin + len(s))
         if _xd: log.debug("contiguous bytes needed: %04x - %04x" % (origin, last))
-    if run_addr and run_addr != origin:
+    if run_addr is not None and run_addr != origin:
         # check if run_addr points to some location that has data
         found = False
         for s in segments:
-- 
2.43.0


From 3a3322d54fdc57977d5531753db51de8c5e72d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:18 +0000
Subject: [PATCH 27/66] fix: no run address given means None, an invalid one is
 an error

---
 atrcopy/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..b3ca3e4 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -261,15 +261,14 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
     if options.verbose:
         for s in segments:
             print("%s - %04x)" % (str(s)[:-1], s.origin + len(s)))
-    if run_addr:
+    if run_addr is None or run_addr == "":
+        run_addr = None
+    else:
         try:
             run_addr = text_to_int(run_addr)
-        except (AttributeError, ValueError):
-            # not text, try as integer
-            try:
-                run_addr = int(run_addr)
-            except ValueError:
-                run_addr = None
+        except AttributeError:
+            # not text, must be an integer
+            run_addr = int(run_addr)
 
     return segments, run_addr
 
-- 
2.43.0


From bf351c57b4a9980c9fd8741b7f43302d311716bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:18 +0000
Subject: [PATCH 28/66] fix: comments of non-contiguous segments

---
 atrcopy/segments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 41bb486..87b1266 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1052,12 +1052,12 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
         for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+            try:
+                index = self.get_index_from_base_index(k)
+            except IndexError:
+                continue
+            yield index, v
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From 8f79124567a55f709d07fc7c6f0fa409a8545773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:20 +0000
Subject: [PATCH 29/66] fix: a block that holds half of the run address has no
 run address

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index f8b26b9..8d12fdc 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -350,7 +350,7 @@ class AtariDosFile(Bootable):
             if found < count:
                 self.segments.append(ObjSegment(r[pos + 4:pos + 4 + count], pos, pos + 4, start, end, "Incomplete Data"))
                 break
-            if start == 0x2e0:
+            if start == 0x2e0 and count > 1:
                 segment_cls = RunAddressSegment
             else:
                 segment_cls = ObjSegment
-- 
2.43.0


From a56c78f1712609d6c616b69707f02053ffc4304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:09 +0000
Subject: [PATCH 30/66] fix: data too short for the signature is not an Atari
 executable

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 8d12fdc..d0b1ef8 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -323,6 +323,8 @@ class AtariDosFile(Bootable):
         style_pos = 0
         first = True
         if _xd: log.debug("Initial parsing: size=%d" % self.size)
+        if self.size < 2:
+            raise errors.InvalidBinaryFile("Object file doesn't start with 0xffff")
         while pos < self.size:
             if pos + 1 < self.size:
                 header, = b[pos:pos+2].view(dtype='<u2')
-- 
2.43.0


From e9f21d6b78548b93cdd13a64c2f62c48ab07327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:19 +0000
Subject: [PATCH 31/66] fix: run address of an executable that is stored
 non-contiguously

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d0b1ef8..189282d 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -289,7 +289,7 @@ class RunAddressSegment(ObjSegment):
     # def run_address(self):
     #     return self.rawdata[0:2].view(dtype="<u2")[0]
     def run_address(self):
-        return self.rawdata[0:2].data.view(dtype="<u2")[0]
+        return self.data[0:2].view(dtype="<u2")[0]
 
 
 
-- 
2.43.0


From 8ee2e15f1bb1337c6a1070004ac00f26ffff383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:50 +0000
Subject: [PATCH 32/66] fix: parsing Apple binary files

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 2fb4e4e..d1b8b4c 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -654,7 +654,7 @@ class Dos33BinFile(Bootable):
             s[pos:pos + 4] = get_style_bits(data=True)
             data = b[pos + 4:pos + 4 + count]
             if len(data) == count:
-                name = "BSAVE data" % start
+                name = "BSAVE data"
             else:
                 raise errors.InvalidBinaryFile(f"Incomplete BSAVE data: expected {count}, loaded {len(data)}")
             self.segments.append(ObjSegment(r[pos + 4:pos + 4 + count], pos, pos + 4, start, start + len(data), name))
-- 
2.43.0


From 2fed103e6e668fdd5b2cccf693a17734ef4cb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:40 +0000
Subject: [PATCH 33/66] fix: Atari boot disks use the requested run address

KBootImage.create_boot_image ignored its run_addr argument, so the boot
disk always started at the first segment.
---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..d602f03 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
-- 
2.43.0


From e4b46fb3e3344c5898f31ae5ab2ccc1a3974c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:40 +0000
Subject: [PATCH 34/66] fix: refuse executables that the boot loader can't
 count

The boot loader has a 16 bit byte count: executables of 64k or more got
a truncated count, giving a disk that neither boots nor is recognized.
---
 atrcopy/kboot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index d602f03..b23a5d3 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -96,6 +96,9 @@ def insert_bytes(data, offset, string, color):
 def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari user"):
     sec_size = 128
     xex_size = len(bytes)
+    if xex_size > 0xffff:
+        # the boot loader only has a 16 bit count of the bytes left to load
+        raise errors.InvalidBinaryFile("Executable too large for boot disk")
     num_sectors = (xex_size + sec_size - 1) // sec_size
     padded_size = num_sectors * sec_size
     if xex_size < padded_size:
-- 
2.43.0


From 5d978b384d400153bece005b39214cecf6ddc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:35 +0000
Subject: [PATCH 35/66] fix: user supplied boot code for Atari boot disks

The title and author were str instead of bytes, so this always failed
with a TypeError.
---
 atrcopy/kboot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index b23a5d3..775d52c 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -110,8 +110,8 @@ def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari us
     else:
         # don't insert title or author in user supplied bootcode; would have to
         # assume that the user supplied everything desired in their own code!
-        title = ""
-        author = ""
+        title = b""
+        author = b""
     bootsize = np.alen(bootcode)
     v = bootcode[9:11].view(dtype="<u2")
     v[0] = xex_size
-- 
2.43.0


From a8b1df6e3a3af2138b46b3ede4aab021b0c1ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:24 +0000
Subject: [PATCH 36/66] fix: Apple boot disks with several segments in one page

The loader only loads whole pages, and the unused part of a segment's
first and last page was filled with zeros. This cleared the bytes of an
earlier segment in the same page.
---
 atrcopy/standard_delivery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..3e02bd6 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -70,6 +70,7 @@ class StandardDeliveryImage(DiskImageBase):
             run_addr = segments[0].origin
 
         chunks = []
+        memory = np.zeros([0x10000], dtype=np.uint8)
 
         for s in segments:
             # find size in 256 byte chunks that start on a page boundary
@@ -82,8 +83,10 @@ class StandardDeliveryImage(DiskImageBase):
             else:
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
-            chunk = np.zeros([size], dtype=np.uint8)
-            chunk[padding:padding + len(s)] = s[:]
+            # keep bytes of previous segments in pages that are loaded again
+            start = chunk_start * 256
+            memory[start + padding:start + padding + len(s)] = s[:]
+            chunk = memory[start:start + size].copy()
             chunks.append((chunk_start, chunk, show_hgr))
             print("segment: %s, pages=%d" % (str(s), len(chunk) // 256))
             log.debug(" last chunk=%s" % str(chunks[-1]))
-- 
2.43.0


From 6512fd784a2a01ea2d3c1d097f35d6e5f7470859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:24 +0000
Subject: [PATCH 37/66] fix: refuse Apple boot disk segments that the loader
 can't load

Page numbers of $c0 and above are commands to the boot loader, page 0 is
skipped by it and page 8 holds the loader itself. Boot disks with such
segments could be created but hung or loaded something else.
---
 atrcopy/standard_delivery.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 3e02bd6..91eb812 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -83,6 +83,12 @@ class StandardDeliveryImage(DiskImageBase):
             else:
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
+            pages = range(chunk_start, chunk_start + size // 256)
+            if 0x00 in pages or 0x08 in pages or chunk_start + len(pages) > 0xc0:
+                # the loader itself is in page 8 and skips page 0, and pages
+                # above the 48k of RAM are taken as commands
+                raise errors.InvalidBinaryFile("Boot loader can't load segment at $%04x-$%04x" % (origin, origin + len(s)))
+
             # keep bytes of previous segments in pages that are loaded again
             start = chunk_start * 256
             memory[start + padding:start + padding + len(s)] = s[:]
-- 
2.43.0


From a28f84b2cd6bca93526c55a3fa46766f61df66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:24 +0000
Subject: [PATCH 38/66] fix: description of Standard Delivery images

The format string had one placeholder less than arguments.
---
 atrcopy/standard_delivery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 91eb812..5f1210d 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -23,7 +23,7 @@ class StandardDeliveryHeader(BaseHeader):
             raise errors.InvalidDiskImage("No %s boot header" % self.file_format)
 
     def __str__(self):
-        return "Standard Delivery Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
+        return "%s Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
 
     def check_size(self, size):
         if size != 143360:
-- 
2.43.0


From 7fd10b790f385b67bbec2fb309bae963da45cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 39/66] fix: base indexes of non-contiguous data

get_indexes_from_base used an undefined variable if the data was already
indexed, so e.g. non-contiguous segments couldn't be interleaved.
---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 87b1266..16b56c8 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
-- 
2.43.0


From 13b768255cb24129a7164e6ae270ce9374d3bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 40/66] fix: base arrays of non-contiguous data

get_bases returned the order wrapper itself instead of the array that the
indexes refer to, so interleaving segments of the same file was refused
if one of them was non-contiguous.
---
 atrcopy/segments.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 16b56c8..49a2f2f 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -333,13 +333,7 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
-            data_base = self.data
-            style_base = self.style
-        else:
-            data_base = self.data.base
-            style_base = self.style.base
-        return data_base, style_base
+        return self.data_base, self.style_base
 
     def get_indexed(self, index):
         index = to_numpy_list(index)
-- 
2.43.0


From 49f1ee5c1d7dd74bae2d9ca82150796870ae5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 41/66] fix: parallel raw data of non-contiguous segments

get_parallel_raw_data failed with a TypeError if the other segment was
indexed.
---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 49a2f2f..8b1f6eb 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -544,7 +544,7 @@ class DefaultSegment:
         start, end = other.byte_bounds_offset()
         r = self.rawdata[start:end]
         if other.rawdata.is_indexed:
-            r = r.get_indexed[other.order]
+            r = r.get_indexed(other.rawdata.order)
         return r
 
     def serialize_session(self, mdict):
-- 
2.43.0


From e98386cc582060aaee3016396988ddd9bf0e3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:09 +0000
Subject: [PATCH 42/66] fix: clear the data style

Clearing the data style over a range was a no-op because the mask never
included the bit that setting the data style turns on.
---
 atrcopy/segments.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 8b1f6eb..e1a780b 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -52,8 +52,6 @@ def get_style_mask(**kwargs):
     bits = get_style_bits(**kwargs)
     if 'user' in kwargs and kwargs['user']:
         bits |= user_bit_mask
-    else:
-        bits &= (0xff ^ user_bit_mask)
     return 0xff ^ bits
 
 
-- 
2.43.0


From a0b8b224d3e27d88db0a4fd5f1786abc81ff308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:09 +0000
Subject: [PATCH 43/66] fix: compare non-contiguous segments

compare_segment failed with a TypeError if either of the segments was
indexed.
---
 atrcopy/segments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index e1a780b..2b0110a 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1074,9 +1074,8 @@ class DefaultSegment:
 
     def compare_segment(self, other_segment):
         self.clear_style_bits(diff=True)
-        diff = self.rawdata.data != other_segment.rawdata.data
-        d = diff * np.uint8(diff_bit_mask)
-        self.style |= (diff * np.uint8(diff_bit_mask))
+        diff = self.data[:] != other_segment.data[:]
+        self.style[:] |= (diff * np.uint8(diff_bit_mask))
         log.debug("compare_segment: # entries %d, # diffs: %d" % (len(diff), len(np.where(diff == True)[0])))
 
 
-- 
2.43.0


From 48a59c46c35518ece365338c193090ec6da7155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:09 +0000
Subject: [PATCH 44/66] fix: find_previous skipped the range starting one byte
 before

Use the mirror image of find_next: the last range that starts before the
index.
---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 2b0110a..b73e30d 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -789,7 +789,7 @@ class DefaultSegment:
     def find_previous(self, index, **kwargs):
         ranges = self.get_style_ranges(**kwargs)
         if len(ranges) > 0:
-            index_tuple = (index - 1, 0)
+            index_tuple = (index, 0)
             match_index = bisect.bisect_left(ranges, index_tuple)
             match_index -= 1
             if match_index < 0:
-- 
2.43.0


From 9cfb4e47be3df668d441f9cc06c3871d3663ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:09 +0000
Subject: [PATCH 45/66] fix: comments and user data on reversed ranges

Styles are set and cleared on ranges given in either direction, but the
comments and user data that belong to them were put at the wrong byte or
were left alone if the end of the range was before its start.
---
 atrcopy/segments.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index b73e30d..d3d2370 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -880,6 +880,8 @@ class DefaultSegment:
 
     def set_user_data(self, ranges, user_index, user_data):
         for start, end in ranges:
+            if end < start:
+                start, end = end, start
             # FIXME: this is slow
             for i in range(start, end):
                 rawindex = self.get_raw_index(i)
@@ -956,6 +958,8 @@ class DefaultSegment:
         """
         restore_data = []
         for start, end in ranges:
+            if end < start:
+                start, end = end, start
             log.debug("range: %d-%d" % (start, end))
             styles = self.style[start:end].copy()
             items = {}
@@ -1014,7 +1018,7 @@ class DefaultSegment:
     def set_comment(self, ranges, text):
         self.set_style_ranges(ranges, comment=True)
         for start, end in ranges:
-            self.set_comment_at(start, text)
+            self.set_comment_at(min(start, end), text)
 
     def get_comment(self, index):
         rawindex = self.get_raw_index(index)
@@ -1028,13 +1032,15 @@ class DefaultSegment:
             pass
 
     def get_first_comment(self, ranges):
-        start = reduce(min, [r[0] for r in ranges])
+        start = reduce(min, [min(r) for r in ranges])
         rawindex = self.get_raw_index(start)
         return self.rawdata.extra.comments.get(rawindex, "")
 
     def clear_comment(self, ranges):
         self.clear_style_ranges(ranges, comment=True)
         for start, end in ranges:
+            if end < start:
+                start, end = end, start
             for i in range(start, end):
                 rawindex = self.get_raw_index(i)
                 if rawindex in self.rawdata.extra.comments:
-- 
2.43.0


From a578477eab4c177fc0dcb45698034020e1b35775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 46/66] fix: an empty selection was reconstructed as the whole
 file

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index d3d2370..b3d998f 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -528,7 +528,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From d77f2c593594fcb9d3d7ffb70d2f7ac4dfe34c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 47/66] fix: a container segment could be resized only once

np.resize returns a view, so the resized array was taken for a view of
another segment from then on.
---
 atrcopy/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index b3d998f..f6d0ead 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -177,8 +177,8 @@ class SegmentData:
     def resize(self, newsize):
         if self.data.base is None:
             try:
-                newdata = np.resize(self.data, (newsize,))
-                newstyle = np.resize(self.style, (newsize,))
+                newdata = np.resize(self.data, (newsize,)).copy()
+                newstyle = np.resize(self.style, (newsize,)).copy()
             except:
                 raise
             else:
-- 
2.43.0


From ec38c656877d6b3cb6ed3422c37cc88868c67b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 48/66] fix: origin of the right slot 4 KB cartridge

---
 atrcopy/cartridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 4a822d8..2908b24 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -26,7 +26,7 @@ known_cart_types = [
     (0,  "", 0,),
     (57, "Standard 2 KB", 2, 2, 0, 0xb800),
     (58, "Standard 4 KB", 4, 4, 0, 0xb000),
-    (59, "Right slot 4 KB", 4, 4, 0, 0, 0x9000),
+    (59, "Right slot 4 KB", 4, 4, 0, 0x9000),
     (1,  "Standard 8 KB", 8, 8, 0, 0xa000),
     (21, "Right slot 8 KB", 8,),
     (2,  "Standard 16 KB", 16, 16, 0, 0x8000),
-- 
2.43.0


From 6f2e99d3de347f7e9c5b97e0bab50d5457d071b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 49/66] fix: possible cart types were matched by type number
 instead of size

---
 atrcopy/cartridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 2908b24..acb739b 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -199,7 +199,7 @@ class A8CartHeader:
         k, r = divmod(size, 1024)
         if r == 0 or r == self.nominal_length:
             for i, t in enumerate(known_cart_types):
-                valid_size = t[0]
+                valid_size = t[2]
                 if k == valid_size:
                     self.possible_types.add(i)
 
-- 
2.43.0


From 114d726c99e03854eeaefb507655dd1ed288f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 50/66] fix: added files were not saved if the last one was
 skipped

---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index b3ca3e4..11d05aa 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -154,7 +154,8 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        if save_file(image, name, filetype, data):
+            changed = True
     if changed:
         image.save()
 
-- 
2.43.0


From 4b4a204cd16a0805821ebf7949e2e861aa880b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 51/66] fix: extracting could write outside the output
 directory

---
 atrcopy/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 11d05aa..29b59da 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -106,7 +106,11 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        output = dirent.filename
+        # names on the disk image may contain path separators, but extracted
+        # files must not end up outside the output directory
+        output = dirent.filename.replace(os.sep, "_")
+        if os.altsep:
+            output = output.replace(os.altsep, "_")
         if options.lower:
             output = output.lower()
         if options.dir:
-- 
2.43.0


From 41edd45b66fc73fdd29b38825ef6dba5b131c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 52/66] fix: dry run of extract created the output directory

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 29b59da..cd8ea18 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -114,7 +114,7 @@ def extract_files(image, files):
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
+            if not options.dry_run and not os.path.exists(options.dir):
                 os.makedirs(options.dir)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
-- 
2.43.0


From f61c7b39777692bd2fd5a22149ee6a641bdc0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 53/66] fix: dry run of boot wrote the disk image

---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index cd8ea18..f0d6c0c 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -296,7 +296,8 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
-- 
2.43.0


From 56c5992970078857bf5c650e547931f0faa8eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 54/66] fix: shred_image ignored the fill value

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index f0d6c0c..6294bf8 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -305,7 +305,7 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
 def shred_image(image, value=0):
     print("shredding: free sectors from %s filled with %d" % (image, value))
     if not options.dry_run:
-        image.shred()
+        image.shred(value)
         image.save()
 
 
-- 
2.43.0


From b97a6d65cc9ad5402656c301ba022abec66ddf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 55/66] fix: clearing free sectors failed on disks larger than
 the sector map

---
 atrcopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index e1f4569..d3f267f 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -313,7 +313,7 @@ class VTOC(BaseSectorList):
 
     def iter_free_sectors(self):
         for i, pos, size in self.header.iter_sectors():
-            if self.sector_map[i] == 1:
+            if i < len(self.sector_map) and self.sector_map[i] == 1:
                 yield i, pos, size
 
     def parse_segments(self, segments):
-- 
2.43.0


From b7b888d72fd30dba54ac9b664036f092e0ff3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 56/66] fix: corrupt gzip data raised zlib.error instead of
 being skipped

---
 atrcopy/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..059cc51 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -2,6 +2,7 @@ import gzip
 import bz2
 import lzma
 import io
+import zlib
 
 import numpy as np
 
@@ -55,7 +56,7 @@ class GZipContainer(DiskImageContainer):
             buf = io.BytesIO(byte_data)
             with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                 unpacked = f.read()
-        except OSError as e:
+        except (OSError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return unpacked
 
-- 
2.43.0


From 34dea8d41b009319db4a64d8481882b33989c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:14 +0000
Subject: [PATCH 57/66] fix: IndexError matching signatures on short data

---
 atrcopy/magic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/magic.py b/atrcopy/magic.py
index 324afda..07c44dd 100644
--- a/atrcopy/magic.py
+++ b/atrcopy/magic.py
@@ -53,7 +53,10 @@ magic = [
 
 def check_signature(raw, sig):
     for index, expected in sig:
-        actual = raw.data[index].tolist()
+        try:
+            actual = raw.data[index].tolist()
+        except IndexError:
+            return False
         if actual == expected:
             log.debug(" match at %s: %s" % (str(index), str(expected)))
         if actual != expected:
-- 
2.43.0


From eeb4cf0075e3a6479431b4adb08a8cccf06f60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:59 +0000
Subject: [PATCH 58/66] fix: delete removed locked files without the force
 option

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 6294bf8..4a11da3 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -172,6 +172,9 @@ def remove_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
+        if getattr(dirent, "locked", False) and not options.force:
+            print("skipping %s, file is locked. Use -f to remove" % name)
+            continue
         print("removing %s from %s" % (name, image))
         if not options.dry_run:
             image.delete_file(name)
-- 
2.43.0


From b0bcba0aa2ca0050f4cb0cde84a438225de79e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:59 +0000
Subject: [PATCH 59/66] fix: an unreadable subset of a data file meant the
 whole file

---
 atrcopy/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 4a11da3..fb43b3b 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -236,16 +236,13 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
             name, slicetext = name.rsplit("[", 1)
             if ":" in slicetext:
                 start, end = slicetext.split(":", 1)
-                try:
-                    start = int(start)
-                except:
-                    start = 0
                 if end.endswith("]"):
                     end = end[:-1]
                 try:
-                    end = int(end)
-                except:
-                    end = None
+                    start = int(start) if start.strip() else 0
+                    end = int(end) if end.strip() else None
+                except ValueError:
+                    raise errors.AtrError("Invalid subset [%s of data file %s" % (slicetext, name))
                 subset = slice(start, end)
         with open(name, 'rb') as fh:
             data = fh.read()[subset]
-- 
2.43.0


From a1a773daa0b93a9e3034ad5049f90bdda061a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 60/66] fix: adding a file overwrote directory entries that are
 neither in use nor deleted (DOS 2.5 files)

---
 atrcopy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index d3f267f..75060ad 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -201,7 +201,9 @@ class Directory(BaseSectorList):
         if d:
             d.sort()
             for i, dirent in d:
-                if not dirent.in_use:
+                # an entry that is not in use may still belong to a file, e.g.
+                # DOS 2.5 marks files above sector 719 as not in use for DOS 2
+                if dirent.deleted and not dirent.in_use:
                     return i
                 used.add(i)
             if self.num_dirents > 0 and (len(used) >= self.num_dirents):
-- 
2.43.0


From 155dfff62837b2558bbbc8736f74e179f4d41a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:12 +0000
Subject: [PATCH 61/66] fix: refuse damaged, encrypted and empty zip files as
 MAME ROM sets

Identifying such a file ended with an exception of the zipfile module or
of numpy instead of being reported as an unknown disk image.
---
 atrcopy/mame.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/atrcopy/mame.py b/atrcopy/mame.py
index 20850f1..f363437 100644
--- a/atrcopy/mame.py
+++ b/atrcopy/mame.py
@@ -16,9 +16,16 @@ class MameZipImage(DiskImageBase):
         self.zipdata = rawdata
         fh = self.zipdata.bufferedio
         if zipfile.is_zipfile(fh):
-            with zipfile.ZipFile(fh) as zf:
-                self.check_zip_size(zf)
-                self.create_rawdata(zf)
+            try:
+                with zipfile.ZipFile(fh) as zf:
+                    self.check_zip_size(zf)
+                    self.create_rawdata(zf)
+            except errors.AtrError:
+                raise
+            except Exception as e:
+                # damaged or encrypted zip files can cause many different
+                # errors in the zipfile module and the decompressors it uses
+                raise errors.InvalidDiskImage("Can't read zip file: %s" % e)
         else:
             raise errors.InvalidDiskImage("Not a MAME zip file")
         DiskImageBase.__init__(self, self.rawdata, filename)
@@ -42,6 +49,8 @@ class MameZipImage(DiskImageBase):
                 raise errors.InvalidDiskImage("zip entry not 16 byte multiple")
 
     def create_rawdata(self, zf):
+        if not zf.infolist():
+            raise errors.InvalidDiskImage("Empty zip file")
         roms = []
         segment_info = []
         offset = 0
-- 
2.43.0


From c0aeff5e2c9be0b7d380df2772630b7c7fc89b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:04 +0000
Subject: [PATCH 62/66] fix: only the first of several -s, -d or -b options was
 used

---
 atrcopy/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index fb43b3b..87b844f 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -606,9 +606,9 @@ def run():
     if command == "create":
         create_image(options.template[0], disk_image_name)
     elif command == "boot":
-        asm = options.asm[0] if options.asm else []
-        data = options.data[0] if options.data else []
-        obj = options.obj[0] if options.obj else []
+        asm = sum(options.asm, []) if options.asm else []
+        data = sum(options.data, []) if options.data else []
+        obj = sum(options.obj, []) if options.obj else []
         boot_image(disk_image_name, asm, data, obj, options.run_addr)
     else:
         try:
@@ -634,9 +634,9 @@ def run():
             elif command == "extract":
                 extract_files(parser.image, options.files)
             elif command == "assemble":
-                asm = options.asm[0] if options.asm else []
-                data = options.data[0] if options.data else []
-                obj = options.obj[0] if options.obj else []
+                asm = sum(options.asm, []) if options.asm else []
+                data = sum(options.data, []) if options.data else []
+                obj = sum(options.obj, []) if options.obj else []
                 assemble(parser.image, asm, data, obj, options.run_addr)
             elif command == "segments":
                 print("\n".join([str(a) for a in parser.segments]))
-- 
2.43.0


From f59c4a594472dd14090e09950dd9edbdcbb704ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:06 +0000
Subject: [PATCH 63/66] fix: deleting a DOS 3.3 file with a wrong sector count
 freed the boot sector or left sectors allocated

---
 atrcopy/dos33.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index d1b8b4c..4c958ef 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -330,9 +330,13 @@ class Dos33Dirent(Dirent):
         self.get_track_sector_list(image)
         sectors = BaseSectorList(image.header)
         sectors.extend(self.track_sector_list)
-        for sector_num in self.sector_map:
-            sector = WriteableSector(image.header.sector_size, None, sector_num)
-            sectors.append(sector)
+        # every sector in the lists is in use, whatever the sector count in the
+        # catalog says; 0/0 is an unused entry and not the boot sector
+        for ts in self.track_sector_list:
+            for sector_num in ts.get_tslist():
+                if sector_num > 0:
+                    sector = WriteableSector(image.header.sector_size, None, sector_num)
+                    sectors.append(sector)
         return sectors
 
     def start_read(self, image):
-- 
2.43.0


From e4ed5cbf3b0cf2aac35649e876c74cfe66d654b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:58 +0000
Subject: [PATCH 64/66] fix: SpartaDOS images with an odd sector size raised
 ValueError instead of being rejected

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 02afce8..6bbe924 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -160,7 +160,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         self.total_sectors = values['num_sectors']
         self.unused_sectors = values['num_free']
         num = self.header.max_sectors
-        self.is_sane = self.total_sectors == num and values['first_free'] <= num and self.first_bitmap <= num and self.root_dir <= num and self.fs_version in [0x11, 0x20, 0x21] and self.sector_size != -1
+        self.is_sane = self.total_sectors == num and values['first_free'] <= num and self.first_bitmap <= num and self.root_dir <= num and self.fs_version in [0x11, 0x20, 0x21] and self.sector_size != -1 and self.header.sector_size % 2 == 0
         if not self.is_sane:
             raise errors.InvalidDiskImage("Invalid SpartaDos parameters in boot header")
 
-- 
2.43.0


From 08d81a1689d596ccb9ee6266ecd4bfe9be3e4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:48 +0000
Subject: [PATCH 65/66] fix: a saved session of raw data could not be restored

---
 atrcopy/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/parsers.py b/atrcopy/parsers.py
index 44340be..d993d63 100644
--- a/atrcopy/parsers.py
+++ b/atrcopy/parsers.py
@@ -108,6 +108,9 @@ class DefaultSegmentParser(SegmentParser):
     def parse(self):
         self.segments = [DefaultSegment(self.segment_data, 0)]
 
+    def get_image(self, r):
+        return None
+
 
 class KBootSegmentParser(SegmentParser):
     menu_name = "KBoot Disk Image"
-- 
2.43.0


From ad8735d63af01825fce8e2570bda037e2594260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:19 +0000
Subject: [PATCH 66/66] fix: creating an image by a documented template name
 was refused as ambiguous

---
 atrcopy/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 87b844f..1923254 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -376,6 +376,10 @@ def get_template_data(template):
     possibilities = get_template_images(template)
     if not possibilities:
         raise errors.InvalidDiskImage("Unknown template disk image %s" % template)
+    exact = {n: inf for n, inf in possibilities.items() if template in (n, os.path.splitext(n)[0])}
+    if len(exact) == 1:
+        # the full name of one template may also be part of the name of another
+        possibilities = exact
     if len(possibilities) > 1:
         raise errors.InvalidDiskImage("Name %s is ambiguous (%d matches: %s)" % (template, len(possibilities), ", ".join(sorted(possibilities.keys()))))
     name, inf = possibilities.popitem()
-- 
2.43.0

