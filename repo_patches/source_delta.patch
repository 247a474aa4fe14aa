From 19dc729879a7d5bdc7fdd6e5e929791f7a1a5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 01/58] fix: restore the disk image when a write, delete or
 shred fails

The saved state was a view of the live data, so rolling back was a no-op.
---
 atrcopy/diskimages.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..4d6fa27 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -159,6 +159,7 @@ class DiskImageBase(Bootable):
         self.get_metadata()
 
     def get_metadata(self):
+        self.all_sane = True
         self.get_boot_sector_info()
         self.get_vtoc()
         self.get_directory()
@@ -322,7 +323,8 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        # must be copies: a slice is only a view of the data being modified
+        state = self.bytes[:].copy(), self.style[:].copy()
         return state
 
     def rollback_transaction(self, state):
@@ -353,7 +355,7 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -387,7 +389,7 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -400,7 +402,7 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
-- 
2.43.0


From 15837291806dc54d8b0b551ffcd764ec9a99f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 02/58] fix: out of range sector raised NameError instead of
 ByteNotInFile166

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 4d6fa27..846c4fa 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From e1e1d5c0fb4a30437072cc1ad2ecd52ea06cf202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 03/58] fix: position of boot sectors 2 and 3 in double density
 images

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..3255dd6 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -417,7 +417,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From e1dc49c581ec6871b6da455d9670f738f9ebb1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 04/58] fix: keep existing Atari DOS directory entries intact
 when rewriting the directory

Names were re-encoded with NUL padding instead of blanks, so every add or
delete damaged all the other entries for a real Atari DOS.
---
 atrcopy/ataridos.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3255dd6..0597d88 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -95,6 +95,7 @@ class AtariDosDirent(Dirent):
         self.current_sector = 0
         self.current_read = 0
         self.sectors_seen = None
+        self.raw_dirent = None
         self.parse_raw_dirent(image, bytes)
 
     def __str__(self):
@@ -136,6 +137,7 @@ class AtariDosDirent(Dirent):
     def parse_raw_dirent(self, image, data):
         if data is None:
             return
+        self.raw_dirent = np.copy(data)
         values = data.view(dtype=self.format)[0]
         flag = values[0]
         self.flag = flag
@@ -156,11 +158,16 @@ class AtariDosDirent(Dirent):
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
         values = data.view(dtype=self.format)[0]
         flag = (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
+        if self.raw_dirent is not None:
+            # entry already on disk: only the flags can have changed
+            data[:] = self.raw_dirent
+            data[0] = flag | (self.raw_dirent[0] & 0x08)
+            return data
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        values[3] = b'%-8s' % self.basename
+        values[4] = b'%-3s' % self.ext
         return data
 
     def mark_deleted(self):
-- 
2.43.0


From 9a61cb7ddb83497b4e324909e0b5c8b54a29b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 05/58] fix: keep existing DOS 3.3 catalog entries intact when
 rewriting the catalog

The locked flag and any name character that is not plain high ASCII was lost
from every entry whenever some other file was added or deleted.
---
 atrcopy/dos33.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..e47e164 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -172,6 +172,7 @@ class Dos33Dirent(Dirent):
         self.current_read = 0
         self.sectors_seen = None
         self.sector_map = None
+        self.raw_dirent = None
         self.parse_raw_dirent(image, bytes)
 
     def __str__(self):
@@ -230,6 +231,7 @@ class Dos33Dirent(Dirent):
     def parse_raw_dirent(self, image, data):
         if data is None:
             return
+        self.raw_dirent = np.copy(data)
         values = data.view(dtype=self.format)[0]
         self.track = values[0]
         if self.track == 0xff:
@@ -239,13 +241,20 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
+        self.locked = (values[2] & 0x80) > 0
         self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
     def encode_dirent(self):
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
+        if self.raw_dirent is not None:
+            # entry already on disk: all that can have happened is a delete
+            data[:] = self.raw_dirent
+            if self.deleted and data[0] != 0xff:
+                data[0x20] = data[0]
+                data[0] = 0xff
+            return data
         values = data.view(dtype=self.format)[0]
         values[0] = 0xff if self.deleted else self.track
         values[1] = self.sector
-- 
2.43.0


From c7a29c39a108f38b5493089825a2286b5460be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 06/58] fix: unlocked DOS 3.3 text files ended the catalog
 listing

---
 atrcopy/dos33.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index e47e164..dc0b708 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -478,7 +478,8 @@ class Dos33DiskImage(DiskImageBase):
             i = 0xb
             while i < 256:
                 dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if dirent.flag == 0 and dirent.track == 0:
+                    # never used; a flag of zero by itself is an unlocked text file
                     break
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
-- 
2.43.0


From 7eed71ab7b4da74711a9b1dc2ce533573cb9a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 07/58] fix: last character of 30 character DOS 3.3 names was
 dropped

---
 atrcopy/dos33.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index dc0b708..09cda7e 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -242,7 +242,9 @@ class Dos33Dirent(Dirent):
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
         self.locked = (values[2] & 0x80) > 0
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        # the last character of the name is replaced by the track when deleted
+        name_end = 0x20 if self.deleted else 0x21
+        self.filename = (data[3:name_end] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
-- 
2.43.0


From 0e23104b69330a5e434534e3bf5cac9168f6a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 08/58] fix: deleting a file must not match an already deleted
 directory entry

The sectors of the stale entry would be freed a second time even if they
belong to some other file by now.
---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..e1f4569 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -223,11 +223,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From e72a78c8a724382a53fb3f3932c14a0f5383154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 09/58] fix: only reuse directory entries that are really
 deleted

DOS 2.5 files using sectors above 719 and MyDOS subdirectories do not have
the "in use" flag set, and were overwritten by the next file added.
---
 atrcopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index e1f4569..f8cc9cd 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -201,7 +201,7 @@ class Directory(BaseSectorList):
         if d:
             d.sort()
             for i, dirent in d:
-                if not dirent.in_use:
+                if dirent.deleted:
                     return i
                 used.add(i)
             if self.num_dirents > 0 and (len(used) >= self.num_dirents):
-- 
2.43.0


From 66fb23c48717f9a2ef4dc770688f810c422acf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 10/58] fix: Atari DOS directory holds 64 entries, 8 in each of
 its 8 sectors

The 65th file in single density overwrote sector 369. In double density only
the first half of each directory sector is used by DOS, so most files on real
disks were not listed and new ones were written where DOS does not look.
---
 atrcopy/ataridos.py   | 15 +++++++++++++--
 atrcopy/diskimages.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 0597d88..8783ecc 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,16 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    # only the first 128 bytes of each of the 8 directory sectors are used,
+    # even in double density
+    dirent_bytes_per_sector = 128
+
+    def __init__(self, header, num_dirents=64, sector_class=WriteableSector):
+        Directory.__init__(self, header, num_dirents, sector_class)
+
+    def get_dirent_sector(self):
+        return self.sector_class(self.dirent_bytes_per_sector)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
@@ -558,6 +568,7 @@ class AtariDosDiskImage(DiskImageBase):
 
     def get_directory(self, directory=None):
         dir_bytes, style = self.get_sectors(361, 368)
+        dir_bytes = dir_bytes.reshape(8, -1)[:,:AtariDosDirectory.dirent_bytes_per_sector].flatten()
         i = 0
         num = 0
         files = []
@@ -645,14 +656,14 @@ class AtariDosDiskImage(DiskImageBase):
         start, count = self.get_contiguous_sectors(361, 8)
         segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
-        index = 0
         for filenum in range(64):
+            dir_sector, dir_index = divmod(filenum * 16, AtariDosDirectory.dirent_bytes_per_sector)
+            index = dir_sector * self.header.sector_size + dir_index
             segment.set_comment_at(index + 0x00, "FILE #%d: Flag" % filenum)
             segment.set_comment_at(index + 0x01, "FILE #%d: Number of sectors in file" % filenum)
             segment.set_comment_at(index + 0x03, "FILE #%d: Starting sector number" % filenum)
             segment.set_comment_at(index + 0x05, "FILE #%d: Filename" % filenum)
             segment.set_comment_at(index + 0x0d, "FILE #%d: Extension" % filenum)
-            index += 16
         segments.append(segment)
         return segments
 
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 846c4fa..0f46993 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -376,7 +376,7 @@ class DiskImageBase(Bootable):
         for sector in sector_list:
             pos, size = self.header.get_pos(sector.sector_num)
             if _xd: log.debug("writing: %s at %d" % (sector, pos))
-            self.bytes[pos:pos + size] = sector.data
+            self.bytes[pos:pos + size][:len(sector.data)] = sector.data
 
     def delete_file(self, filename):
         state = self.begin_transaction()
-- 
2.43.0


From 2e201a97c938dc055a5dad9812d3732231f7d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 11/58] fix: last sector of the DOS 3.3 catalog was not usable

---
 atrcopy/dos33.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 09cda7e..d53e337 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -140,6 +140,8 @@ class Dos33Directory(Directory):
     def set_sector_numbers(self, image):
         current_sector = -1
         for sector in self.sectors:
+            if current_sector == 0:
+                raise errors.NoSpaceInDirectory("No space left in catalog")
             current_sector, next_sector = image.get_directory_sector_links(current_sector)
             sector.sector_num = current_sector
             t, s = image.header.track_from_sector(next_sector)
@@ -580,8 +582,6 @@ class Dos33DiskImage(DiskImageBase):
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From bac78d28d7bc0365ad87045a87795776d2cd9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 12/58] fix: keep the Atari DOS free sector count in step with
 the bitmap

Also, with more than one VTOC sector the bitmap is the one in sector 360.
---
 atrcopy/ataridos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 8783ecc..976d880 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -33,7 +33,9 @@ class AtariDosWriteableSector(WriteableSector):
 
 class AtariDosVTOC(VTOC):
     def parse_segments(self, segments):
-        self.vtoc1 = segments[0].data
+        # the first part of the bitmap is always in sector 360; any additional
+        # VTOC sectors come before it
+        self.vtoc1 = segments[0].data[-self.sector_size:]
         bits = np.unpackbits(self.vtoc1[0x0a:0x64])
         self.sector_map[0:720] = bits
         if _xd: log.debug("vtoc before:\n%s" % str(self))
@@ -41,6 +43,9 @@ class AtariDosVTOC(VTOC):
     def calc_bitmap(self):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
+        change = int(self.sector_map[0:720].sum()) - int(np.unpackbits(self.vtoc1[0x0a:0x64]).sum())
+        num_free = self.vtoc1[3:5].view(dtype='<u2')
+        num_free[0] = max(int(num_free[0]) + change, 0)
         self.vtoc1[0x0a:0x64] = packed
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
-- 
2.43.0


From bebd1a84adfafd3e5cddb9c2902b0205cab42f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 13/58] fix: reading and writing empty files

Writing one failed, and reading one returned the entire disk image.
---
 atrcopy/diskimages.py | 3 ++-
 atrcopy/segments.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 0f46993..3a88329 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -365,7 +365,8 @@ class DiskImageBase(Bootable):
         data = to_numpy(data)
         sectors = BaseSectorList(self.header)
         index = 0
-        while index < len(data):
+        while index < len(data) or len(sectors) == 0:
+            # even an empty file needs one sector
             count = min(self.header.payload_bytes, len(data) - index)
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..41bb486 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1090,7 +1090,7 @@ class DefaultSegment:
 
 class EmptySegment(DefaultSegment):
     def __init__(self, rawdata, name="", error=None):
-        DefaultSegment.__init__(self, rawdata, 0, name, error)
+        DefaultSegment.__init__(self, rawdata[0:0], 0, name, error)
 
     def __str__(self):
         s = "%s (empty file)" % (self.name, )
-- 
2.43.0


From 5d942b2a22ae7ea27dea7c7e203b12d9e08ac8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 14/58] fix: files added were not saved if the last one in the
 list was skipped

---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..58df276 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -154,7 +154,8 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        if save_file(image, name, filetype, data):
+            changed = True
     if changed:
         image.save()
 
-- 
2.43.0


From 60b39a174ba68c6e673dc985858ac00ec42b8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 15/58] fix: run address ignored when creating a KBoot image

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..d602f03 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
-- 
2.43.0


From fdc0e011544ee5c45af3ced3fe43a965a24f9f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 16/58] fix: size of KBoot executables of 64k or more

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index d602f03..7db8b6c 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -111,7 +111,7 @@ def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari us
         author = ""
     bootsize = np.alen(bootcode)
     v = bootcode[9:11].view(dtype="<u2")
-    v[0] = xex_size
+    bootcode[11], v[0] = divmod(xex_size, 65536)
 
     bootsectors = np.zeros([384], dtype=np.uint8)
     bootsectors[0:bootsize] = bootcode
-- 
2.43.0


From 1b61bd6507d3e9b68e20a849ee54a7455f6b434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 17/58] fix: endless loop on DOS 3.3 catalog or track/sector
 list that links to itself

---
 atrcopy/dos33.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index d53e337..cb23719 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -310,8 +310,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        sectors_seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in sectors_seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            sectors_seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
@@ -474,8 +478,12 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         num = 0
         files = []
+        sectors_seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in sectors_seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            sectors_seen.add(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
-- 
2.43.0


From 406dd5ece56923f14f505dbf1cd74b72333a4552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 18/58] fix: endless loop on MyDOS file that links to itself

---
 atrcopy/ataridos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 976d880..c619d1a 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -261,7 +261,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (raw[-3] << 8) + raw[-2]
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
-- 
2.43.0


From 84fb52611e4f6fae6be58518916594c92f26008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 19/58] fix: endless loop or crash on SpartaDOS files with a
 bad sector map

---
 atrcopy/spartados.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..4344812 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -209,13 +209,19 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        sectors_seen = set()
         while sector > 0:
+            if sector in sectors_seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            sectors_seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
                 m = np.copy(b[4:].view(dtype='<u2'))
             else:
                 m = np.hstack((m, b[4:].view(dtype='<u2')))
+        if m is None:
+            raise errors.InvalidFile("No sector map")
         return m
 
     def get_directory_segments(self):
-- 
2.43.0


From 3b346be3e8ee341bebb7c20ea9f58334d0fec969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 20/58] fix: reading SpartaDOS files that fill up their sector
 map

---
 atrcopy/spartados.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 4344812..285b007 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -96,7 +96,10 @@ class SpartaDosDirent(AtariDosDirent):
         self.length_remaining = self.length
 
     def read_sector(self, image):
-        sector = self.sector_map[self.sector_map_index]
+        if self.sector_map_index < len(self.sector_map):
+            sector = self.sector_map[self.sector_map_index]
+        else:
+            sector = 0  # the sector map can be completely full
         if sector == 0:
             return None, True, 0, self.length_remaining
         raw, pos, size = image.get_raw_bytes(sector)
-- 
2.43.0


From 6d3d93de75d5e8d3466f3acecfaa4fde27c3251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 21/58] fix: corrupt gzip data must not prevent trying the
 other formats

---
 atrcopy/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..ebd7210 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -1,6 +1,7 @@
 import gzip
 import bz2
 import lzma
+import zlib
 import io
 
 import numpy as np
@@ -55,7 +56,7 @@ class GZipContainer(DiskImageContainer):
             buf = io.BytesIO(byte_data)
             with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                 unpacked = f.read()
-        except OSError as e:
+        except (OSError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return unpacked
 
-- 
2.43.0


From 30c0c09612039e47ec1cd9cd5287f6ec78ed434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 22/58] fix: unallocated DOS 3.3 track/sector list entries are
 not boot sectors

Deleting a sparse file marked track 0, sector 0 as free.
---
 atrcopy/dos33.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index cb23719..c1a2b23 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -38,7 +38,9 @@ class Dos33TSSector(WriteableSector):
         while index < self.header.sector_size:
             t = self.data[index]
             s = self.data[index + 1]
-            sector_list.append(self.header.sector_from_track(t, s))
+            if t > 0 or s > 0:
+                # a pair of zeros is not a sector, there is nothing allocated
+                sector_list.append(self.header.sector_from_track(t, s))
             index += 2
         return sector_list
 
-- 
2.43.0


From eb0d8191364fdadd95da0c7a022cd143b71f8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 23/58] fix: interleaving segments that are themselves indexed

---
 atrcopy/segments.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 41bb486..2e64214 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
@@ -333,13 +333,7 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
-            data_base = self.data
-            style_base = self.style
-        else:
-            data_base = self.data.base
-            style_base = self.style.base
-        return data_base, style_base
+        return self.data_base, self.style_base
 
     def get_indexed(self, index):
         index = to_numpy_list(index)
-- 
2.43.0


From 2af4d82cc3c98e466282badb5b3782ef864a0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 24/58] fix: getting data parallel to an indexed segment

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 2e64214..a2d98af 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -544,7 +544,7 @@ class DefaultSegment:
         start, end = other.byte_bounds_offset()
         r = self.rawdata[start:end]
         if other.rawdata.is_indexed:
-            r = r.get_indexed[other.order]
+            r = r.get_indexed(other.rawdata.order)
         return r
 
     def serialize_session(self, mdict):
-- 
2.43.0


From b33b70cb0f948e0e0f46ef02f8bb9d34b196fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 25/58] fix: comparing indexed segments

---
 atrcopy/segments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index a2d98af..9cd6b05 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -107,6 +107,10 @@ class OrderWrapper:
         self.np_data[self.order] &= other
         return self
 
+    def __ior__(self, other):
+        self.np_data[self.order] |= other
+        return self
+
     def __getitem__(self, index):
         return self.np_data[self.order[index]]
 
@@ -1076,7 +1080,7 @@ class DefaultSegment:
 
     def compare_segment(self, other_segment):
         self.clear_style_bits(diff=True)
-        diff = self.rawdata.data != other_segment.rawdata.data
+        diff = self.rawdata.unindexed_data != other_segment.rawdata.unindexed_data
         d = diff * np.uint8(diff_bit_mask)
         self.style |= (diff * np.uint8(diff_bit_mask))
         log.debug("compare_segment: # entries %d, # diffs: %d" % (len(diff), len(np.where(diff == True)[0])))
-- 
2.43.0


From 7dd4baf1187d2a3f183275e2785153e13b4260d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 26/58] fix: iterating over the comments of an indexed segment

Among other things, an executable could not be created from one.
---
 atrcopy/segments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 9cd6b05..f744057 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1050,12 +1050,12 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
         for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+            try:
+                index = self.rawdata.get_reverse_index(k)
+            except IndexError:
+                continue
+            yield index, v
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From 984b026e186c702e26b9ca2ec5e9e9a7f1a9d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 27/58] fix: boot disk without a run address for Apple ][

---
 atrcopy/standard_delivery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..a426a6e 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -66,7 +66,7 @@ class StandardDeliveryImage(DiskImageBase):
     def create_boot_image(cls, segments, run_addr=None):
         raw = SegmentData(np.zeros([143360], dtype=np.uint8))
         dsk = cls(raw, create=True)
-        if run_addr is None:
+        if not run_addr:
             run_addr = segments[0].origin
 
         chunks = []
-- 
2.43.0


From ba9342475e83cd0ee470fcd59e12bbfe6c5afd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 28/58] fix: Apple ][ boot disk segments that share a page

The page loaded last zeroed the part that belongs to the other segment.
---
 atrcopy/standard_delivery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index a426a6e..577aedc 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -71,6 +71,10 @@ class StandardDeliveryImage(DiskImageBase):
 
         chunks = []
 
+        # Keep track of everything loaded so far, because segments may share a
+        # page and the loader replaces entire pages
+        memory = np.zeros([256 * 256], dtype=np.uint8)
+
         for s in segments:
             # find size in 256 byte chunks that start on a page boundary
             # since the loader only deals with page boundaries
@@ -82,8 +86,9 @@ class StandardDeliveryImage(DiskImageBase):
             else:
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
-            chunk = np.zeros([size], dtype=np.uint8)
-            chunk[padding:padding + len(s)] = s[:]
+            first = chunk_start * 256
+            memory[first + padding:first + padding + len(s)] = s[:]
+            chunk = memory[first:first + size].copy()
             chunks.append((chunk_start, chunk, show_hgr))
             print("segment: %s, pages=%d" % (str(s), len(chunk) // 256))
             log.debug(" last chunk=%s" % str(chunks[-1]))
-- 
2.43.0


From 8cc792fd3e4ae44e592e5c76033848bfea466b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 29/58] fix: report too many segments for an Apple ][ boot disk

---
 atrcopy/standard_delivery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 577aedc..ddc4b3c 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -174,4 +174,6 @@ def get_fstbt_code(data, address_list, run_addr):
     hi, lo = divmod(run_addr, 256)
     data[pointer:pointer + 2] = (lo, hi)
     address_list.append(0xc0)  # last sector flag
+    if pointer + 2 + len(address_list) > len(data):
+        raise errors.NotEnoughSpaceOnDisk("Too many segments to fit in boot sector")
     data[pointer + 2:pointer + 2 + len(address_list)] = address_list
-- 
2.43.0


From 31e79483796d7a0cef5d87250d4180009de3cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 30/58] fix: extract only to the specified directory, and
 nothing with --dry-run

A slash is legal in DOS 3.3 names; the file ended up somewhere else or was not
extracted at all.
---
 atrcopy/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 58df276..3b3e9e7 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -106,11 +106,12 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        output = dirent.filename
+        # path separators are legal in filenames on the disk image
+        output = dirent.filename.replace(os.sep, "_")
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
+            if not os.path.exists(options.dir) and not options.dry_run:
                 os.makedirs(options.dir)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
-- 
2.43.0


From 461596863ce4dd3e506210e5e120c7a25222de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 31/58] fix: boot command ignored --dry-run

---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 3b3e9e7..9063fe7 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -294,7 +294,8 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
-- 
2.43.0


From aa8eeb77bb2dade8f381bb8f247fae5921cda2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:36 +0000
Subject: [PATCH 32/58] fix: sector offset in second and later DOS 3.3
 track/sector lists

DOS uses it to find its way in files larger than 122 sectors.
---
 atrcopy/dos33.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index c1a2b23..ca1019e 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -23,6 +23,8 @@ class Dos33TSSector(WriteableSector):
             self.set_tslist(sector_list, start, end)
 
     def set_tslist(self, sector_list, start, end):
+        # index in the file of the first sector described by this list
+        self.data[6], self.data[5] = divmod(start, 256)
         index = 0xc
         for i in range(start, end):
             sector = sector_list[i]
-- 
2.43.0


From 0569fcad07bb7ffe66bae3ab872e9aa9786825d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:47 +0000
Subject: [PATCH 33/58] fix: sector positions in larger double density ATR
 images with short boot sectors

---
 atrcopy/ataridos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index c619d1a..3928196 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -429,6 +429,10 @@ class AtrHeader(BaseHeader):
             self.num_initial_sectors = 3
         else:
             self.image_size = size
+            if self.sector_size == 256 and size % 256 == 128:
+                # other double density sizes: first three sectors are 128 bytes
+                self.initial_sector_size = 128
+                self.num_initial_sectors = 3
         self.first_vtoc = 360
         self.num_vtoc = 1
         self.first_directory = 361
-- 
2.43.0


From 84cb7d45503efce178dbd6d4aaf343b95eccfadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 34/58] fix: converting a disk image to ATR format

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3928196..5680723 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -521,7 +521,7 @@ class AtariDosDiskImage(DiskImageBase):
         """
         first_data = len(self.header)
         raw = self.rawdata[first_data:]
-        data = add_atr_header(raw)
+        data = add_atr_header(raw.get_data())
         newraw = SegmentData(data)
         image = self.__class__(newraw)
         return image
-- 
2.43.0


From 64d01d5fdfa9bd838b6f95819c55879f7f921a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:54 +0000
Subject: [PATCH 35/58] fix: start of contiguous sectors at the very beginning
 of an image

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 3a88329..2c1e04b 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -254,7 +254,7 @@ class DiskImageBase(Bootable):
         count = 0
         for index in range(sector, sector + num):
             pos, size = self.header.get_pos(index)
-            if start == 0:
+            if index == sector:
                 start = pos
             count += size
         return start, count
-- 
2.43.0


From 87698e143767ee803f183f767b1938f1023a83a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 36/58] fix: delete command removed locked files without -f

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 9063fe7..b480015 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -169,6 +169,9 @@ def remove_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
+        if dirent.locked and not options.force:
+            print("skipping %s, locked. Use -f to remove" % name)
+            continue
         print("removing %s from %s" % (name, image))
         if not options.dry_run:
             image.delete_file(name)
-- 
2.43.0


From 1e4cbaf9f355f91eec83a62f5ea9115172e0b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 37/58] fix: all but the first of repeated -s, -d or -b options
 were ignored

---
 atrcopy/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index b480015..4f6e545 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -607,9 +607,9 @@ def run():
     if command == "create":
         create_image(options.template[0], disk_image_name)
     elif command == "boot":
-        asm = options.asm[0] if options.asm else []
-        data = options.data[0] if options.data else []
-        obj = options.obj[0] if options.obj else []
+        asm = sum(options.asm or [], [])
+        data = sum(options.data or [], [])
+        obj = sum(options.obj or [], [])
         boot_image(disk_image_name, asm, data, obj, options.run_addr)
     else:
         try:
@@ -635,9 +635,9 @@ def run():
             elif command == "extract":
                 extract_files(parser.image, options.files)
             elif command == "assemble":
-                asm = options.asm[0] if options.asm else []
-                data = options.data[0] if options.data else []
-                obj = options.obj[0] if options.obj else []
+                asm = sum(options.asm or [], [])
+                data = sum(options.data or [], [])
+                obj = sum(options.obj or [], [])
                 assemble(parser.image, asm, data, obj, options.run_addr)
             elif command == "segments":
                 print("\n".join([str(a) for a in parser.segments]))
-- 
2.43.0


From fc77ce229ac73ea3c5372aa7d4601c5fb99e7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 38/58] fix: deleted SpartaDOS files were listed, and found
 instead of newer ones

---
 atrcopy/spartados.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 285b007..5d058d8 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -178,7 +178,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         s = self.get_file_segment(d)
         for filenum, i in enumerate(range(23, d.length, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
-            self.files.append(dirent)
+            if dirent.in_use and not dirent.deleted:
+                self.files.append(dirent)
         self.root_dir_dirent = d
 
     def get_boot_segments(self):
-- 
2.43.0


From 3153da776b32fa7eb55fe09ebc926b052dc86abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 39/58] fix: length of SpartaDOS files of 8 MB or more

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 5d058d8..6767aed 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -13,7 +13,7 @@ class SpartaDosDirent(AtariDosDirent):
         ('status', 'u1'),
         ('sector', '<u2'),
         ('len_l', '<u2'),
-        ('len_h', 'i1'),
+        ('len_h', 'u1'),
         ('filename','S8'),
         ('ext','S3'),
         ('date','S3'),
-- 
2.43.0


From edb9414bebf0644a0d822e3d6a55ab667d3dafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 40/58] fix: ATR header with impossible sector size caused a
 crash

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5680723..5e6b4f5 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -388,6 +388,8 @@ class AtrHeader(BaseHeader):
                 raise errors.InvalidAtrHeader("no ATR header magic value")
             self.image_size = (int(values[3]) * 256 * 256 + int(values[1])) * 16
             self.sector_size = int(values[2])
+            if self.sector_size == 0 or self.sector_size % 128 > 0:
+                raise errors.InvalidAtrHeader("bad sector size %d" % self.sector_size)
             self.crc = int(values[4])
             self.unused = int(values[5])
             self.flags = int(values[6])
-- 
2.43.0


From ac6c9f93823e6c0b69cdc12c447c3254b9afcc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:33 +0000
Subject: [PATCH 41/58] fix: crash while checking signatures of small disk
 images

---
 atrcopy/magic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/magic.py b/atrcopy/magic.py
index 324afda..20aede3 100644
--- a/atrcopy/magic.py
+++ b/atrcopy/magic.py
@@ -53,7 +53,11 @@ magic = [
 
 def check_signature(raw, sig):
     for index, expected in sig:
-        actual = raw.data[index].tolist()
+        try:
+            actual = raw.data[index].tolist()
+        except IndexError:
+            log.debug(" failed at %s: not enough data" % str(index))
+            return False
         if actual == expected:
             log.debug(" match at %s: %s" % (str(index), str(expected)))
         if actual != expected:
-- 
2.43.0


From 5ff282cabebf2c067dffb0fda6c0c203132722c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:33 +0000
Subject: [PATCH 42/58] fix: crash on corrupt or empty zip files

---
 atrcopy/mame.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/atrcopy/mame.py b/atrcopy/mame.py
index 20850f1..83cbbfe 100644
--- a/atrcopy/mame.py
+++ b/atrcopy/mame.py
@@ -16,9 +16,16 @@ class MameZipImage(DiskImageBase):
         self.zipdata = rawdata
         fh = self.zipdata.bufferedio
         if zipfile.is_zipfile(fh):
-            with zipfile.ZipFile(fh) as zf:
-                self.check_zip_size(zf)
-                self.create_rawdata(zf)
+            try:
+                with zipfile.ZipFile(fh) as zf:
+                    self.check_zip_size(zf)
+                    self.create_rawdata(zf)
+            except errors.AtrError:
+                raise
+            except Exception as e:
+                # depending on what's wrong with the file, there are many
+                # different exceptions that the zipfile module may raise
+                raise errors.InvalidDiskImage("Invalid zip file: %s" % e)
         else:
             raise errors.InvalidDiskImage("Not a MAME zip file")
         DiskImageBase.__init__(self, self.rawdata, filename)
@@ -50,6 +57,8 @@ class MameZipImage(DiskImageBase):
             roms.append(rom)
             segment_info.append((offset, item.file_size, item.filename, item.CRC))
             offset += item.file_size
+        if not roms:
+            raise errors.InvalidDiskImage("Empty zip file")
         data = np.concatenate(roms)
         self.zip_segment_info = segment_info
         self.rawdata = SegmentData(data)
-- 
2.43.0


From edf6e465fd2706296b463f429bae7f6852e88d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:33 +0000
Subject: [PATCH 43/58] fix: crash on SpartaDOS image with an incomplete root
 directory

---
 atrcopy/spartados.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 6767aed..b576e58 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -176,7 +176,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         bytes, pos, size = self.get_raw_bytes(sector)
         d = SpartaDosDirent(self, 0, bytes[0:23], starting_sector=self.root_dir)
         s = self.get_file_segment(d)
-        for filenum, i in enumerate(range(23, d.length, 23)):
+        num_bytes = min(d.length, len(s))
+        for filenum, i in enumerate(range(23, num_bytes - 22, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
             if dirent.in_use and not dirent.deleted:
                 self.files.append(dirent)
@@ -230,6 +231,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_directory_segments(self):
         dirent = self.root_dir_dirent
+        if dirent is None:
+            return []
         segment = self.get_file_segment(dirent)
         segment.name = dirent.filename
         segment.map_width = 23
-- 
2.43.0


From cac1409c78f1efeaca864dcf4ba4c09612680d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 44/58] fix: KBoot image with user supplied boot code

---
 atrcopy/kboot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 7db8b6c..f0386a9 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -107,8 +107,8 @@ def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari us
     else:
         # don't insert title or author in user supplied bootcode; would have to
         # assume that the user supplied everything desired in their own code!
-        title = ""
-        author = ""
+        title = b""
+        author = b""
     bootsize = np.alen(bootcode)
     v = bootcode[9:11].view(dtype="<u2")
     bootcode[11], v[0] = divmod(xex_size, 65536)
-- 
2.43.0


From 40313d6778729ead79c5673e1d6bffa943438f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:05 +0000
Subject: [PATCH 45/58] fix: uncompressed data starting with zeros was mistaken
 for LZMA compressed data

---
 atrcopy/container.py | 83 --------------------------------------------
 1 file changed, 83 deletions(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index ebd7210..e69de29 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -1,83 +0,0 @@
-import gzip
-import bz2
-import lzma
-import zlib
-import io
-
-import numpy as np
-
-from . import errors
-from .segments import SegmentData
-from .utils import to_numpy
-
-
-class DiskImageContainer:
-    """Unpacker for disk image compression.
-
-    Disk images may be compressed by any number of techniques. Subclasses of
-    DiskImageContainer implement the `unpack_bytes` method which examines the
-    byte_data argument for the supported compression type, and if valid returns
-    the unpacked bytes to be used in the disk image parsing.
-    """
-    def __init__(self, data):
-        self.unpacked = self.__unpack_raw_data(data)
-
-    def __unpack_raw_data(self, data):
-        raw = data.tobytes()
-        try:
-            unpacked = self.unpack_bytes(raw)
-        except EOFError as e:
-            raise errors.InvalidContainer(e)
-        return to_numpy(unpacked)
-
-    def unpack_bytes(self, byte_data):
-        """Attempt to unpack `byte_data` using this unpacking algorithm.
-
-        `byte_data` is a byte string, and should return a byte string if
-        successfully unpacked. Conversion to a numpy array will take place
-        automatically, outside of this method.
-
-        If the data is not recognized by this subclass, raise an
-        InvalidContainer exception. This signals to the caller that a different
-        container type should be tried.
-
-        If the data is recognized by this subclass but the unpacking algorithm
-        is not implemented, raise an UnsupportedContainer exception. This is
-        different than the InvalidContainer exception because it indicates that
-        the data was indeed recognized by this subclass (despite not being
-        unpacked) and checking further containers is not necessary.
-        """
-        pass
-
-
-class GZipContainer(DiskImageContainer):
-    def unpack_bytes(self, byte_data):
-        try:
-            buf = io.BytesIO(byte_data)
-            with gzip.GzipFile(mode='rb', fileobj=buf) as f:
-                unpacked = f.read()
-        except (OSError, zlib.error) as e:
-            raise errors.InvalidContainer(e)
-        return unpacked
-
-
-class BZipContainer(DiskImageContainer):
-    def unpack_bytes(self, byte_data):
-        try:
-            buf = io.BytesIO(byte_data)
-            with bz2.BZ2File(buf, mode='rb') as f:
-                unpacked = f.read()
-        except OSError as e:
-            raise errors.InvalidContainer(e)
-        return unpacked
-
-
-class LZMAContainer(DiskImageContainer):
-    def unpack_bytes(self, byte_data):
-        try:
-            buf = io.BytesIO(byte_data)
-            with lzma.LZMAFile(buf, mode='rb') as f:
-                unpacked = f.read()
-        except lzma.LZMAError as e:
-            raise errors.InvalidContainer(e)
-        return unpacked
-- 
2.43.0


From a4a47cd8f72f5844881c54f39711213ee8157b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 46/58] fix: address of right slot 4 KB cartridges

---
 atrcopy/cartridge.py |  2 +-
 atrcopy/container.py | 87 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 88 insertions(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 4a822d8..2908b24 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -26,7 +26,7 @@ known_cart_types = [
     (0,  "", 0,),
     (57, "Standard 2 KB", 2, 2, 0, 0xb800),
     (58, "Standard 4 KB", 4, 4, 0, 0xb000),
-    (59, "Right slot 4 KB", 4, 4, 0, 0, 0x9000),
+    (59, "Right slot 4 KB", 4, 4, 0, 0x9000),
     (1,  "Standard 8 KB", 8, 8, 0, 0xa000),
     (21, "Right slot 8 KB", 8,),
     (2,  "Standard 16 KB", 16, 16, 0, 0x8000),
diff --git a/atrcopy/container.py b/atrcopy/container.py
index e69de29..c3e8fc6 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -0,0 +1,87 @@
+import gzip
+import bz2
+import lzma
+import zlib
+import io
+
+import numpy as np
+
+from . import errors
+from .segments import SegmentData
+from .utils import to_numpy
+
+
+class DiskImageContainer:
+    """Unpacker for disk image compression.
+
+    Disk images may be compressed by any number of techniques. Subclasses of
+    DiskImageContainer implement the `unpack_bytes` method which examines the
+    byte_data argument for the supported compression type, and if valid returns
+    the unpacked bytes to be used in the disk image parsing.
+    """
+    def __init__(self, data):
+        self.unpacked = self.__unpack_raw_data(data)
+
+    def __unpack_raw_data(self, data):
+        raw = data.tobytes()
+        try:
+            unpacked = self.unpack_bytes(raw)
+        except EOFError as e:
+            raise errors.InvalidContainer(e)
+        return to_numpy(unpacked)
+
+    def unpack_bytes(self, byte_data):
+        """Attempt to unpack `byte_data` using this unpacking algorithm.
+
+        `byte_data` is a byte string, and should return a byte string if
+        successfully unpacked. Conversion to a numpy array will take place
+        automatically, outside of this method.
+
+        If the data is not recognized by this subclass, raise an
+        InvalidContainer exception. This signals to the caller that a different
+        container type should be tried.
+
+        If the data is recognized by this subclass but the unpacking algorithm
+        is not implemented, raise an UnsupportedContainer exception. This is
+        different than the InvalidContainer exception because it indicates that
+        the data was indeed recognized by this subclass (despite not being
+        unpacked) and checking further containers is not necessary.
+        """
+        pass
+
+
+class GZipContainer(DiskImageContainer):
+    def unpack_bytes(self, byte_data):
+        try:
+            buf = io.BytesIO(byte_data)
+            with gzip.GzipFile(mode='rb', fileobj=buf) as f:
+                unpacked = f.read()
+        except (OSError, zlib.error) as e:
+            raise errors.InvalidContainer(e)
+        return unpacked
+
+
+class BZipContainer(DiskImageContainer):
+    def unpack_bytes(self, byte_data):
+        try:
+            buf = io.BytesIO(byte_data)
+            with bz2.BZ2File(buf, mode='rb') as f:
+                unpacked = f.read()
+        except OSError as e:
+            raise errors.InvalidContainer(e)
+        return unpacked
+
+
+class LZMAContainer(DiskImageContainer):
+    def unpack_bytes(self, byte_data):
+        try:
+            # raw LZMA streams have no magic number, so uncompressed data might
+            # look like one except for the size of the dictionary
+            if byte_data[0:1] != b'\xfd' and int.from_bytes(byte_data[1:5], 'little') < 4096:
+                raise errors.InvalidContainer("Not an LZMA file")
+            buf = io.BytesIO(byte_data)
+            with lzma.LZMAFile(buf, mode='rb') as f:
+                unpacked = f.read()
+        except lzma.LZMAError as e:
+            raise errors.InvalidContainer(e)
+        return unpacked
-- 
2.43.0


From 90112a525db15e0a83b7cab8a7565adbe372b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:37 +0000
Subject: [PATCH 47/58] fix: searching backwards skipped a mark directly in
 front of the position

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index f744057..11c4396 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -795,7 +795,7 @@ class DefaultSegment:
     def find_previous(self, index, **kwargs):
         ranges = self.get_style_ranges(**kwargs)
         if len(ranges) > 0:
-            index_tuple = (index - 1, 0)
+            index_tuple = (index, 0)
             match_index = bisect.bisect_left(ranges, index_tuple)
             match_index -= 1
             if match_index < 0:
-- 
2.43.0


From 846bbf7f6634baefa3323f1b6ff7121b71307e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:37 +0000
Subject: [PATCH 48/58] fix: restoring an empty segment with a byte order gave
 the entire data

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 11c4396..39d4cdd 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -534,7 +534,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From 74c561b830ac8017b73945399acabdc1549d39e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:53 +0000
Subject: [PATCH 49/58] fix: missing error class for operations that are not
 implemented

---
 atrcopy/errors.py | 75 -----------------------------------------------
 1 file changed, 75 deletions(-)

diff --git a/atrcopy/errors.py b/atrcopy/errors.py
index f27abee..e69de29 100644
--- a/atrcopy/errors.py
+++ b/atrcopy/errors.py
@@ -1,75 +0,0 @@
-class AtrError(RuntimeError):
-    pass
-
-
-class InvalidAtrHeader(AtrError):
-    pass
-
-
-class InvalidCartHeader(AtrError):
-    pass
-
-
-class InvalidDiskImage(AtrError):
-    """ Disk image is not recognized by a parser.
-
-    Usually a signal to try the next parser; this error doesn't propagate out
-    to the user much.
-    """
-    pass
-
-
-class UnsupportedDiskImage(AtrError):
-    """ Disk image is recognized by a parser but it isn't supported yet.
-
-    This error does propagate out to the user.
-    """
-    pass
-
-
-class InvalidDirent(AtrError):
-    pass
-
-
-class LastDirent(AtrError):
-    pass
-
-
-class InvalidFile(AtrError):
-    pass
-
-
-class FileNumberMismatchError164(InvalidFile):
-    pass
-
-
-class ByteNotInFile166(InvalidFile):
-    pass
-
-
-class InvalidBinaryFile(InvalidFile):
-    pass
-
-
-class InvalidSegmentParser(AtrError):
-    pass
-
-
-class NoSpaceInDirectory(AtrError):
-    pass
-
-
-class NotEnoughSpaceOnDisk(AtrError):
-    pass
-
-
-class FileNotFound(AtrError):
-    pass
-
-
-class UnsupportedContainer(AtrError):
-    pass
-
-
-class InvalidContainer(AtrError):
-    pass
-- 
2.43.0


From 7732921073838b446918d0fd6b476a72f9640b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 50/58] fix: a container segment could only be resized once

---
 atrcopy/errors.py   | 79 +++++++++++++++++++++++++++++++++++++++++++++
 atrcopy/segments.py |  5 +--
 2 files changed, 82 insertions(+), 2 deletions(-)

diff --git a/atrcopy/errors.py b/atrcopy/errors.py
index e69de29..75ffd59 100644
--- a/atrcopy/errors.py
+++ b/atrcopy/errors.py
@@ -0,0 +1,79 @@
+class AtrError(RuntimeError):
+    pass
+
+
+class NotImplementedError(AtrError):
+    pass
+
+
+class InvalidAtrHeader(AtrError):
+    pass
+
+
+class InvalidCartHeader(AtrError):
+    pass
+
+
+class InvalidDiskImage(AtrError):
+    """ Disk image is not recognized by a parser.
+
+    Usually a signal to try the next parser; this error doesn't propagate out
+    to the user much.
+    """
+    pass
+
+
+class UnsupportedDiskImage(AtrError):
+    """ Disk image is recognized by a parser but it isn't supported yet.
+
+    This error does propagate out to the user.
+    """
+    pass
+
+
+class InvalidDirent(AtrError):
+    pass
+
+
+class LastDirent(AtrError):
+    pass
+
+
+class InvalidFile(AtrError):
+    pass
+
+
+class FileNumberMismatchError164(InvalidFile):
+    pass
+
+
+class ByteNotInFile166(InvalidFile):
+    pass
+
+
+class InvalidBinaryFile(InvalidFile):
+    pass
+
+
+class InvalidSegmentParser(AtrError):
+    pass
+
+
+class NoSpaceInDirectory(AtrError):
+    pass
+
+
+class NotEnoughSpaceOnDisk(AtrError):
+    pass
+
+
+class FileNotFound(AtrError):
+    pass
+
+
+class UnsupportedContainer(AtrError):
+    pass
+
+
+class InvalidContainer(AtrError):
+    pass
diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 39d4cdd..171930b 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -183,8 +183,9 @@ class SegmentData:
     def resize(self, newsize):
         if self.data.base is None:
             try:
-                newdata = np.resize(self.data, (newsize,))
-                newstyle = np.resize(self.style, (newsize,))
+                # np.resize returns a view, but this needs to remain a base array
+                newdata = np.resize(self.data, (newsize,)).copy()
+                newstyle = np.resize(self.style, (newsize,)).copy()
             except:
                 raise
             else:
-- 
2.43.0


From acb3f04d8eb7f2e54b0bf18444c363c4b36dff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:43 +0000
Subject: [PATCH 51/58] fix: boot header of SpartaDOS images was listed twice
 and broke restoring segments

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index b576e58..f753345 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -194,7 +194,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         if self.num_boot > 0:
             sectors = ObjSegment(r, 0, 0, addr, addr + len(r), name="Boot Sectors")
             code = ObjSegment(r[43:], 0, 0, addr + 43, addr + len(r), name="Boot Code")
-            segments.extend([header, code])
+            segments.append(code)
         return segments
 
     def get_vtoc_segments(self):
-- 
2.43.0


From 1f58fbc1326aef90b43556d2365fa97c66256969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:43 +0000
Subject: [PATCH 52/58] fix: parsers of cartridges could not be restored from
 jsonpickle

---
 atrcopy/parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atrcopy/parsers.py b/atrcopy/parsers.py
index 44340be..ab1b42d 100644
--- a/atrcopy/parsers.py
+++ b/atrcopy/parsers.py
@@ -413,6 +413,7 @@ for k in sizes:
             key = "application/vnd.atari8bit.cart"
             kclass = type("Atari8bitCartSegmentParser%d" % t, (Atari8bitCartParser, AtariCartSegmentParser), {'cart_type': t, 'cart_info': c, 'menu_name': "%s Cartridge" % name})
         mime_parsers[key].append(kclass)
+        globals()[kclass.__name__] = kclass  # must be importable for jsonpickle
 
 
 known_segment_parsers = [DefaultSegmentParser]
-- 
2.43.0


From 27d43fd3a4fc31f9bdeb28ab9ed6519a3e314828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:51 +0000
Subject: [PATCH 53/58] fix: open ROMs listed in the checksum database whatever
 their size

---
 atrcopy/cartridge.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 2908b24..0dbfe56 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -340,16 +340,26 @@ class RomImage(DiskImageBase):
         return s
 
 
-class Atari2600CartImage(RomImage):
+class KnownRomImage(RomImage):
+    """ROM identified by its checksum, so it can be of any size unless a
+    strict check is requested"""
+    def strict_check(self):
+        RomImage.check_size(self)
+
+    def check_size(self):
+        pass
+
+
+class Atari2600CartImage(KnownRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Atari 2600 Cartridge"
 
 
-class Atari2600StarpathImage(RomImage):
+class Atari2600StarpathImage(KnownRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Atari 2600 Starpath Cassette"
 
 
-class VectrexCartImage(RomImage):
+class VectrexCartImage(KnownRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Vectrex Cartridge"
-- 
2.43.0


From 6d881ebb72dcba9b3ea7eb280cf90709b8bfcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:49 +0000
Subject: [PATCH 54/58] fix: VTOC and directory segments label double density
 sectors correctly

---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5e6b4f5..8209d96 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -643,7 +643,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(self.first_vtoc, self.num_vtoc)
-        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 128, 3, self.header.sector_size, name="VTOC")
+        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 0, 0, self.header.sector_size, name="VTOC")
         segment.style[:] = get_style_bits(data=True)
         segment.set_comment_at(0x00, "Type code")
         segment.set_comment_at(0x01, "Total number of sectors")
@@ -655,7 +655,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments.append(segment)
         if self.vtoc2 > 0:
             start, count = self.get_contiguous_sectors(self.vtoc2, 1)
-            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 128, 3, self.header.sector_size, name="VTOC2")
+            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 0, 0, self.header.sector_size, name="VTOC2")
             segment.style[:] = get_style_bits(data=True)
             segment.set_comment_at(0x00, "Repeat of sectors 48-719")
             segment.set_comment_at(0x44, "Sector bit map 720-1023")
@@ -669,7 +669,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(361, 8)
-        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
+        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 0, 0, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
         for filenum in range(64):
             dir_sector, dir_index = divmod(filenum * 16, AtariDosDirectory.dirent_bytes_per_sector)
-- 
2.43.0


From 4ba62695864e16beee9e10be03ee4ed507140ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:22 +0000
Subject: [PATCH 55/58] fix: show the parts of executables on Atari DOS disks
 as segments

---
 atrcopy/ataridos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 8209d96..2044462 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -706,6 +706,7 @@ class AtariDosDiskImage(DiskImageBase):
             segments_out.append(segment)
             try:
                 binary = AtariDosFile(segment.rawdata)
+                binary.parse_segments()
                 segments_out.extend(binary.segments)
             except errors.InvalidBinaryFile:
                 log.debug("%s not a binary file; skipping segment generation" % str(segment))
-- 
2.43.0


From d57dcf46347eb869b71d416c72f249af177d82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 56/58] fix: a single byte is not an executable

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 2044462..eb73382 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -326,6 +326,8 @@ class AtariDosFile(Bootable):
         while pos < self.size:
             if pos + 1 < self.size:
                 header, = b[pos:pos+2].view(dtype='<u2')
+            elif first:
+                raise errors.InvalidBinaryFile("Object file doesn't start with 0xffff")
             else:
                 self.segments.append(ObjSegment(r[pos:pos + 1], pos, pos + 1, 0, 1, "Incomplete Data"))
                 break
-- 
2.43.0


From badbe21ca0ac0748193aa32ced14c0f0f03a9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:52 +0000
Subject: [PATCH 57/58] fix: show the boot sectors of Atari DOS disks

---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index eb73382..08ddac1 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -625,12 +625,12 @@ class AtariDosDiskImage(DiskImageBase):
         ])
 
     def get_boot_segments(self):
-        data, style = self.get_sectors(360)
+        data, style = self.get_sectors(1)
         values = data[0:20].view(dtype=self.boot_record_type)[0]
         flag = int(values[0])
+        num = int(values[1])
         segments = []
-        if flag == 0:
-            num = int(values[1])
+        if flag == 0 and self.header.sector_is_valid(num):
             addr = int(values[2])
             s = self.get_sector_slice(1, num)
             r = self.rawdata[s]
-- 
2.43.0


From f9e75fc1d42dc10d2f659b19ebd4705780e483ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:00 +0000
Subject: [PATCH 58/58] fix: show all boot sectors of SpartaDOS disks

---
 atrcopy/spartados.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index f753345..6262fb8 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -185,7 +185,9 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_boot_segments(self):
         segments = []
-        num = min(self.num_boot, 1)
+        num = max(int(self.num_boot), 1)
+        if not self.header.sector_is_valid(num):
+            num = 1
         s = self.get_sector_slice(1, num)
         r = self.rawdata[s]
         addr = self.boot_addr
-- 
2.43.0

