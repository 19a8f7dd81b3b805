From 7ab5da604025f7007937afc6f81ce718604f66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 001/116] fix: replace the SRR file in one step when stored
 files are edited

A failing write, close or rename while adding, removing or renaming a
stored file could lose the whole SRR or leave a temporary file behind:
the original was removed before its replacement was in place.
---
 rescene/main.py    | 26 ++++++++++++++------------
 rescene/rar.py     | 23 ++++++++++++++---------
 rescene/utility.py | 11 +++++++++++
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..89be78d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -58,7 +58,7 @@ from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
-from rescene.utility import capitalized_fn
+from rescene.utility import capitalized_fn, replace_file
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -325,20 +325,20 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
-	except:
-		tmpfile.close()
-		os.unlink(tmpname)
-		raise
-	else:
-		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
 #			os.remove(tmpname)
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
+		tmpfile.close()
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
+	except:
+		try:
+			tmpfile.close()
+		finally:
+			os.unlink(tmpname)
+		raise
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -368,11 +368,13 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
-		os.unlink(tmpname)
+		try:
+			tmpfile.close()
+		finally:
+			os.unlink(tmpname)
 		raise
 
 def rename_stored_file(srr_file, stored_name, new_name):
diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..e3c0ab5 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,15 +669,20 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
-			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+		try:
+			with open(self.fname, "rb") as f:
+				tmpfile.write(f.read(self.block_position)) # previous block data
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
+			tmpfile.close()
+			utility.replace_file(tmpname, self.fname)
+		except:
+			try:
+				tmpfile.close()
+			finally:
+				os.unlink(tmpname)
+			raise
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..c2d07a6 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -465,6 +465,17 @@ def create_temp_file_name(output_file):
 
 	return tmpfile
 
+def replace_file(src, dest):
+	"""Moves src over dest in one step: whatever happens, dest is either
+	the complete old file or the complete new one."""
+	try:
+		replace = os.replace
+	except AttributeError: # Python 2
+		replace = os.rename
+		if os.name == "nt" and os.path.isfile(dest):
+			os.remove(dest) # no overwriting rename available
+	replace(src, dest)
+
 def replace_result(src, dest):
 	"""Replaces the destination file with the source file.
 	Will not do anything when the source file doesn't exist.
-- 
2.43.0


From 271bf713ab3ab6ba8681b95e05459329ad80e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 002/116] fix: read RAR file names stored as plain UTF-8

With the Unicode flag set and no zero byte in the name field, the whole
field is the UTF-8 name. It was cut and decoded as if a separate encoded
part existed, which raised IndexError or returned a wrong name.
---
 rescene/rar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index e3c0ab5..26461b5 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1053,9 +1053,15 @@ class RarPackedFileBlock(RarBlock): # 0x74
 		self._p += filename_length
 		if self.flags & RarPackedFileBlock.UTF8_FILE_NAME:
 			null = self.file_name.find(ZERO) # index zero byte
-			self.orig_filename = self.file_name[:null]
-			u = UnicodeFilename(self.orig_filename, self.file_name[null + 1:])
-			self.unicode_filename = u.decode()
+			if null == -1: # no separate Unicode part: the name is UTF-8
+				self.orig_filename = self.file_name
+				self.unicode_filename = self.file_name.decode("utf-8",
+				                                              "replace")
+			else:
+				self.orig_filename = self.file_name[:null]
+				u = UnicodeFilename(self.orig_filename,
+				                    self.file_name[null + 1:])
+				self.unicode_filename = u.decode()
 		else:
 			self.orig_filename = self.file_name
 			self.unicode_filename = self.file_name.decode(DEFAULT_CHARSET, 
-- 
2.43.0


From f66a21e10928215ad4ad4dd1069550b0873a1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 003/116] fix: do not store ../ paths for files outside the
 input folder

The guard compared text with bytes, so it never triggered on Python 3
and names such as ../../file.nfo ended up in the SRR.
---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 89be78d..2d7347a 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1582,7 +1582,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name[:2] == "..":
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From c196a4d5f2b0036f03504134cb784055188176c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 004/116] fix: rebuild selected volumes from the right position
 of the source

When only some volumes are reconstructed, the position in the packed file
was taken from the last skipped volume even if the selected volume (also)
holds the start of another file, and it was not updated between selected
volumes. The volume was then filled with the wrong data or zeros, or
reconstruction stopped with an exception. The checksum over the complete
file in the last volume was reported as wrong for correct files.
---
 rescene/main.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2d7347a..f6755b8 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1215,9 +1215,11 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		RarArguments.mt_settings = rar_mt
 	
 	skip_volume = False # helps to reconstruct a single volume
-	skip_offset = 0
+	packed_name = None # file the current block has data of
+	packed_offset = 0 # position of that data in the packed file
+	next_offset = 0
+	crc_offset = 0 # running_crc is over the data before this position
 	partial_reconstruction = srr_part != "" and srr_part is not None
-	partial_set = False
 	
 	global temp_dir
 	temp_dir = tmp_dir
@@ -1261,7 +1263,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				if (srr_part.endswith("*") and
 				    block.file_name.startswith(srr_part[:-1])):
 					skip_volume = False
-					partial_set = True
 
 			# We need to create a RAR file for each SRR block.
 			# Get the stored name and create it.
@@ -1294,15 +1295,14 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				rarfs.write(block.block_bytes())
 				# TODO: !!! not fully copied?
 		elif block.rawtype == BlockType.RarPackedFile:
+			# keep track of offsets in the packed file
+			if packed_name != block.file_name:
+				packed_name = block.file_name
+				next_offset = 0
+			packed_offset = next_offset
+			next_offset += block.packed_size
+
 			if skip_volume:
-				# keep track of offsets in the packed file
-				if source_name != block.file_name:
-					skip_offset = block.packed_size
-				else:
-					skip_offset += block.packed_size
-				
-				source_name = block.file_name
-				running_crc = 0
 				continue
 
 			# This is the main RAR block and treat it differently.
@@ -1317,13 +1317,12 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
-			if (source_name != block.file_name
-				or (partial_reconstruction and not partial_set)
-				or (partial_set and source_name != block.file_name)):
+			if source_name != block.file_name:
 				try: srcfs.close()
 				except: pass
 				source_name = block.file_name
 				running_crc = 0
+				crc_offset = 0
 				try:
 					# block is a directory: make it not crash
 					if block.flags & block.DIRECTORY == block.DIRECTORY:
@@ -1354,9 +1353,20 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 						raise
 			assert srcfs
 			
-			# make sure the offset is correct
-			if partial_reconstruction and not partial_set:
-				srcfs.seek(skip_offset)
+			# make sure the offset is correct after skipped volumes
+			if packed_offset != crc_offset:
+				if not skip_rar_crc and not block.is_compressed():
+					# the CRC in the last volume is the one of the whole file
+					srcfs.seek(crc_offset)
+					while crc_offset < packed_offset:
+						data = srcfs.read(min(0x10000,
+						                      packed_offset - crc_offset))
+						if not len(data):
+							break
+						running_crc = zlib.crc32(data, running_crc)
+						crc_offset += len(data)
+				srcfs.seek(packed_offset)
+			crc_offset = next_offset
 			
 			# then grab the correct amount of data from the extracted file
 			running_crc = _repack(block, rarfs, in_folder, srcfs, running_crc, 
-- 
2.43.0


From 6bfef6d40349cc5cc04a90e7bc6a28456643f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 005/116] fix: start reading at the first volume that holds
 data of the file

---
 rescene/rarstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..ffff059 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -87,6 +87,8 @@ class RarStream(io.IOBase):
 		except IndexError:
 			# IndexError: list index out of range
 			raise AttributeError("File not found in the archive.")
+		# the first volume can have a packed file block without any data
+		self.seek(0)
 
 	def _process(self, rar_file, packed_file_name=None, compressed=False):
 		"""Checks if the rar_file has the packed_file and adds 
-- 
2.43.0


From 06236dccffe3f48f87d875407f319e710377efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 006/116] fix: keep the old file when its replacement fails

---
 rescene/utility.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index c2d07a6..b71de87 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -491,31 +491,12 @@ def replace_result(src, dest):
 	# it is possible a temporary source file was never created
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
-		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
-			try:
-				os.unlink(dest)
-			except OSError as delete_error:
-				print("Two processes are now trying to delete the same file!")
-				print(delete_error)
-				if _DEBUG:
-					print("  Destination: {0}".format(dest))
-# TODO: work in progress missing srs files					
-# 					assert False
-# 					
-# 		# wait 5 seconds for the file to disappear
-# 		for _ in range(0, 5):
-# 			if os.path.isfile(dest):
-# 				time.sleep(1)
-# 			else:
-# 				break
-# 		else:
-# 			print("Destination file still not deleted!")
-
+		# the previous file is replaced if it exists: user allowed to
+		# overwrite it (and it stays when the replacement fails)
 		# concurrency issue: it can fail here with a
 		# WindowsError/OSError when the other process made the file
 		try:
-			os.rename(src, dest)
+			replace_file(src, dest)
 		except OSError:
 			print("Two processes are now trying to output the same file!")
 			if _DEBUG:
-- 
2.43.0


From faf6d7399e8574efc3344b6a27bef06ee0e1aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 007/116] fix: remove the temporary file and not the existing
 SRR when creation fails

---
 rescene/srr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..5f7246c 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -363,8 +363,8 @@ def create_srr(options, infolder, infiles, working_dir):
 # 	print("infiles: %s" % infiles, file=sys.stderr)
 # 	print("infolder: %s" % infolder, file=sys.stderr)
 # 	print("store files: %s" % store_files, file=sys.stderr)
+	tmp_srr_name = create_temp_file_name(srr_name)
 	try:
-		tmp_srr_name = create_temp_file_name(srr_name)
 		success = rescene.create_srr(srr_name, infiles, infolder,
 	                                 store_files, save_paths,
 	                                 options.allow_compressed,
@@ -384,17 +384,17 @@ def create_srr(options, infolder, infiles, working_dir):
 		# ValueError: The file is too small.
 		# EmptySfv: can't create a useful file in this case
 		# FileNotFound: Linux file systems are case sensitive
-
-		# make sure there is no broken SRR file/temporary file left
-		try:
-			os.unlink(srr_name)
-		except:
-			pass
 		mthread.done = True
 		mthread.join()
 		print(err, file=sys.stderr)
 		print("SRR creation failed. Aborting.", file=sys.stderr)
 		return 1
+	finally:
+		# make sure there is no broken temporary file left
+		try:
+			os.unlink(tmp_srr_name)
+		except OSError:
+			pass # it became the SRR file or never existed
 
 def main(argv=None):
 	global parser
-- 
2.43.0


From 8e32bcd93db8a715835700b49b38519e7573e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 008/116] fix: report corruption instead of failing on exit
 with two arguments

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..c5401d0 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -650,7 +650,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From 9c717a0a6ffc422fd055a3b24c930e146be1ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 009/116] fix: remove the temporary SRS file when creation
 fails

---
 resample/srs.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index c5401d0..2e2a61e 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -363,10 +363,15 @@ def main(argv=None, no_exit=False):
 
 			srs_name_tmp = create_temp_file_name(srs_name)
 
-			sample.create_srs(tracks, sample_file_data, sample_file,
-			                  srs_name_tmp, options.big_file)
-
-			replace_result(srs_name_tmp, srs_name)
+			try:
+				sample.create_srs(tracks, sample_file_data, sample_file,
+				                  srs_name_tmp, options.big_file)
+
+				replace_result(srs_name_tmp, srs_name)
+			finally:
+				# no partial SRS file after a failure
+				if os.path.exists(srs_name_tmp):
+					os.unlink(srs_name_tmp)
 
 			if no_exit:
 				# just print the file name from pyReScene Auto
-- 
2.43.0


From 029284ac6e48c8672cf0fb2fd16be2d1f01d854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 010/116] fix: a failed sample rebuild does not delete the file
 it would replace

---
 resample/srs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index 2e2a61e..468c5b9 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -615,8 +615,7 @@ def main(argv=None, no_exit=False):
 				else:
 					# delete reconstruction failure
 					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
+						os.unlink(out_file)
 					elif is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
@@ -624,8 +623,7 @@ def main(argv=None, no_exit=False):
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
 						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
+							os.unlink(out_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
-- 
2.43.0


From 87a84a94084eed557677b0559df6f65df35e467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 011/116] fix: mark track numbers above 65535 in the SRS so
 they can be read back

---
 resample/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..b260281 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -440,6 +440,9 @@ class TrackData(object):
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
 
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER  # read back as 4 bytes
+
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-- 
2.43.0


From 763f485433aec0dfc06c4adcaf24140c60d2965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 012/116] fix: read MKV unsigned integer elements without
 removing length bits

---
 resample/ebml.py |  7 +++++++
 resample/main.py | 18 +++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..0884e53 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -73,6 +73,13 @@ def GetEbmlUInt(buff, offset, count):
 
 	return size  # integer size
 
+def GetUInt(buff):
+	"""Value of an unsigned integer element (big-endian, no length bits)"""
+	number = 0
+	for i in range(len(buff)):
+		number = (number << 8) + BE_BYTE.unpack_from(buff, i)[0]
+	return number
+
 def GetEbmlUIntStream(stream):
 	(first_byte,) = BE_BYTE.unpack(stream.read(1))
 	bytes_consumed = GetUIntLength(first_byte)
diff --git a/resample/main.py b/resample/main.py
index b260281..870ba5e 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -50,7 +50,7 @@ from rescene.utility import _DEBUG
 from rescene.utility import FileType
 
 from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
-from resample.ebml import GetEbmlUInt, MakeEbmlUInt, EbmlID
+from resample.ebml import GetUInt, MakeEbmlUInt, EbmlID
 from resample.riff import RiffReader, RiffReadMode, RiffChunkType
 from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
@@ -763,7 +763,7 @@ def mkv_load_srs(self, infile):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			done = False
 		elif er.element_type == EbmlElementType.TrackCodec:
 			elm_content = er.read_contents()
@@ -775,7 +775,7 @@ def mkv_load_srs(self, infile):
 					elm_content.decode("ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3  # 3: header stripping
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -1106,7 +1106,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -1126,7 +1126,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 1: bzlib
 			# 2: lzo1x
 			# 3: header stripping
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
@@ -2271,7 +2271,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			done = _mkv_block_find(self, tracks, er, done, tracks_main)
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -2284,7 +2284,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -3123,7 +3123,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -3136,7 +3136,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-- 
2.43.0


From e31621639c7fb20a5e6591a33ebe177fbbfc3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 013/116] fix: find and extract MKV frames with different
 stripped header bytes

---
 resample/main.py | 59 ++++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 870ba5e..c149087 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2298,6 +2298,13 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 	er.close()
 	return tracks
 
+def mkv_sample_frame(buff, offset, length, sforsample, sformain):
+	"""The frame of the main file as it must be in the sample: header bytes
+	stripped from the main file are added and the ones stripped from the
+	sample removed. These header bytes can differ for both files."""
+	frame = sforsample + buff[offset:offset + length]
+	return frame[len(sformain):]
+
 def _mkv_block_find(self, tracks, er, done, tracks_main):
 	# grab track or create new track
 	track_number = er.current_element.track_number
@@ -2331,17 +2338,15 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 		buff = er.read_contents()
 		offset = 0
 		for i in range(len(er.current_element.frame_lengths)):
-			flength = (er.current_element.frame_lengths[i] +
-			           len(sforsample) - len(sformain))
+			frame = mkv_sample_frame(buff, offset,
+				er.current_element.frame_lengths[i], sforsample, sformain)
+			flength = len(frame)
 			# see if a false positive match was detected
 			if (0 < len(track.check_bytes) < len(track.signature_bytes)):
 				lcb = min(len(track.signature_bytes),
 				          flength + len(track.check_bytes))
 				check_bytes = track.check_bytes  # from sample
-				check_bytes += sforsample  # stored settings from main video
-				check_bytes += buff[offset + len(sformain):
-									offset + len(sformain) + lcb -
-									len(track.check_bytes) - len(sforsample)]
+				check_bytes += frame[:lcb - len(track.check_bytes)]
 
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
@@ -2357,9 +2362,7 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 
 			if not track.check_bytes:  # always entered upon start too
 				lcb = min(len(track.signature_bytes), flength)
-				check_bytes = sforsample
-				check_bytes += buff[offset + len(sformain):
-				                    offset + len(sformain) + lcb - len(sforsample)]
+				check_bytes = frame[:lcb]
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
@@ -2400,17 +2403,15 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 	buff = er.read_contents()
 
 	for i in range(len(er.current_element.frame_lengths)):
-		flength = (er.current_element.frame_lengths[i] +
-				   len(sforsample) - len(sformain))
+		frame = mkv_sample_frame(buff, offset,
+			er.current_element.frame_lengths[i], sforsample, sformain)
+		flength = len(frame)
 		# see if a false positive match was detected
 		if (0 < len(track.check_bytes_bug) < len(track.signature_bytes)):
 			lcb = min(len(track.signature_bytes),
 					  flength + len(track.check_bytes_bug))
 			check_bytes = track.check_bytes_bug  # from sample
-			check_bytes += sforsample  # stored settings from main video
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb -
-								len(track.check_bytes_bug) - len(sforsample)]
+			check_bytes += frame[:lcb - len(track.check_bytes_bug)]
 
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
@@ -2419,9 +2420,7 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 
 		if not track.check_bytes_bug:
 			lcb = min(len(track.signature_bytes), flength)
-			check_bytes = sforsample
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb - len(sforsample)]
+			check_bytes = frame[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
@@ -3183,7 +3182,6 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 		sformain = track.compression_settings
 	if track_main.compression_settings:
 		sforsample = track_main.compression_settings
-	header_stripping_both_files = sformain and sforsample
 
 	if (er.current_element.element_start_pos +
 		len(er.current_element.raw_header) +
@@ -3199,26 +3197,9 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 			len(er.current_element.raw_block_header) +
 			offset >= track.match_offset and
 			track.track_file.tell() < track.data_length):
-				if header_stripping_both_files:
-					if sforsample == sformain:
-						# no removed header to be added
-						track.track_file.write(buff[offset:offset + 
-							er.current_element.frame_lengths[i]])
-					elif len(sforsample) < len(sformain):
-						# more stripped in sample
-						cut = len(sformain) - len(sforsample) 
-						track.track_file.write(buff[offset + cut:offset + 
-							er.current_element.frame_lengths[i]])
-					elif len(sforsample) > len(sformain):
-						# more stripped in main (weird, but possible in theory)
-						add = len(sforsample) - len(sformain)
-						track.track_file.write(sforsample[-add:])
-						track.track_file.write(buff[offset:offset + 
-							er.current_element.frame_lengths[i]])
-				else:
-					track.track_file.write(sforsample)
-					track.track_file.write(buff[offset + len(sformain):offset +
-					   er.current_element.frame_lengths[i]])
+				track.track_file.write(mkv_sample_frame(buff, offset,
+					er.current_element.frame_lengths[i],
+					sforsample, sformain))
 			offset += er.current_element.frame_lengths[i]
 
 		tracks_done = True
-- 
2.43.0


From bc3e97fa5e46aca9d636abf6e5d747444e6e3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 014/116] fix: do not search WMV tracks that are not in the
 sample

---
 resample/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index c149087..25ee697 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2680,7 +2680,8 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# to see if it's the start of a new match
 						# (probably will never happen with AVI
 						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
+						# (tracks without data in the sample are not searched)
+						if track.signature_bytes and not track.check_bytes:
 							payload_bytes = payload.data
 
 							search_byte = track.signature_bytes[0]
-- 
2.43.0


From 5eb902c4ed198e36851d62c65d32b82109875a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 015/116] fix: read the right archived MP4 file when it is not
 the first one in the RAR

---
 resample/main.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 25ee697..62a650c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2431,12 +2431,13 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file,
+                           archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2603,7 +2604,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3222,22 +3224,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 
 	for track_nb, track in tracks.items():
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+                              archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From b9477a8caf4dd1fc76e504becc4852ef3eb4bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 016/116] fix: recognize upper case extensions of archived
 media files

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 62a650c..6e437a2 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -152,7 +152,7 @@ def file_type_info(ifile):
 				# use the first file with a supported file extension
 				# (skipping .srt and other encountered files)
 				extension = FileType.VideoExtensions + FileType.AudioExtensions
-				if archf.endswith(extension):
+				if archf.lower().endswith(extension):
 					archived_file_name = archf  # first useful file
 					break
 				first_file = False
-- 
2.43.0


From 0445eb058431cb148107a9f67156945f4983f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 017/116] fix: rebuild samples that have tracks without any
 data

---
 resample/main.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 6e437a2..b5b8331 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2604,6 +2604,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
+			if not track.signature_bytes:
+				continue  # no data in the sample to search for
 			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
 			                               self.archived_file_name)
 # 			print(track)
@@ -3223,6 +3225,8 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 	                      archived_file_name=self.archived_file_name)
 
 	for track_nb, track in tracks.items():
+		if not track.data_length:
+			continue  # no data of this track in the sample
 		mtrack = mtracks[track_nb]
 		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
 		                                  self.archived_file_name)
@@ -3395,8 +3399,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
@@ -3418,7 +3421,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 					if block_count % 15 == 0:
 						show_spinner(block_count)
 
-					track = tracks[rr.current_chunk.stream_number]
+					track = rebuild_track(tracks, rr.current_chunk.stream_number)
 					buff = track.track_file.read(rr.current_chunk.length)
 					sample.write(buff)
 					crc = crc32(buff, crc) & 0xFFFFFFFF
@@ -3445,6 +3448,17 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr.close()
 	return ofile
 
+def rebuild_track(tracks, track_number):
+	"""A track of the sample to read its data from. When there is no data for
+	it, the track is maybe not in the main file or in the SRS track list."""
+	if track_number not in tracks:
+		tracks[track_number] = TrackData()
+		tracks[track_number].track_number = track_number
+	track = tracks[track_number]
+	if track.track_file is None:
+		track.track_file = tempfile.TemporaryFile()
+	return track
+
 def reset_file_positions(tracks):
 	for track in tracks.values():
 		if track.track_file:
@@ -3503,7 +3517,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				else:
 					er.skip_contents()
 			elif er.element_type == EbmlElementType.Block:
-				track = tracks[er.current_element.track_number]
+				track = rebuild_track(tracks, er.current_element.track_number)
 				# restore data from extracted tracks
 				buff = track.track_file.read(er.current_element.length)
 				rbh = er.current_element.raw_block_header
@@ -3597,7 +3611,7 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		if atype in (b"tkhd",):
 			# grab track id
 			(track_id,) = BE_LONG.unpack_from(data, 12)
-			current_track = tracks[track_id]
+			current_track = rebuild_track(tracks, track_id)
 
 			# initialization
 			current_track.chunk_offsets = []
-- 
2.43.0


From 7c3c32373f7770a5643093f38730a5b10da431a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 018/116] fix: rebuild a sample inside the output folder
 whatever name the SRS has

---
 resample/srs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 468c5b9..faaaa49 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -497,7 +497,9 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# the name in the SRS file can't be used to leave the output folder
+			sample_name = os.path.basename(srs_data.name)
+			result_file = os.path.join(out_folder, sample_name)
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From c0f7c69a400c38fb0fca94657ec9e2002e4a536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 019/116] fix: remove the result of the first attempt when a
 sample is rebuilt again

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index faaaa49..1c84c14 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -572,7 +572,7 @@ def main(argv=None, no_exit=False):
 				v.movi = movi
 				v.tracks = tracks
 				v.attachments = attachments
-				v.out_file = None
+				v.out_file = out_file # first attempt: replaced by the next
 
 				check_tracks(track_set[0], track_set[1:], v)
 
-- 
2.43.0


From d15f70c4b687f43f4859953e7a520b3052ac8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 020/116] fix: leave no temporary file behind when rebuilding a
 sample fails

---
 resample/srs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resample/srs.py b/resample/srs.py
index 1c84c14..ac6d027 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -225,6 +225,8 @@ def main(argv=None, no_exit=False):
 		(options.parent_directory and options.srs_parent_directory)):
 		pexit(1, "Make up your mind with the d's...\n")
 
+	temp_files = []  # rebuild attempts that must not be left behind
+
 	try:
 		ftype_arg0 = ""
 
@@ -518,6 +520,7 @@ def main(argv=None, no_exit=False):
 			
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
+			temp_files.append(out_file)
 			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
 										  srs, out_file)
 			if sfile and sfile.crc32 == srs_data.crc32:
@@ -535,6 +538,7 @@ def main(argv=None, no_exit=False):
 					if v.out_file:
 						os.unlink(v.out_file)
 					v.out_file = create_temp_file_name(result_file)
+					temp_files.append(v.out_file)
 					v.sfile = sample.rebuild_sample(
 						srs_data, v.tracks, v.attachments, srs, v.out_file)
 					return v.sfile.crc32 == srs_data.crc32
@@ -611,6 +615,7 @@ def main(argv=None, no_exit=False):
 							print("No replacing of source file for music.")
 							print("The .tmp file will be kept:")
 							print(os.path.basename(out_file))
+							temp_files.remove(out_file)
 						else:
 							# only keep broken file if source isn't overwritten
 							replace_result(out_file, result_file)
@@ -675,6 +680,10 @@ def main(argv=None, no_exit=False):
 	except Exception as err:
 		traceback.print_exc()
 		pexit(99, "Unexpected Error:\n%s\n" % err)
+	finally:
+		for temp_file in temp_files:
+			if os.path.exists(temp_file):
+				os.unlink(temp_file)
 
 if __name__ == "__main__":
 	if "--profile" in sys.argv:
-- 
2.43.0


From 40f19f534e7527553cb169438d446633069a3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 021/116] fix: WMV rebuild went on in the middle of the data
 object

AsfReader.read_data_part() considered the data object read when a read of a
full packet happened to reach to its end.  In SRS files packets are stripped
of payload data so this doesn't have to be the last packet, and the rest of
the file was read from the wrong position.
---
 resample/asf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resample/asf.py b/resample/asf.py
index d944e2a..1baa880 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -185,7 +185,11 @@ class AsfReader(object):
 		return buff
 
 	def read_data_part(self, offset, length):
-		if (offset + length == self.current_object.start_pos +
+		# the packets in an SRS file are stripped of their payloads:
+		# the last read goes over the end of the object and there is
+		# still something left to skip
+		if (self.mode != AsfReadMode.SRS and
+		    offset + length == self.current_object.start_pos +
 		                       self.current_object.size):
 			self.read_done = True
 		self._asf_stream.seek(offset, os.SEEK_SET)
-- 
2.43.0


From a044ae546b7f10bfd9b651c6b746d2bd04a536ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 022/116] fix: endless loop on WMV objects and MP4 boxes of
 size zero

A damaged file (or main file with the wrong data) kept the reader on the same
object forever.
---
 resample/asf.py | 5 +++++
 resample/mov.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/resample/asf.py b/resample/asf.py
index 1baa880..b9f5b16 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -196,6 +196,11 @@ class AsfReader(object):
 		return self._asf_stream.read(length)
 
 	def skip_contents(self):
+		# the size includes the header:
+		# the same object would be read over and over again otherwise
+		if self.current_object.size < len(self.current_object.raw_header):
+			raise InvalidDataException("Invalid object length at 0x%08X" %
+			                           self.current_object.start_pos)
 		if not self.read_done:
 			self.read_done = True
 			self._asf_stream.seek(self.current_object.start_pos +
diff --git a/resample/mov.py b/resample/mov.py
index 10ca160..03b8953 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -106,6 +106,11 @@ class MovReader(object):
 			# 8-byte size field after the atom type
 			bsize = self._mov_stream.read(8)
 			(atom_length,) = BE_LONGLONG.unpack(bsize)
+			# the length includes the atom header:
+			# it would be read over and over again otherwise
+			if atom_length < 16:
+				raise InvalidDataException("Invalid box length at 0x%08X" %
+				                           atom_start_position)
 			self._atom_header += bsize
 			hsize += 8
 		elif atom_length == 0:
-- 
2.43.0


From 7ee2b3ac7be770e2429a319603e6a00086ce9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 023/116] fix: MP3 and FLAC files with ID3v2 tag inside RAR
 volumes

The size of the ID3v2 tag was decoded from the 8 bytes that were read of the
packed file (TypeError), and what follows the tag was looked for in the RAR
file instead of in the packed file.
---
 resample/main.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index b5b8331..d9b65cb 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -127,6 +127,7 @@ def file_type_info(ifile):
 
 
 	archived_file_name = ""
+	archived = False
 
 	try:
 		with open(ifile, 'rb') as ofile:
@@ -144,6 +145,7 @@ def file_type_info(ifile):
 		return FileType(FileType.Unknown, archived_file_name)
 
 	if marker.startswith(MARKER_RAR) and utility.is_rar(ifile):
+		archived = True
 		try:
 			# Read first file from the RAR archives
 			rr = RarReader(ifile)
@@ -162,7 +164,7 @@ def file_type_info(ifile):
 			if not first_file and archived_file_name:
 				print("Using %s from first RAR." % archived_file_name)
 			rs = rarstream.RarStream(ifile, archived_file_name)
-			marker = rs.read(8)
+			marker = rs.read(14)
 			rs.close()
 		except Exception as ex:
 			print(ex)
@@ -195,10 +197,16 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_ID3):
 		# can be MP3 or FLAC
 		size = decode_id3_size(marker[6:10])
-		with open(ifile, 'rb') as ofile:
+		if archived:
+			ofile = rarstream.RarStream(ifile, archived_file_name)
+		else:
+			ofile = open(ifile, 'rb')
+		try:
 			ofile.seek(10 + size)
 			if ofile.read(4) == b"fLaC":
 				return FileType(FileType.FLAC, archived_file_name)
+		finally:
+			ofile.close()
 		return FileType(FileType.MP3, archived_file_name)
 	elif marker.startswith(b"SRSF"):
 		return FileType(FileType.MP3, archived_file_name)
-- 
2.43.0


From 14987d98bbcf36b6c00f886d5571775b4c3a75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 024/116] fix: RIFF MP3 file in RAR volumes or with upper-case
 extension

It was taken for an AVI file.
---
 resample/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d9b65cb..4a7a101 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -179,7 +179,8 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if ifile.endswith(".mp3"):
+		name = archived_file_name if archived else ifile
+		if name.lower().endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
-- 
2.43.0


From abceec55399e05cad879f9dcf59c4c2a36da123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 025/116] fix: MP3 data behind other data or after an ID3v2 tag
 is not found

The offset of the music data was relative to the MP3 data block when searched
for, but the extraction expects the offset in the file. It also tried to read
beyond the block (ValueError) for data that started later in it.
---
 resample/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 4a7a101..182a29e 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2825,8 +2825,9 @@ def mp3_match_signature(track, block, mr):
 		data = mr.read_part(size, boffset)
 		found_offset = data.find(track.signature_bytes)
 		if found_offset > -1:
-			track.match_offset = boffset + found_offset
-			track.match_length = min(track.data_length, block.size)
+			track.match_offset = block.start_pos + boffset + found_offset
+			track.match_length = min(track.data_length,
+			                         block.size - boffset - found_offset)
 			break
 		boffset += (batchsize - SIG_SIZE + 1)
 	return track
-- 
2.43.0


From 7d436a815eae28cd1b0f4638ab2059ca54b2dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 026/116] fix: SRS of an MP3 file with Lyrics3v1 tag can't be
 used

The start of the tag was searched for in front of the file: SRS files are
smaller than the 5100 bytes that can be used by the tag.
---
 resample/mp3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..5fc1060 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -153,13 +153,16 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				# SRS files are often smaller than the maximum lyrics size
+				search_start = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(search_start, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(
+				                     end_meta_data_offset - search_start)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = search_start + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From 6b928854582c87f8b9c628124b4e29e26dfc64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 027/116] fix: FLAC file with ID3 tags can't be rebuilt

The type of ID3v1 and ID3v2 blocks is a string: looking for it in a bytearray
is a TypeError.
---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 182a29e..227cfeb 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3782,7 +3782,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in (ord("s"), ord("t"), ord("u")) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From db2d0fc44650b95276a6ef73987f6fabc7398d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 028/116] fix: name extracted files right when the output
 folder is not normalised

---
 rescene/srr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 5f7246c..29db2cb 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -242,7 +242,7 @@ def manage_srr(options, in_folder, infiles, working_dir):
 
 		# show which files are extracted + success or not
 		for efile, success in files:
-			file_name = efile[len(out_folder) + 1:]
+			file_name = os.path.relpath(efile, out_folder)
 			if success:
 				print("{0}: extracted.".format(file_name))
 			else:
@@ -276,7 +276,7 @@ def manage_srr(options, in_folder, infiles, working_dir):
 
 		# show which files are extracted + success or not
 		for efile, success in files:
-			file_name = efile[len(out_folder) + 1:]
+			file_name = os.path.relpath(efile, out_folder)
 			if success:
 				print("{0}: extracted.".format(file_name))
 			else:
-- 
2.43.0


From b281aa63181744a50744d71c7028fd388f404044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 029/116] fix: merging SRRs onto one of the inputs lost its
 stored files

---
 rescene/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index f6755b8..47acbe7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -433,7 +433,8 @@ def merge_srrs(srr_files, output_file, application_name=None):
 				if not application_name or application_name == "":
 					application_name = block.appname
 			elif block.rawtype == BlockType.SrrStoredFile:
-				stored_files.append(block)
+				# the output can take the place of one of the inputs
+				stored_files.append((block, block.srr_data()))
 			else:
 				other_blocks.append(block)
 			
@@ -442,9 +443,9 @@ def merge_srrs(srr_files, output_file, application_name=None):
 		new.write(SrrHeaderBlock(appname=application_name).block_bytes())
 		
 		# all stored files in the beginning after the header
-		for sblock in stored_files:
+		for sblock, sdata in stored_files:
 			new.write(sblock.block_bytes())
-			new.write(sblock.srr_data())
+			new.write(sdata)
 		
 		# everything else in the same order as the original file
 		for block in other_blocks:
-- 
2.43.0


From 4d124706a5d9af8d3e2761460f633cbd165c9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 030/116] fix: combining CRCs with zlib went wrong for parts of
 4 GiB and more

---
 rescene/crc32combine.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rescene/crc32combine.py b/rescene/crc32combine.py
index 1405519..f1b7b03 100644
--- a/rescene/crc32combine.py
+++ b/rescene/crc32combine.py
@@ -37,6 +37,13 @@ except ImportError:
 	# not used within rescene, but the scripts
 	_DEBUG = True
 
+def load_crc32_combine(libpath):
+	"""Without the types, lengths would be cut to the size of an int."""
+	function = ctypes.cdll.LoadLibrary(libpath).crc32_combine
+	function.argtypes = [ctypes.c_ulong, ctypes.c_ulong, ctypes.c_long]
+	function.restype = ctypes.c_ulong
+	return function
+
 def crc32_combine_function():
 	"""Returns function to zlib when possible.
 	Fallback to Python implementation."""
@@ -55,8 +62,7 @@ def crc32_combine_function():
 		if _DEBUG:
 			print(libpath)
 		try:
-			zlib = ctypes.cdll.LoadLibrary(libpath)
-			return zlib.crc32_combine
+			return load_crc32_combine(libpath)
 		except OSError:
 			# OSError: [WinError 193] %1 is not a valid Win32 application
 			# on C:\Program Files\Intel\WiFi\bin\zlib1.dll
@@ -76,8 +82,7 @@ def crc32_combine_ctypes(crc1, crc2, len2):
 		libpath = util.find_library('z')
 
 	if libpath:
-		zlib = ctypes.cdll.LoadLibrary(libpath)
-		return zlib.crc32_combine(crc1, crc2, len2)
+		return load_crc32_combine(libpath)(crc1, crc2, len2)
 	else:
 		raise RuntimeError("zlib not found")
 
-- 
2.43.0


From 996e25b04122e8767b1c5208a9a054a22988b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 031/116] fix: do not take the APE tag header for an ID3v1 tag

---
 resample/mp3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resample/mp3.py b/resample/mp3.py
index 5fc1060..0723434 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -126,6 +126,11 @@ class Mp3Reader(object):
 		self._mp3_stream.seek(-128, os.SEEK_END)
 		idv1_start_offset = self._mp3_stream.tell()
 		first = self._mp3_stream.read(3)
+		if first == b"TAG" and idv1_start_offset >= 3:
+			# "TAG" in the middle of "APETAGEX" doesn't start an ID3v1 tag
+			self._mp3_stream.seek(idv1_start_offset - 3, os.SEEK_SET)
+			if self._mp3_stream.read(8) == b"APETAGEX":
+				first = b""
 		if first == b"TAG":
 			idv1_block = Block(128, "TAG", idv1_start_offset)
 			self.blocks.append(idv1_block)
-- 
2.43.0


From 44380aa9d7634631cc9a6c4df5afaaac1b8dd02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 032/116] fix: X.RAR is followed by X.R00

---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index b71de87..43af528 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -303,7 +303,8 @@ def next_archive(rfile, is_old=False):
 	if re.match(r".*\.part\d*.rar$", rfile, re.IGNORECASE) and not is_old:
 		return inc(rfile[:-4]) + rfile[-4:]
 	elif re.match(r".*\.rar$", rfile, re.IGNORECASE):
-		return rfile[:-4] + ".r00"
+		# X.RAR is followed by X.R00: matters for case-sensitive file systems
+		return rfile[:-2] + "00"
 	elif not is_rar(rfile):
 		raise AttributeError("The extension must be one form a RAR archive.")
 	else:
-- 
2.43.0


From 3d98122c3dd1ae53dc5a6af72cf3e116442e8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 033/116] fix: first_rars skipped sets while removing from the
 list it went through

---
 rescene/utility.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 43af528..71d6300 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -343,13 +343,11 @@ def first_rars(file_iter):
 
 	firsts = list(filter(is_first, input_files))
 	# .000? then no .001
-	for first in filter(lambda x: x.endswith(".000"), firsts):
-		try:
-			firsts.remove(first[:-1] + "1")
-		except ValueError:
-			# the release consists of a a single .000 file only
-			# e.g. Ys_6_The_Ark_of_Napishtim_USA_FIX_READNFO_PSP-REBORN
-			pass
+	# the release can also consist of a a single .000 file only
+	# e.g. Ys_6_The_Ark_of_Napishtim_USA_FIX_READNFO_PSP-REBORN
+	zeros = set(x for x in firsts if x.endswith(".000"))
+	firsts = [x for x in firsts
+	          if not (x.endswith(".001") and x[:-1] + "0" in zeros)]
 	# list still empty? A .part2.r00 situation might be the case.
 	if not len(firsts):
 		firsts = list(filter(is_dotrar, input_files))
-- 
2.43.0


From e0fe9b2ffc5555a8bf1a23f4658dbc0c02ec9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 034/116] fix: keep \xa0 and \x85 at the ends of names in SFV
 files

---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 71d6300..e054111 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -234,7 +234,8 @@ def parse_sfv_data(file_data):
 				text = line.decode("latin-1")
 				text = text.replace("\t", "    ")  # convert tabs
 				index = text.rindex(" ")  # ValueError: substring not found
-				filename = text[:index].strip()
+				# ASCII only: \xa0 and \x85 can be part of the name
+				filename = text[:index].strip(" \n\r\x0b\x0c")
 				# A SFV can contain multiple white spaces
 				crc = text[index + 1:].lstrip()
 				# ValueError: bad CRC e.g. char > F
-- 
2.43.0


From 1c40da247e59ab8a14840676238010031b97064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 035/116] fix: order SFV entries consistently

---
 rescene/utility.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index e054111..c15d545 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -168,23 +168,17 @@ class SfvEntry(object):
 	def __lt__(self, other):
 		"""The sort routines are guaranteed to use __lt__ when making 
 		   comparisons between two objects."""
-		ext_self = self.file_name[-4:].lower()
-		ext_other = other.file_name[-4:].lower()
-		same_base = self.file_name[:-4].lower() == other.file_name[:-4].lower()
-
-		if same_base and ext_self != ext_other:
-			if ext_self == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_other)):
-					return True
-				else:
-					return self.file_name < other.file_name  # .rar < .r00
-			elif ext_other == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_self)):
-					return False
-				else:
-					return self.file_name < other.file_name  # .r00 > .rar
+		return self._sort_key() < other._sort_key()
+
+	def _sort_key(self):
+		"""Case is ignored like for equality: the entries of one archive
+		are in archive order and equal entries end up next to each other."""
+		name = self.file_name.lower()
 		# .part1.rar < .part2.rar, r99 < s00, 001 < 002
-		return self.file_name < other.file_name
+		archive_order = name
+		if name.endswith(".rar"):
+			archive_order = name[:-2]  # .rar < .r00
+		return (archive_order, name, self.crc32.lower(), self.file_name)
 
 	def __repr__(self):
 		return self.file_name + " " + self.crc32
-- 
2.43.0


From 4aa51635955b97b0a0e4182993e9582cbc3cc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 036/116] fix: lines listed twice do not make SFV files
 different

---
 rescene/utility.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index c15d545..2ea071c 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -272,9 +272,7 @@ def same_sfv(one, two):
 	"""Only based on actual content, not comments."""
 	onec, _, _ = parse_sfv_file(one)
 	twoc, _, _ = parse_sfv_file(two)
-	onec.sort()
-	twoc.sort()
-	return onec == twoc
+	return filter_sfv_duplicates(onec) == filter_sfv_duplicates(twoc)
 
 def next_archive(rfile, is_old=False):
 	"""Returns the name of the next possible RAR archive.
-- 
2.43.0


From b2ddf1e5d4e77640457dbe8d5e7d6be442b78202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 037/116] fix: read MP3 files of less than 128 bytes

---
 resample/mp3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index 0723434..9792ded 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -123,9 +123,11 @@ class Mp3Reader(object):
 
 		# 2) check for ID3v1 (last 128 bytes of mp3 file)
 		end_meta_data_offset = self._file_length
-		self._mp3_stream.seek(-128, os.SEEK_END)
-		idv1_start_offset = self._mp3_stream.tell()
-		first = self._mp3_stream.read(3)
+		idv1_start_offset = self._file_length - 128
+		first = b""
+		if idv1_start_offset >= 0:
+			self._mp3_stream.seek(idv1_start_offset, os.SEEK_SET)
+			first = self._mp3_stream.read(3)
 		if first == b"TAG" and idv1_start_offset >= 3:
 			# "TAG" in the middle of "APETAGEX" doesn't start an ID3v1 tag
 			self._mp3_stream.seek(idv1_start_offset - 3, os.SEEK_SET)
-- 
2.43.0


From 2b9426c6d3e24ab35c3706b58a4929b04296cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 038/116] fix: damaged RAR and SRR blocks raise the documented
 errors

---
 rescene/rar.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 26461b5..08b7359 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1439,7 +1439,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
@@ -1600,6 +1600,9 @@ class RarReader(object):
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
 				not is_recovery and add_size > 0:
+			if block_start_position + hsize + add_size > self._file_length:
+				raise EnvironmentError("Invalid RAR data length (%d) at"
+						" offset %#x" % (add_size, block_start_position))
 			block_buffer += self._rarstream.read(add_size)
 
 		# If we're not returning the data, skip over it, 
@@ -1634,11 +1637,8 @@ class RarReader(object):
 			return self._found_blocks 
 		except AttributeError:
 			self._rarstream.seek(self._initial_offset)
-			self._found_blocks = []
-			for block in self:
-#				print(block)
-				self._found_blocks.append(block)
-#			self._found_blocks = [block for block in self]
+			# not cached when an error is raised
+			self._found_blocks = [block for block in self]
 			self.__del__()
 			return self._found_blocks
 	
@@ -1675,6 +1675,10 @@ class RarReader(object):
 		except EnvironmentError: # corrupt file found
 			self._rarstream.close() # so it's possible to move the bad file
 			raise
+		except (struct.error, IndexError, OverflowError) as err:
+			# the header is too small for its fields or they make no sense
+			self._rarstream.close()
+			raise EnvironmentError("Invalid RAR block: %s" % err)
 		if not block:
 			self._rarstream.seek(self._initial_offset)
 			raise StopIteration
-- 
2.43.0


From 0f096eecdd837ed42af477c3a6c01d571358c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 039/116] fix: explain salted files, padding bytes and unknown
 values

---
 rescene/rar.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 08b7359..c40f7d9 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -389,8 +389,8 @@ class RarBlock(object):
 		return self._rawdata
 	
 	def __repr__(self):
-		return "%s %x %d" % (BLOCK_NAME[self.rawtype], self.block_position, 
-		                     self.header_size)
+		return "%s %x %d" % (BLOCK_NAME.get(self.rawtype, "Unknown"),
+		                     self.block_position, self.header_size)
 		
 	def explain(self):
 		bname = BLOCK_NAME.get(self.rawtype, "UNKNOWN BLOCK! NUKE IT!")
@@ -846,6 +846,8 @@ class SrrRarPaddingBlock(RarBlock):
 				self._rawdata[self._p:self._p+4])[0]
 			self._p += 4
 		elif padding_bytes != None:
+			self.block_position = filepos
+			self.fname = fname
 			self.crc = 0x6C6C
 			self.rawtype = 0x6C
 			self.flags = self.LONG_BLOCK
@@ -1101,7 +1103,7 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			out += "+HIGH_UNP_SIZE: %i\n" % self.high_unpack_size
 		out += "+FILE_NAME: %s\n" % self.file_name
 		if self.flags & self.SALT:
-			out += "+SALT: %X\n" % self.salt
+			out += "+SALT: %s\n" % hexlify(self.salt).decode('ascii').upper()
 		if self.flags & self.EXT_TIME:
 			out += "+modification time: %s\n" % self.ftime(self.mtime)
 			out += "+creation time: %s\n" % self.ftime(self.ctime)
@@ -1117,7 +1119,7 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			return "%04d-%02d-%02d %02d:%02d:%02d" % timetuple
 
 	def get_compression_name(self):
-		return COMPRESSION_NAME[self.compression_method]
+		return COMPRESSION_NAME.get(self.compression_method, "unknown method")
 	
 	def is_compressed(self):
 		return self.compression_method != 0x30 # Storing
@@ -1160,7 +1162,8 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			return ""
 	
 	def get_os(self):
-		return "%s used to create this file block." % OS_NAME[self.os]
+		return "%s used to create this file block." % OS_NAME.get(self.os,
+		                                                          "Unknown OS")
 	
 	def get_dictionary(self):
 		return DICTIONARY_NAME[(self.flags & 0x00e0) >> 5]
@@ -1505,7 +1508,8 @@ class RarReader(object):
 		#   error: unpack requires a string argument of length 7
 		if block_start_position + HEADER_LENGTH > self._file_length:
 			if self._rar_end_block_encountered and self._readmode == self.RAR:
-				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read())
+				return SrrRarPaddingBlock(filepos=block_start_position,
+					padding_bytes=self._rarstream.read())
 			else:
 				raise EnvironmentError("Cannot read basic block header.")
 
@@ -1532,7 +1536,7 @@ class RarReader(object):
 		
 		# detect padding bytes
 		if self._rar_end_block_encountered and self._readmode == self.RAR:
-			return SrrRarPaddingBlock(
+			return SrrRarPaddingBlock(filepos=block_start_position,
 				padding_bytes=header_buffer + self._rarstream.read())
 		if btype == BlockType.RarMax:
 			self._rar_end_block_encountered = True
-- 
2.43.0


From 762d9f435ebcf50711c9ad1ebb76dad1f291ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 040/116] fix: refuse SRS files with an incomplete signature

---
 resample/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 227cfeb..2b74540 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -410,6 +410,8 @@ class TrackData(object):
 			(self.data_length, self.match_offset, sig_length) = \
 				struct.unpack_from("<%sQH" % struct_string, buff, e + 4)
 			self.signature_bytes = buff[(e + 14 + add):(e + 14 + add + sig_length)]
+			if len(self.signature_bytes) < sig_length:
+				raise ValueError("Incomplete signature in SRS file.")
 		else:
 			self.flags = self.NO_FLAGS
 			self.track_number = 0
-- 
2.43.0


From db4f3fad75fd59ab15af164379cd4e4cb1a118d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 041/116] fix: no crash on .vob samples without an SRS

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..f5173b5 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1071,7 +1071,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			sys.stderr = original_stderr
 
 		# create srr if it was a rared vob
-		if srs_result and sample.endswith(".vob"):
+		if os.path.isfile(srs_result) and sample.endswith(".vob"):
 			# can be useful to show the actual RAR that was used,
 			# based on the info stored in the archive end block
 			sinfo = sample_class_factory(file_type_info(srs_result).file_type)
-- 
2.43.0


From 657e4a681e0531cc0f38dea365891402a21fbb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 042/116] fix: no crash on files that are excluded in two ways

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index f5173b5..dd8fe4e 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1235,7 +1235,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 		if os.path.basename(cfile) in options.skip_list:
 			print("Skipped over stored file: %s" % os.path.basename(cfile))
 			copied_files.remove(cfile)
-		if options.skip_regex:
+		elif options.skip_regex:
 			retestpath = os.path.relpath(cfile, working_dir)
 			if skipre.match(retestpath):
 				copied_files.remove(cfile)
-- 
2.43.0


From be70462a7b16e4cc4620f0a5b2ecf13c93546784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 043/116] fix: recognise JPEG posters that start with DQT

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index dd8fe4e..d525069 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -389,7 +389,7 @@ def test_jpeg(h, _f):
 	if h[0:4] == b"\xff\xd8\xff\xee" and h[6:11] == b"Adobe":
 		return "jpeg"
 	# SOI DQT
-	if h[0:4] == "\xff\xd8\xff\xdb":
+	if h[0:4] == b"\xff\xd8\xff\xdb":
 		return "jpeg"
 imghdr.tests.append(test_jpeg)
 
-- 
2.43.0


From 1b31ac54fb744855c40e7524646b856bbf11f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 044/116] fix: only no.nfo is the placeholder NFO

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index d525069..5279b9d 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -938,7 +938,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	for nfo in get_files(reldir, "*.nfo"):
 		if os.path.basename(nfo).lower() in ("imdb.nfo", "tvmaze.nfo"):
 			continue
-		if os.path.basename(nfo).lower() in ("no.nfo"):
+		if os.path.basename(nfo).lower() == "no.nfo":
 			try:
 				if os.path.getsize(nfo) == 8:
 					continue  # contains the text "no.nfo"
-- 
2.43.0


From fb11d97af4ad1215d06adb7c99642733eeea6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 045/116] fix: temporary SRR is removed on keyboard interrupt

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 5279b9d..254b4ac 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -904,7 +904,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			return False
 		except KeyboardInterrupt as e:
 			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
+			if str(e) != "DONT_DELETE":
 				os.unlink(tmp_srr_name)
 			raise
 		except FileNotFound as e:
-- 
2.43.0


From 67749aa2d8022921e7e3baa6d3e15ea8aebce17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 046/116] fix: ignore case when comparing image names with the
 release files

---
 bin/pyrescene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 254b4ac..ab08d6e 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -276,7 +276,8 @@ def store_rls_root(proof, rar_files, reldir):
 	# non music releases have a separate folder
 	if os.path.getsize(proof) > 100000:
 		# must be named like nfo/sfv/rars
-		similar_named = similar_to_good_name(proof, rar_files, reldir)
+		similar_named = similar_to_good_name(
+			proof.lower(), rar_files, reldir)
 		
 		if similar_named and not fixed_resolution_cover(proof):
 			return True
-- 
2.43.0


From a4ea6e8b289129024a6bae10eaeaa644e385b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 047/116] fix: samples that differ only in extension keep their
 own SRS

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index ab08d6e..140fa57 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -977,7 +977,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	# .mkv and .m2ts samples could have the same .srs name: prevent this
 	same_srs_name = []
 	rbase = lambda x: os.path.relpath(x, reldir).rsplit(".", 1)[0]
-	for (name, group) in itertools.groupby(map(rbase, media_files)):
+	for (name, group) in itertools.groupby(sorted(map(rbase, media_files))):
 		if len(list(group)) > 1:
 			same_srs_name.append(name)
 
-- 
2.43.0


From 194715e2fac39852bf13894a55f5df93466d6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 048/116] fix: folders above the release do not change what is
 stored

---
 bin/pyrescene.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 140fa57..3d63ea3 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -176,6 +176,12 @@ def get_files_list(release_dir, extension_list):
 		# TypeError: must be (buffer overflow), not str
 		return matches
 
+def path_in_release(afile, reldir):
+	"""Lower case path that starts with the name of the release:
+	the folders above the release must not influence what is stored."""
+	path = os.path.relpath(afile, reldir)
+	return os.path.join(os.sep, os.path.basename(reldir), path).lower()
+
 def get_sample_files(reldir):
 	sample_files = get_files_list(reldir, FileType.VideoExtensions)
 
@@ -184,7 +190,7 @@ def get_sample_files(reldir):
 	for sample in sample_files:
 		# sample folder or 'sample' in the name
 		# or a musicvideo file (SFV with same name)
-		if ("sample" in sample.lower() or
+		if ("sample" in path_in_release(sample, reldir) or
 		    os.path.exists(sample[:-4] + ".sfv")):
 			result.append(sample)
 		else:
@@ -225,7 +231,7 @@ def get_proof_files(reldir, more_images=False):
 
 	result = filter_proof_image_files(
 		image_files, rar_files, reldir, more_images)
-	result += filter_proof_rar_files(rar_files)
+	result += filter_proof_rar_files(rar_files, reldir)
 
 	return result
 
@@ -234,7 +240,7 @@ def filter_proof_image_files(image_files, rar_files, reldir, more_images):
 	for proof in image_files:
 		# images in Sample, Proof and Cover(s) subdirs are ok
 		# others need to contain the word proof in their path
-		lproof = proof.lower()
+		lproof = path_in_release(proof, reldir)
 		if ("proof" in lproof or "sample" in lproof or
 			os.sep + "cover" in lproof or
 			os.sep + "screenshots" in lproof or
@@ -339,12 +345,13 @@ def collect_known_good_filenames(reldir, rar_files):
 				 get_files(reldir, "*.m3u") + rar_files)
 	return (os.path.basename(good_name)[:-4] for good_name in checklist)
 
-def filter_proof_rar_files(rar_files):
+def filter_proof_rar_files(rar_files, reldir):
 	include_in_srr = []
 	for proof in rar_files:
 		# RAR file must contain image file
 		# Space.Dogs.3D.2010.GERMAN.1080p.BLURAY.x264-HDViSiON (bmp proof)
-		if "proof" in proof.lower() and has_stored_proof_ext(proof):
+		if ("proof" in path_in_release(proof, reldir) and
+			has_stored_proof_ext(proof)):
 			include_in_srr.append(proof)
 	return include_in_srr
 
-- 
2.43.0


From 4cd774b4d86efe52d0eb0af034cbfc06864b4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 049/116] fix: releases in folders that start like a release
 name are found

---
 bin/pyrescene.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 3d63ea3..afa22a2 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1300,13 +1300,12 @@ def get_release_directories(path):
 			print(dirpath)
 			print(dirnames)
 			print(filenames)
-		if (last_release in dirpath and last_release and
-			# keep release names that start with the same string,
-			# so that they won't be skipped
-			# e.g.  ReleaseName-CUTG
-			#       ReleaseName-CUTGRP
-			# (subdirs have a separator more)
-			dirpath.rfind(os.sep) != last_release.rfind(os.sep)):
+		# keep release names that start with the same string,
+		# so that they won't be skipped
+		# e.g.  ReleaseName-CUTG
+		#       ReleaseName-CUTGRP
+		# (subdirs have a separator more)
+		if last_release and dirpath.startswith(last_release + os.sep):
 			continue  # subfolders of a found release
 
 		if is_release(dirpath, dirnames, filenames):
-- 
2.43.0


From 629af309d74aa1ef81763370776eae0aa27463b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 050/116] fix: the file itself is preferred over others that
 only differ in case

---
 rescene/utility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 2ea071c..dda13b2 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -528,7 +528,10 @@ def capitalized_fn(afile):
 	# on Linux it could not when the capitals don't match (file name from sfv)
 	inputfn = os.path.basename(afile)
 	inputdir = os.path.dirname(afile) or os.curdir
-	for cfile in os.listdir(inputdir):
+	names = os.listdir(inputdir)
+	if inputfn in names:
+		names = [inputfn]
+	for cfile in names:
 		if (cfile.lower() == inputfn.lower() and
 		    os.path.isfile(os.path.join(inputdir, cfile))):
 			exact = os.path.join(inputdir, cfile)
-- 
2.43.0


From 11d5c42d3cf17e9103f4d31e86f1db9615386f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 051/116] fix: temporary folder is removed when only vobsubs or
 nothing is done

---
 bin/pyrescene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index afa22a2..62e3954 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1667,6 +1667,7 @@ def main(argv=None):
 		unrar = get_unrar()
 		if not unrar_is_available():
 			print("UnRAR is required for vobsub .srr creation.")
+			os.rmdir(working_dir)
 			return 1
 		sfv = os.path.abspath(options.vobsubs)
 		try:
@@ -1689,12 +1690,15 @@ def main(argv=None):
 			# No RAR5 support yet
 			logging.warning("{0}: {1}".format(str(e), sfv))
 			return 1  # failure (no .srr created)
+		finally:
+			shutil.rmtree(working_dir, True)
 
 	if not options.skip_list:
 		options.skip_list = []
 	if options.skip_file:
 		if not os.path.isfile(options.skip_file):
 			print("The list of files to skip, could not be found.")
+			os.rmdir(working_dir)
 			return 1  # failure
 		with open(options.skip_file, 'r') as skiplist:
 			options.skip_list = skiplist.read().splitlines()
@@ -1711,6 +1715,7 @@ def main(argv=None):
 			print("Some examples: (case always ignored)")
 			print(r"\t^.*/sitename\.nfo$")
 			print(r"\t^sample/.*\._s.jpg$")
+			os.rmdir(working_dir)
 			return 1  # failure
 
 	drive_letters = []
-- 
2.43.0


From a8955b7eeace17724dd935a7daea4453b3e3a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 052/116] fix: languages.diz only has the languages of its own
 subtitles

---
 bin/pyrescene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 62e3954..ae81c43 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -826,8 +826,11 @@ def create_srr_for_subs(unrar, sfv, working_dir, release_dir):
 	# add languages.diz to the first SRR file only (more SRRs are possible)
 	# the file can be missing when the subs are in the .srt format
 	# e.g. Battlestar.Galactica.2003.WS.DVDRip.XviD-SFM
-	if len(results) and os.path.isfile(idx_lang):
-		rescene.add_stored_files(results[0], [idx_lang], save_paths=False)
+	if os.path.isfile(idx_lang):
+		if len(results):
+			rescene.add_stored_files(results[0], [idx_lang], save_paths=False)
+		# not for the SRRs of other SFV files
+		os.unlink(idx_lang)
 
 	return results
 
-- 
2.43.0


From 4886c6d4c8a0af5a84ae77c552e4ef694cac4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 053/116] fix: CD folders with hyphens in their name count as
 discs of old music releases

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index ae81c43..2477a9f 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1361,7 +1361,7 @@ def is_release(dirpath, dirnames=None, filenames=None):
 			elif NO_HYPHEN.match(dirname):
 				# old MP3 release with custom folders
 				custom_dirs_old_music.append(dirname)
-			elif re.match(r"CD(.?|_-_)\d{1-2}.+", dirname, re.IGNORECASE):
+			elif re.match(r"CD(.?|_-_)\d{1,2}.+", dirname, re.IGNORECASE):
 				# Various_artists_-_deiner_tracks_vol2_2cd-2000-nbd
 				# CD1-Dj_Membrain and CD2-Dj_Sepalot
 				custom_dirs_old_music.append(dirname)
-- 
2.43.0


From 60faa562733442be29fb708b843e97485d96bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 054/116] fix: refuse SRS files with an incomplete fingerprint

---
 resample/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 2b74540..18e9f9c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -552,6 +552,8 @@ def read_fingerprint_data(track, data):
 	(track.duration,) = S_LONG.unpack_from(data)
 	(fp_length,) = S_LONG.unpack_from(data, 4)
 	track.fingerprint = data[8:8 + fp_length]
+	if len(track.fingerprint) < fp_length:
+		raise ValueError("Incomplete fingerprint in SRS file.")
 	return track
 
 def isascii(bytes_to_test):
-- 
2.43.0


From a9d2272af629cfdf815e3e510b33c96637e557d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 055/116] fix: NZB files are written as bytes (TypeError on
 Python 3)

---
 usenet/nzb_merge.py          | 2 +-
 usenet/nzb_sample_extract.py | 2 +-
 usenet/nzb_split.py          | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index ff4fdfa..959dce4 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -44,7 +44,7 @@ def merge_nzbs(nzbdir):
 				nzb_utils.add_file(doc, nfile)
 
 		# shortest directory name we will overwrite
-		with open(nzb_files[0], "w") as nzb:
+		with open(nzb_files[0], "wb") as nzb:
 			nzb.write(nzb_utils.get_xml(doc))
 
 		# remove other nzb files
diff --git a/usenet/nzb_sample_extract.py b/usenet/nzb_sample_extract.py
index 5fcbf5d..ebb6c38 100644
--- a/usenet/nzb_sample_extract.py
+++ b/usenet/nzb_sample_extract.py
@@ -109,7 +109,7 @@ def extract_sample(nzb_file, output_dir):
 			os.makedirs(os.path.dirname(snzb_file))
 		except:
 			pass
-		with open(snzb_file, "w") as sample:
+		with open(snzb_file, "wb") as sample:
 			sample.write(nzb_utils.get_xml(sample_nzb))
 
 def main(options, args):
diff --git a/usenet/nzb_split.py b/usenet/nzb_split.py
index 550fca7..b682877 100644
--- a/usenet/nzb_split.py
+++ b/usenet/nzb_split.py
@@ -127,7 +127,7 @@ REGEX = TEEVEE
 #
 # 	for release in reldict:
 # 		new = os.path.join(output_dir, release.replace('"', '') + ".nzb")
-# 		with open(new, "w") as nzb:
+# 		with open(new, "wb") as nzb:
 # 			doc = nzb_utils.empty_nzb_document()
 # 			for rfile in reldict[release]:
 # 				nzb_utils.add_file(doc, rfile)
@@ -192,7 +192,7 @@ def main(options, args):
 					              current_rel.replace('"', '') + ".nzb")
 					exists = os.path.exists(new)
 					if current_rel and not exists:
-						with open(new, "w") as nzb:
+						with open(new, "wb") as nzb:
 							doc = nzb_utils.empty_nzb_document()
 							for rfile in reldict.pop(current_rel):
 								nzb_utils.add_file(doc, rfile)
@@ -201,7 +201,7 @@ def main(options, args):
 						doc = nzb_utils.empty_nzb_document()
 						for nzbfile in nzb_utils.read_nzb(new):
 							nzb_utils.add_file(doc, nzbfile)
-						with open(new, "w") as nzb:
+						with open(new, "wb") as nzb:
 							for rfile in reldict.pop(current_rel):
 								nzb_utils.add_file(doc, rfile)
 							nzb.write(nzb_utils.get_xml(doc))
@@ -219,7 +219,7 @@ def main(options, args):
 	try:
 		new = os.path.join(output_dir,
 		                   current_rel.replace('"', '') + ".nzb")
-		with open(new, "w") as nzb:
+		with open(new, "wb") as nzb:
 			doc = nzb_utils.empty_nzb_document()
 			for rfile in reldict.pop(current_rel):
 				nzb_utils.add_file(doc, rfile)
-- 
2.43.0


From 5b06a1ef843092fb70c194a384bb25c09ef113cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 056/116] fix: merge NZBs in folders that are not below the
 current directory

---
 usenet/nzb_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index 959dce4..f82e187 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -30,7 +30,8 @@ import nzb_utils
 
 def merge_nzbs(nzbdir):
 	nzb_files = [os.path.join(nzbdir, e) for e in os.listdir(nzbdir)
-	             if not os.path.isdir(e) and e[-4:].lower() == ".nzb"]
+	             if not os.path.isdir(os.path.join(nzbdir, e))
+	             and e[-4:].lower() == ".nzb"]
 	if len(nzb_files) > 1:
 		nzb_files.sort(key=lambda f: len(f))
 
@@ -55,7 +56,7 @@ def merge_nzbs(nzbdir):
 def main(options, args):
 	main_dir = os.path.abspath(args[0])
 	for ldir in os.listdir(main_dir):
-		if os.path.isdir(ldir):
+		if os.path.isdir(os.path.join(main_dir, ldir)):
 			merge_nzbs(os.path.join(main_dir, ldir))
 
 if __name__ == '__main__':
-- 
2.43.0


From ff98f5578c0d8d0952b19a080d45cf7f16b59f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 057/116] fix: the last release of a split NZB keeps the posts
 written before

---
 usenet/nzb_split.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/usenet/nzb_split.py b/usenet/nzb_split.py
index b682877..ce222bc 100644
--- a/usenet/nzb_split.py
+++ b/usenet/nzb_split.py
@@ -219,8 +219,11 @@ def main(options, args):
 	try:
 		new = os.path.join(output_dir,
 		                   current_rel.replace('"', '') + ".nzb")
+		doc = nzb_utils.empty_nzb_document()
+		if os.path.exists(new):
+			for nzbfile in nzb_utils.read_nzb(new):
+				nzb_utils.add_file(doc, nzbfile)
 		with open(new, "wb") as nzb:
-			doc = nzb_utils.empty_nzb_document()
 			for rfile in reldict.pop(current_rel):
 				nzb_utils.add_file(doc, rfile)
 			nzb.write(nzb_utils.get_xml(doc))
-- 
2.43.0


From 59f2c613f26180196d6eed1b74e016e62f27465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 058/116] fix: keep the date of posts in the hour that daylight
 saving time ends

---
 usenet/nzb_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index dcc65c2..0f677fb 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -172,7 +172,11 @@ def get_xml(document):
 
 def _date_to_posix(date):
 	""" date: datetime.datetime object """
-	posix = time.mktime(date.timetuple())
+	try:
+		# takes the ambiguous hour at the end of DST into account
+		posix = date.timestamp()
+	except AttributeError:  # Python < 3.3
+		posix = time.mktime(date.timetuple())
 	return str(int(posix))
 
 def add_file(document, nzb_file):
-- 
2.43.0


From 339a4e79c98454e57f0154efb98102608d45584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 059/116] fix: expat NZB parser cut texts with entities

---
 usenet/pynzb/expat_nzb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/usenet/pynzb/expat_nzb.py b/usenet/pynzb/expat_nzb.py
index 7637a17..663b488 100644
--- a/usenet/pynzb/expat_nzb.py
+++ b/usenet/pynzb/expat_nzb.py
@@ -31,6 +31,7 @@ class ExpatNZBParser(BaseNZBParser):
     def parse(self, xml):
         self.files = []
         parser = expat.ParserCreate()
+        parser.buffer_text = True  # get all data of an element at once
         parser.StartElementHandler = self.start_element
         parser.EndElementHandler = self.end_element
         parser.CharacterDataHandler = self.char_data
-- 
2.43.0


From 19a6ffcb772793599b3d38e61f49818ba902546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 060/116] fix: renaming NZBs does not overwrite an NZB with the
 same name

---
 usenet/nzb_rename.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_rename.py b/usenet/nzb_rename.py
index dd9d513..39e0ad2 100644
--- a/usenet/nzb_rename.py
+++ b/usenet/nzb_rename.py
@@ -44,8 +44,11 @@ def main(options, args):
 				else:
 					odir = os.path.join(output_dir, "other")
 				shutil.move(f, odir)
-				os.rename(os.path.join(odir, nzb_file),
-						os.path.join(odir, new_name + ".nzb"))
+				new_file = os.path.join(odir, new_name + ".nzb")
+				if os.path.exists(new_file):
+					print("%s already exists." % new_file)
+				else:
+					os.rename(os.path.join(odir, nzb_file), new_file)
 			except Exception as e:
 				print(e)
 		else:
-- 
2.43.0


From 719f5fb08181d8d87bfc3ad7b202e01e3da78a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 061/116] fix: list NZB files that are not in UTF-8

---
 usenet/nzb_age.py | 4 +++-
 usenet/nzb_ue.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_age.py b/usenet/nzb_age.py
index 488cc56..e1819ec 100644
--- a/usenet/nzb_age.py
+++ b/usenet/nzb_age.py
@@ -17,6 +17,7 @@
 import optparse
 import sys
 import os
+import io
 import re
 import datetime
 
@@ -38,7 +39,8 @@ def main(options, args):
 			continue
 		date = None
 		# not parsing the whole file, just what we need
-		with open(os.path.join(process_dir, nzbfile), "r") as file:
+		with io.open(os.path.join(process_dir, nzbfile), "r",
+		             encoding="latin-1") as file:
 			for line in file.readlines():
 				match = re.match(r".* date=\"(\d+)\".*", line)
 				if match:
diff --git a/usenet/nzb_ue.py b/usenet/nzb_ue.py
index e5b5e3c..1b2e7bc 100644
--- a/usenet/nzb_ue.py
+++ b/usenet/nzb_ue.py
@@ -17,6 +17,7 @@
 import optparse
 import sys
 import os
+import io
 import re
 
 def main(options, args):
@@ -25,7 +26,8 @@ def main(options, args):
 		if not nzbfile.endswith(".nzb"):
 			continue
 
-		with open(os.path.join(nzbdir, nzbfile), "r") as file:
+		with io.open(os.path.join(nzbdir, nzbfile), "r",
+		             encoding="latin-1") as file:
 			for line in file.readlines():
 				match = re.match(
 					".* poster=\".*uncle eric.*", line)
-- 
2.43.0


From c5f25328fce7b7fa19a57dfb598ba0f888782338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 062/116] fix: empty NZB files have no posts

---
 usenet/nzb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 0f677fb..30ad991 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -61,7 +61,7 @@ def read_nzb(nzb_file):
 				previous_line = line
 				fixed_nzb.write(line)
 			# newsmangler can omit closing nzb tag too ...
-			if not nzb_end_tag:
+			if not nzb_end_tag and fixed_nzb.tell():
 				fixed_nzb.write(b"</nzb>")
 		# do not fail on empty NZB files
 		if fixed_nzb.tell() == 0:
-- 
2.43.0


From 72b531e6ca165fb28e1c9ab2f1321d04a5097996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 063/116] fix: yEnc lines starting with two dots lost one

---
 usenet/yenc.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 7116e4c..c040e3c 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -219,13 +219,8 @@ def strip(data):
 	while data and not data[-1]:
 		data.pop()
 
-	# http://www.yenc.org/develop.htm
-	# the NNTP-protocol requires to double a dot in the first colum
-	# when a line is sent - and to detect a double dot (and remove one of them)
-	# when receiving a line.
-	for i in range(len(data)):
-		if data[i].startswith(b'..'):
-			data[i] = data[i][1:]
+	# the dots that NNTP doubles in the first column are already removed by
+	# the functions that receive the lines
 	return data
 
 """
-- 
2.43.0


From 3a9376c4fc63adb77d3115e66a2086be7dc709cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 064/116] fix: sort all special SFV files of a post to the end

---
 usenet/srr_usenet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 113f135..f904f02 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1195,7 +1195,7 @@ def create_srr(nzb_path, options):
 
 	sfvs.sort()
 	assert sfvs == sorted(sfvs)
-	for sfile in sfvs:
+	for sfile in list(sfvs):
 		# SFVs we want to have at the end of the SRR
 		if re.match(r".*(extras|proof|sample|subpack).*", sfile.name, re.I):
 			sfvs.remove(sfile)
-- 
2.43.0


From 2b87031ba0a040642357c6cf085da5d1ff2b159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 065/116] fix: files that are posted twice were stored twice

---
 usenet/srr_usenet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index f904f02..d2988ae 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1206,6 +1206,13 @@ def create_srr(nzb_path, options):
 	nfos = []
 	storefiles = []
 
+	# the best version of each file, once
+	names = []
+	for afile in to_store:
+		if afile.name not in names:
+			names.append(afile.name)
+	to_store = [nntp_files[name] for name in names]
+
 	for afile in to_store:
 		# remove automated sample screen shots: _s.jpg
 		if afile.name.endswith("_s.jpg"):
-- 
2.43.0


From 834dde5d659fa7fa7dd05e0fa4d2681c8230c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 066/116] fix: use the good SFV when it was posted twice

---
 usenet/srr_usenet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index d2988ae..1bf90ce 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1181,7 +1181,11 @@ def create_srr(nzb_path, options):
 				# parse and see which one has the most files/data
 				(newe, newc, _newerr) = parse_sfv_file(sfile)
 				index = unique.index(sfile.name)
-				(olde, oldc, _olderr) = parse_sfv_file(uniqfile[index])
+				try:
+					(olde, oldc, _olderr) = parse_sfv_file(uniqfile[index])
+				except Exception as error:
+					print(error)
+					(olde, oldc) = ([], [])
 				if len(newe) > len(olde) or (len(newe) == len(olde)
 				                             and len(newc) > len(oldc)):
 					print("Using the better SFV file.")
-- 
2.43.0


From 9adf0baba745e86cbbfcca79284f051c57c514b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 067/116] fix: a server that is down does not hide the servers
 after it

---
 usenet/srr_usenet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 1bf90ce..189731d 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -436,7 +436,7 @@ class NNTPFile(io.IOBase):
 						except Exception as error:
 							print(error)
 							print("Small article not on '%s'." % server[0])
-					except nntplib.NNTPError as error:
+					except (nntplib.NNTPError, socket.error) as error:
 						print(error)
 						print("Connecting to '%s' failed." % server[0])
 			else:
@@ -1070,7 +1070,8 @@ class NNTPFile(io.IOBase):
 					except KeyboardInterrupt:
 						raise
 					except (nntplib.NNTPPermanentError,
-					        nntplib.NNTPTemporaryError) as error:
+					        nntplib.NNTPTemporaryError,
+					        socket.error) as error:
 						print(error)
 						print("Connecting to '%s' failed." % server[0])
 
-- 
2.43.0


From 9a6416274f9f950c443601ef35c239dff5ed03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 068/116] fix: use the server from the command line for all
 articles

---
 usenet/srr_usenet.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 189731d..fb99d09 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1501,7 +1501,8 @@ def main(options, args):
 					rmode = config.getboolean(sec, "readermode")
 					servers.append((host, port, username, password, rmode))
 					priorities.append(priority)
-			EXTRA_SERVERS = list(zip(*sorted(zip(priorities, servers))))[1]
+			EXTRA_SERVERS = [server for (_priority, server) in
+			                 sorted(zip(priorities, servers))]
 	else:
 		create_config_file = True
 
@@ -1538,12 +1539,18 @@ def main(options, args):
 	NNTP_PORT = options.port
 	NNTP_LOGIN = options.username
 	NNTP_PASSWORD = options.password
-	if NNTP_SERVER == "":
-		(NNTP_SERVER, NNTP_PORT,
-		NNTP_LOGIN, NNTP_PASSWORD, _) = EXTRA_SERVERS[0]
-		# no CLI, so we start from index 1 for EXTRA_SERVERS to avoid
-		# using the server twice; default values used
-		NO_CLI_SERVER = 1  # we don't use the first extra server
+	if NNTP_SERVER != "":
+		# the small grabs and the retries only use EXTRA_SERVERS
+		EXTRA_SERVERS = [(NNTP_SERVER, NNTP_PORT, NNTP_LOGIN, NNTP_PASSWORD,
+		                  None)] + list(EXTRA_SERVERS)
+	elif not len(EXTRA_SERVERS):
+		print("No servers enabled in '%s'." % options.config_file)
+		sys.exit(1)
+	(NNTP_SERVER, NNTP_PORT,
+	NNTP_LOGIN, NNTP_PASSWORD, _) = EXTRA_SERVERS[0]
+	# the main server is the first one: we start from index 1 for
+	# EXTRA_SERVERS to avoid using the server twice
+	NO_CLI_SERVER = 1
 
 	amount = len(EXTRA_SERVERS)
 	print("There %s %d server%s that can be used." %
-- 
2.43.0


From 58dd0bfd001ee0bd893ce573cb80baf243a1b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 069/116] fix: articles without Lines header (TypeError on
 Python 3)

---
 usenet/srr_usenet.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index fb99d09..d381bec 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -812,8 +812,7 @@ class NNTPFile(io.IOBase):
 					lines = 0  # 'Lines: 6103'
 					try:  # Python 3
 						# [resp, ArticleInfo(number, message_id, lines)]
-						[_resp, [_article_number, _msg_id, lines]] = result
-						headers = lines
+						[_resp, [_article_number, _msg_id, headers]] = result
 					except ValueError:  # Python < 3
 						headers = result[3]
 					for hline in headers:
-- 
2.43.0


From 7f517cb1e67e6fa95f99370dd6376e1b2eef8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 070/116] fix: check the end of a post in all of its groups

---
 usenet/srr_usenet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index d381bec..7ebb020 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1032,7 +1032,12 @@ class NNTPFile(io.IOBase):
 		# no need to STAT if the data already exists
 		if not self.nb_segments in self.data:
 			if self.group:
-				self.server.group(self.nzb_file.groups[0])
+				for group in self.nzb_file.groups:
+					try:
+						self.server.group(group)
+						break
+					except nntplib.NNTPError as error:
+						print(error)
 			try:
 				(resp, _nr, _id) = self.server.stat("<%s>" %
 			                   self.segments[self.nb_segments].message_id)
-- 
2.43.0


From a0c59b5e303f3491675cce54adf71edc2ea5aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 071/116] fix: complete partially downloaded articles before
 reading on

---
 usenet/srr_usenet.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 7ebb020..b90acd9 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -309,6 +309,7 @@ class NNTPFile(io.IOBase):
 		self.nzb_file = nzb_file
 		self.segments = {}
 		self.data = {}  # the actual data of the segment
+		self._whole = set()  # segments that were downloaded completely
 		self.group = False  # Send GROUP command before grabbing segment
 
 		self.nb_segments = 0  # highest number defined in the NZB
@@ -352,6 +353,7 @@ class NNTPFile(io.IOBase):
 		#    => it does for PS3 releases with hundreds of separate files
 
 		self.data = {}
+		self._whole = set()
 		self._file_size = 0
 		self._current_position = 0
 		self._segment_size_first = 0
@@ -558,6 +560,19 @@ class NNTPFile(io.IOBase):
 
 		self.segments[pnumber].decoded_size = dpart['part_size']
 		self.data[pnumber] = dpart['data']
+		if nb_lines > 1:
+			self._whole.discard(pnumber)
+		else:
+			self._whole.add(pnumber)
+
+	def _complete(self, number, end):
+		"""Grabs the whole segment when not all of its data up to the given
+		offset in the segment is there yet."""
+		end = min(end, self.segments[number].decoded_size)
+		if len(self.data[number]) < end and number not in self._whole:
+			print("More data needed! Grabbing... (segment %d)" % number)
+			sys.stdout.flush()
+			self.grab_segment(self.segments[number].message_id)
 
 	def tell(self):
 		"""Return the current stream position."""
@@ -793,7 +808,7 @@ class NNTPFile(io.IOBase):
 			if i not in self.data:
 				# download the segment
 				# not all the data for first segment RAR files
-				if self.is_rar and spart_nb == 1:
+				if self.is_rar and spart_nb == 1 and i in (1, end_part):
 					amount = DEFAULT_LINES
 				else:
 					amount = -1
@@ -887,24 +902,18 @@ class NNTPFile(io.IOBase):
 
 		# build the wanted range of data
 		# 0) check if more data is needed for the first/last segment
+		self._complete(spart_nb, spart_offset + size)
 		if spart_nb == 1:
-			if spart_offset + size > len(self.data[1]):
-				print("More data needed! Grabbing... (first segment)")
-				sys.stdout.flush()
-				self.grab_segment(self.segments[1].message_id)
-
-				if (is_rar(self.name) and
-					self.segments[1].decoded_size != len(self.data[1])):
-					spart_offset = do_magic(spart_offset, spart_nb)
+			if (is_rar(self.name) and 1 in self._whole and
+				self.segments[1].decoded_size != len(self.data[1])):
+				spart_offset = do_magic(spart_offset, spart_nb)
 
 		odiff = orig_spart_offset - spart_offset  # 0 if nothing is wrong
 
-		# check the last segment too
-		data_size = len(self.data[end_part]) + odiff
-		if data_size < end_offset:
-			print("More data needed! Grabbing... (segment %d)" % end_part)
-			sys.stdout.flush()
-			self.grab_segment(self.segments[end_part].message_id)
+		# check the following segments too
+		for i in range(spart_nb + 1, end_part):
+			self._complete(i, self.segments[i].decoded_size)
+		self._complete(end_part, end_offset - odiff)
 
 		#--- start file magic -------------------------------------------------
 		# handle first byte missing of RAR (never seen this yet?)
-- 
2.43.0


From f67f66feeec123d99dfe911fc82ba07cdcca0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 072/116] fix: leave undamaged articles as they are

---
 usenet/srr_usenet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index b90acd9..46484c0 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -767,6 +767,13 @@ class NNTPFile(io.IOBase):
 			        this is often max(segments) or max(segments) - 1 
 			Returns the (changed) start offset.
 			"""
+			# nothing is shifted in a segment that has all of its bytes
+			self._complete(seg_nb, spart_offset + 7)
+			if not is_rar_header(spart_offset):
+				self._complete(seg_nb, self.segments[seg_nb].decoded_size)
+			if len(self.data[seg_nb]) == self.segments[seg_nb].decoded_size:
+				return spart_offset
+
 			# we can go 6 bytes back (and forward) "without problem"
 			if self.new_server and amount == 7:
 				amount = 19
-- 
2.43.0


From bf17d2aca03cf492727d57f409ff07597a583361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 073/116] fix: do not need the article before data at the start
 of an article

---
 usenet/srr_usenet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 46484c0..a9679fc 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -708,6 +708,9 @@ class NNTPFile(io.IOBase):
 		# check if we have the data of the current start offset
 		(spart_nb, spart_offset) = self._which_segment(self._current_position)
 		# spart_offset: offset from the start of spart_nb
+		if (spart_offset == self._segment_size_first and
+			spart_nb < self.nb_segments):
+			(spart_nb, spart_offset) = (spart_nb + 1, 0)
 		orig_spart_offset = spart_offset
 
 		# MAGIC: change start position for one segment only
-- 
2.43.0


From d4cf604f16edf7333f2050508857e77b465e5710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 074/116] fix: try other servers when the article of the first
 one is unusable

---
 usenet/srr_usenet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index a9679fc..a13b106 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -493,6 +493,9 @@ class NNTPFile(io.IOBase):
 		except (nntplib.NNTPError, yenc.YencException, yenc.CrcError) as error:
 			print("Main server: " + str(error))
 			dpart = None
+			# whole articles from here on: the little grabs only use the
+			# first server that has the article
+			nb_lines = -1
 
 			# try to get the part on one of the other servers
 			for server in EXTRA_SERVERS[NO_CLI_SERVER:]:
-- 
2.43.0


From ebd71ff25373be7bad0f9a10c9847a893bd527a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 075/116] fix: STAT on the other servers only asked the main
 server

---
 usenet/srr_usenet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index a13b106..bb6ff84 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1076,13 +1076,13 @@ class NNTPFile(io.IOBase):
 							if self.group:
 								for group in self.nzb_file.groups:
 									try:
-										self.server.group(group)
+										s.group(group)
 										continue
 									except nntplib.NNTPTemporaryError as error:
 										pass
 										# print(error)
 
-							(resp, _nr, _id) = self.server.stat("<%s>" %
+							(resp, _nr, _id) = s.stat("<%s>" %
 								self.segments[self.nb_segments].message_id)
 							if resp.startswith("223 "):
 								s.quit()
-- 
2.43.0


From b72aa8cdf5c321fc992811bc60bfdac5036bce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 076/116] fix: a dry run does not move NZB files

---
 usenet/srr_usenet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index bb6ff84..74725a2 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1399,7 +1399,7 @@ def create_srr_nzbmove(nzb_file):
 			print(windowserror)
 	try:
 		result = create_srr(nzb_file, options)
-		if not result:
+		if not result and not options.dry_run:
 			raise IncompleteNzb("SRR creation failed.")
 		if not options.dry_run:
 			new = join(dirname(nzb_file), "success", basename(nzb_file))
-- 
2.43.0


From f516b6f7fb3dde242df78a47f6621ac437acf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 077/116] fix: the yEnc header line is not data when the
 article ends right after it

---
 usenet/yenc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index c040e3c..a9f83cf 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -170,7 +170,7 @@ def yCheck(data):
 
 				ybegin = ySplit(data[i], splits)
 
-				if data[i + 1].startswith(b'=ypart '):
+				if data[i + 1:] and data[i + 1].startswith(b'=ypart '):
 					ypart = ySplit(data[i + 1])
 					data = data[i + 2:]
 					break
-- 
2.43.0


From bca4b1df8b37797344e392153e5fbafca3db70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 078/116] fix: do not look for yEnc fields in the file name

---
 usenet/yenc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index a9f83cf..408d8d6 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -163,9 +163,10 @@ def yCheck(data):
 		try:
 			if data[i].startswith(b'=ybegin '):
 				splits = 3
-				if data[i].find(b' part=') > 0:
+				fields = data[i].split(b' name=')[0]
+				if fields.find(b' part=') > 0:
 					splits += 1
-				if data[i].find(b' total=') > 0:
+				if fields.find(b' total=') > 0:
 					splits += 1
 
 				ybegin = ySplit(data[i], splits)
-- 
2.43.0


From 17965c5b1025a7de8d9f0100fda84905a8497d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 079/116] fix: the search for old archives used an undefined
 variable

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 47acbe7..977ccfb 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2437,7 +2437,7 @@ class CompressedRarFile(io.IOBase):
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
 			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.path()) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rar.path()) is not None)
 			found = False
 			if rar.supports_setting_threads():
 				while args.increase_thread_count(rar):
-- 
2.43.0


From e1dd512cbfb5d07aa1bf7970fc7c6e0f7ae145b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 080/116] fix: only look at the name of the RAR executable for
 its version

---
 rescene/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 977ccfb..ecc6b81 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2305,8 +2305,8 @@ class CompressedRarFile(io.IOBase):
 				"Grabbing large enough data piece size for testing.")
 			# we assume that newer versions always compress better
 			rarexe = repository.get_most_recent_version()
-			args.set_rar2_flags(re.search(r'_rar2', rarexe.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.path()) is not None)
+			args.set_rar2_flags(re.search(r'_rar2', rarexe.file_name) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.file_name) is not None)
 			
 			window_size = block.get_dict_size()
 			amount = 0
@@ -2354,8 +2354,8 @@ class CompressedRarFile(io.IOBase):
 #		args.threads = thread_count
 			
 		def try_rar_executable(rar, args, old=False):
-			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rar.path()) is not None)
+			args.set_rar2_flags(re.search(r'_rar2', rar.file_name) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rar.file_name) is not None)
 			compress = custom_popen([rar.path()] + args.arglist())
 			stdout, _ = compress.communicate()
 			
@@ -2436,8 +2436,8 @@ class CompressedRarFile(io.IOBase):
 			
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
-			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rar.path()) is not None)
+			args.set_rar2_flags(re.search(r'_rar2', rar.file_name) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rar.file_name) is not None)
 			found = False
 			if rar.supports_setting_threads():
 				while args.increase_thread_count(rar):
-- 
2.43.0


From e83af15f5688853cb5abd96601cfca4eb75e3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 081/116] fix: keep the next file when trying the other RAR
 versions

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecc6b81..64cfc90 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2472,7 +2472,7 @@ class CompressedRarFile(io.IOBase):
 						rar.args = args
 						return rar
 
-			args.reset_extra_files()			
+			args.set_extra_files_before([])
 			args.threads = ""
 
 		if using_piece:
-- 
2.43.0


From 0d255e600b09d03066a3ce1db3a954ae5fa3558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 082/116] fix: KeyError when the previous entry is not a
 compressed file

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 64cfc90..8a343b6 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2456,7 +2456,7 @@ class CompressedRarFile(io.IOBase):
 				print("Testing with previous file")
 				# try compressing with the previous rar file before it
 				prev = get_previous_block()
-				if prev:
+				if prev and prev.file_name in archived_files:
 					prev_file = archived_files[prev.file_name]
 					
 					args.set_extra_files_before([prev_file.source_files[-1]])
-- 
2.43.0


From 7add2f9101d9e32530e0b0fe7077600f959b915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 083/116] fix: solid archives with more than two files

---
 rescene/main.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 8a343b6..aa152f1 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2507,20 +2507,22 @@ class CompressedRarFile(io.IOBase):
 					RETURNCODE[compress.returncode])
 	
 			self.rarstream = RarStream(out, compressed=True,
-				packed_file_name=os.path.basename(self.source_files[-1]))
+				packed_file_name=os.path.basename(source_file))
 		compress()
+		packed_size = get_full_packed_size(block, self.blocks)
 		
 		# this happens with solid archives when the first file is small
 		# an .idx file is detected as having -mt1, but the .sub file can
 		# need 4 threads
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
 			_fire(MsgCode.MSG, message="Solid archive recompression.")
-			while(self.rarstream.length() != block.packed_size and 
+			while(self.rarstream.length() != packed_size and 
 				self.good_rar.supports_setting_threads() and
 				self.good_rar.args.increase_thread_count(self.good_rar)):
 				compress()
 			
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
+			self.close()
 			raise ValueError("Something isn't right yet.")
 		
 	def get_most_recent_date(self):
-- 
2.43.0


From 1fff82c8bd5862e385853aa11445043615a94b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 084/116] fix: temporary folders were left behind for solid
 archives

---
 rescene/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index aa152f1..08bda80 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2040,9 +2040,11 @@ def compressed_rar_file_factory(block, blocks, src,
 		if block.flags & block.SOLID:
 			# get first file from archive
 			if block != blocks[0]:
+				os.rmdir(working_temp_dir)  # the reused object has its own
 				if not followup:
 					# reuse CompressedRarFile because of the solid archive
 					rar = archived_files[blocks[0].file_name]
+					working_temp_dir = rar.temp_dir
 					rar.set_new(src, block)
 					return rar
 				else:
@@ -2050,6 +2052,7 @@ def compressed_rar_file_factory(block, blocks, src,
 					                   in_folder, hints, auto_locate_renamed)
 					# reuse CompressedRarFile because of the solid archive
 					rar = archived_files[blocks[0].file_name]
+					working_temp_dir = rar.temp_dir
 					rar.set_new(src, block, followup_src)
 					return rar
 		
-- 
2.43.0


From e93160e694a678cfd580677ef89a1f84f576065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 085/116] fix: skip RAR executables that fail during the search

---
 rescene/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 08bda80..f5d2cd2 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2367,7 +2367,10 @@ class CompressedRarFile(io.IOBase):
 				print(encodeerrors(stdout, sys.stdout))
 				_fire(MsgCode.MSG, message=
 					"Something went wrong executing Rar.exe:")
-				_fire(MsgCode.MSG, message=RETURNCODE[compress.returncode])
+				_fire(MsgCode.MSG, message=RETURNCODE.get(
+					compress.returncode, str(compress.returncode)))
+				if not os.path.isfile(out):
+					return False  # not possible with these parameters
 
 			# check if this is a good RAR version
 			start = size_min
-- 
2.43.0


From 7ec88992aeb834b6396c6b136766dbf0184f4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 086/116] fix: try all the numbers of threads of --mt-set and
 respect the maximum

---
 rescene/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index f5d2cd2..6068bdf 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1909,13 +1909,13 @@ class RarArguments(object):
 
 		if not self.threads:
 			if self.mt_settings.mt_set:
-				for count in self.mt_settings.mt_set:
+				for count in sorted(self.mt_settings.mt_set):
 					in_range = mt_min <= count <= mt_max and count <= mtcount
 					if in_range:
 						self.threads = "-mt%d" % count
 						return True
 				return False  # bad settings given: nothing to try
-			elif mt_min <= mtcount:
+			elif mt_min <= min(mtcount, mt_max):
 				self.threads = "-mt%d" % mt_min
 				return True
 			else:
@@ -1923,7 +1923,7 @@ class RarArguments(object):
 		else:
 			current_count = self.thread_count()
 			if self.mt_settings.mt_set:
-				for count in self.mt_settings.mt_set:
+				for count in sorted(self.mt_settings.mt_set):
 					in_range = (mt_min <= count <= mt_max and 
 					            count <= mtcount and
 					            count > current_count)
-- 
2.43.0


From a5ac09d4083b4419984b0f96ac71e745d014eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 087/116] fix: start each reconstruction without the files of a
 previous one

---
 rescene/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 6068bdf..d38431d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1224,6 +1224,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	
 	global temp_dir
 	temp_dir = tmp_dir
+	forget_archived_files()
 	
 	if rar_executable_dir:
 		initialize_rar_repository(rar_executable_dir)
@@ -1733,6 +1734,12 @@ def temp_folder_cleanup():
 	except TypeError:
 		pass
 	
+def forget_archived_files():
+	"""Start without the compressed files of an earlier reconstruction."""
+	global regular_method_failed
+	regular_method_failed = False
+	archived_files.clear()
+
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
 	rar_object = archived_files.setdefault(block.file_name,
-- 
2.43.0


From 52eb40cca5268ea58d74cbbd8d98c560053c1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 088/116] fix: the same file name in another RAR set used the
 data of the first one

---
 rescene/main.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d38431d..4187b9e 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1742,9 +1742,9 @@ def forget_archived_files():
 
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
-	rar_object = archived_files.setdefault(block.file_name,
-		compressed_rar_file_factory(block, blocks, src, in_folder, hints,
-		                            auto_locate_renamed))
+	rar_object = compressed_rar_file_factory(block, blocks, src, in_folder,
+		                                     hints, auto_locate_renamed)
+	archived_files[block.file_name] = rar_object
 	return rar_object
 
 def initialize_rar_repository(location):
@@ -2019,8 +2019,11 @@ def compressed_rar_file_factory(block, blocks, src,
 	                            in_folder, hints, auto_locate_renamed):
 	global regular_method_failed
 	if regular_method_failed:
-		regular_method_failed.set_file(block)
-		return regular_method_failed
+		if block in regular_method_failed.blocks:
+			regular_method_failed.set_file(block)
+			return regular_method_failed
+		temp_folder_cleanup()  # this file is from the next RAR set
+		regular_method_failed = False
 	
 	global working_temp_dir
 	working_temp_dir = get_temp_directory()
-- 
2.43.0


From 3d72907fb74db69a1015c697709d4bed87fe2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 089/116] fix: exit status when there are no RAR executables

---
 rescene/srr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 29db2cb..d99417c 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -312,11 +312,14 @@ def manage_srr(options, in_folder, infiles, working_dir):
 		rar_mt.mt_max = options.mt_max
 
 		try:
-			rescene.reconstruct(infiles[0], in_folder, out_folder, save_paths,
+			result = rescene.reconstruct(
+			                    infiles[0], in_folder, out_folder, save_paths,
 			                    hints, options.no_auto_crc,
 			                    options.auto_locate, options.fake,
 			                    options.rar_executable_dir, options.temp_dir,
 			                    options.volume is None, options.volume, rar_mt)
+			if result is False:  # nothing was reconstructed
+				return 1
 		except (FileNotFound, RarNotFound) as err:
 			mthread.done = True
 			mthread.join()
-- 
2.43.0


From 8ccf87e1927843bdd875b3477e2c01981183e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 090/116] fix: the previous file of the search could be the
 file itself

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 4187b9e..9370c55 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2475,7 +2475,7 @@ class CompressedRarFile(io.IOBase):
 				if prev and prev.file_name in archived_files:
 					prev_file = archived_files[prev.file_name]
 					
-					args.set_extra_files_before([prev_file.source_files[-1]])
+					args.set_extra_files_before([prev_file.source_files[0]])
 					
 					if rar.supports_setting_threads():
 						while args.increase_thread_count(rar):
-- 
2.43.0


From afd84bcd07e956478651aa00ffd1f0499cca0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 091/116] fix: the search compared the CRC of the previous file

---
 rescene/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 9370c55..1b2e26b 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2403,13 +2403,15 @@ class CompressedRarFile(io.IOBase):
 					if old:
 						for bl in rr:
 							if (bl.rawtype == BlockType.RarPackedFile
+							and bl.file_name == pfn
 							and 0xFFFFFFFF != bl.file_crc):
 								crc = bl.file_crc
 								ps = bl.packed_size # works because one big RAR
 								break
 					else:
 						for bl in rr:
-							if bl.rawtype == BlockType.RarPackedFile:
+							if (bl.rawtype == BlockType.RarPackedFile
+							and bl.file_name == pfn):
 								crc = bl.file_crc
 								break
 					rr.close()
-- 
2.43.0


From 0085e4d4815bbcc4423a17e1e0aeeecdc3789260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 092/116] fix: the temporary folder was left behind without RAR
 executables

---
 rescene/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 1b2e26b..bb66a46 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2088,6 +2088,9 @@ def compressed_rar_file_factory(block, blocks, src,
 			return regular_method_failed
 		else:
 			raise
+	except Exception:
+		temp_folder_cleanup()
+		raise
 
 def followed_by_solid_block(block, blocks):
 	start = False
-- 
2.43.0


From e240ee6b8cb63b2136830714757a6a63876de5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 093/116] fix: the next RAR set starting with the same file

---
 rescene/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index bb66a46..51b25f5 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1298,7 +1298,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				# TODO: !!! not fully copied?
 		elif block.rawtype == BlockType.RarPackedFile:
 			# keep track of offsets in the packed file
-			if packed_name != block.file_name:
+			new_file = not block.flags & RarPackedFileBlock.SPLIT_BEFORE
+			if packed_name != block.file_name or new_file:
 				packed_name = block.file_name
 				next_offset = 0
 			packed_offset = next_offset
@@ -1319,7 +1320,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
-			if source_name != block.file_name:
+			if source_name != block.file_name or new_file:
 				try: srcfs.close()
 				except: pass
 				source_name = block.file_name
-- 
2.43.0


From 8626c258402e9eed5fa9ccd87f80b9e4a36dd17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 094/116] fix: articles whose headers the main server does not
 have

---
 usenet/srr_usenet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 74725a2..ed99c51 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -836,13 +836,17 @@ class NNTPFile(io.IOBase):
 				# download not more data than necessary for RR meta data
 				if (be_efficient() and i == end_part and
 					is_not_edge_segment(spart_nb)):
-					result = self.server.head("<%s>" % message_id)
 					lines = 0  # 'Lines: 6103'
-					try:  # Python 3
+					headers = []
+					try:
+						result = self.server.head("<%s>" % message_id)
 						# [resp, ArticleInfo(number, message_id, lines)]
 						[_resp, [_article_number, _msg_id, headers]] = result
 					except ValueError:  # Python < 3
 						headers = result[3]
+					except nntplib.NNTPError as error:
+						# grab_segment() tries the other servers too
+						print(error)
 					for hline in headers:
 						match = re.match(b"Lines: (\d+)", hline, re.I)
 						if match:
-- 
2.43.0


From a39eef9574e20d9653dd1f39a673da4c30cd5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 095/116] fix: skip servers that are down when trying to read a
 RAR file again

---
 usenet/srr_usenet.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index ed99c51..9cf1938 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -372,12 +372,17 @@ class NNTPFile(io.IOBase):
 		# it'll let the last one time out
 
 		# change the server here too (so we try other servers if it fails)
-		while server_nb > len(EXTRA_SERVERS) - 1:
-			server_nb -= len(EXTRA_SERVERS)
-			if server_nb < 0:
-				server_nb = 0
-
-		self.server = NNTP(*EXTRA_SERVERS[server_nb])
+		servers = len(EXTRA_SERVERS)
+		for attempt in range(server_nb, server_nb + servers):
+			try:
+				self.server = NNTP(*EXTRA_SERVERS[attempt % servers])
+				break
+			except (nntplib.NNTPError, socket.error) as error:
+				print(error)
+				print("Connecting to '%s' failed." %
+				      EXTRA_SERVERS[attempt % servers][0])
+				if attempt == server_nb + servers - 1:
+					raise  # none of the servers works
 		print(self.server.getwelcome())
 		self.new_server = True
 
-- 
2.43.0


From 73e94cf42dfd55e5ef38d39c7a5b89792fae92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 096/116] fix: endless loop extracting WMV tracks with an
 impossible packet count

The data packet count of a damaged main file can make the size of one packet
zero: the loop to the first match then took up to 2^63 steps that do nothing.
---
 resample/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 18e9f9c..3d80e89 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3288,6 +3288,9 @@ def wmv_extract_sample_streams(self, tracks, main_wmv_file):
 			# data packet/media object size
 			psize = (o.size - len(o.raw_header)) // total_data_packets
 			start = o.start_pos + len(o.raw_header)
+			# an impossible amount of packets: all the steps do nothing
+			if psize <= 0:
+				raise ValueError("Invalid amount of data packets")
 			for i in range(total_data_packets):
 				# don't do unnecessary processing
 				if start + i * psize + psize < start_offset:
-- 
2.43.0


From 5f4b568937bf4ecd1fc5468ecb0b6d215a11e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 097/116] fix: MP4 tables with impossible counts used up all
 memory

A damaged sample to chunk table or sample count made lists with up to 2^32
elements.
---
 resample/main.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 3d80e89..1529a9d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1297,9 +1297,6 @@ def profile_mp4(mp4_data,  # FileData object
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
 
-			# enlarge compactly coded tables
-			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
-
 # 			print(current_track.chunk_lengths)
 
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
@@ -1311,6 +1308,9 @@ def profile_mp4(mp4_data,  # FileData object
 					(out,) = BE_LONG.unpack_from(data, j)
 					current_track.sample_lengths.append(out)
 			else:
+				# damaged: do not use up all the memory
+				if sample_count > mr._file_length:
+					raise ValueError("Invalid sample count")
 				for i in range(sample_count):
 					current_track.sample_lengths.append(sample_size)
 # 			print(current_track.sample_lengths)
@@ -1320,6 +1320,9 @@ def profile_mp4(mp4_data,  # FileData object
 		    len(current_track.chunk_lengths) and
 		    len(current_track.sample_lengths)):
 			track_processed = True
+			# enlarge compactly coded tables
+			current_track.chunk_lengths = stsc(current_track.chunk_lengths,
+			                               len(current_track.chunk_offsets))
 
 			# in profile mode, we want to build track signatures
 			# TODO: skip in other modes
@@ -1334,8 +1337,9 @@ def profile_mp4(mp4_data,  # FileData object
 # 	assert meta_length == mp4_data.size - data_length
 	return tracks
 
-def stsc(samples_chunk):
-	"""Decompact compactly coded table."""
+def stsc(samples_chunk, chunk_count=float("inf")):
+	"""Decompact compactly coded table.
+	chunk_count: there are no chunks after this one"""
 	old = samples_chunk
 	new = []
 	index = 1
@@ -1344,7 +1348,7 @@ def stsc(samples_chunk):
 	for (first_chunk, samples_per_chunk, sample_description_index) in old:
 		if first_chunk > index:
 			# fill between chunks
-			for i in range(index, first_chunk):
+			for i in range(index, min(first_chunk, chunk_count + 1)):
 				new.append((i, prev_samples_per_chunk,
 						prev_sample_description_index))
 				index += 1
@@ -3658,9 +3662,6 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 				# sample_description_index
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
-
-			# enlarge compactly coded tables
-			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
 			(sample_size,) = BE_LONG.unpack_from(data, 4)
 			(sample_count,) = BE_LONG.unpack_from(data, 8)
@@ -3670,6 +3671,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 					(out,) = BE_LONG.unpack_from(data, j)
 					current_track.sample_lengths.append(out)
 			else:
+				# damaged: do not use up all the memory
+				if sample_count > current_track.data_length:
+					raise ValueError("Invalid sample count")
 				for i in range(sample_count):
 					current_track.sample_lengths.append(sample_size)
 
@@ -3679,6 +3683,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		    len(current_track.chunk_lengths) and
 		    len(current_track.sample_lengths)):
 			track_processed = True
+			# enlarge compactly coded tables
+			current_track.chunk_lengths = stsc(current_track.chunk_lengths,
+			                               len(current_track.chunk_offsets))
 	mr.close()
 
 	return tracks
-- 
2.43.0


From e65a5818b90ee63f5d4bd6b5838b3897a7e447d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 098/116] fix: truncated SRS file listed a track zero

An empty track element was taken for a new track instead of damage.
---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 1529a9d..4c98df5 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -390,7 +390,7 @@ class TrackData(object):
 	SUPPORTED_FLAG_MASK = BIG_FILE | BIG_TACK_NUMBER
 
 	def __init__(self, buff=None):
-		if buff:
+		if buff is not None:
 			(self.flags,) = S_SHORT.unpack_from(buff, 0)
 
 			if self.flags & self.BIG_TACK_NUMBER:
-- 
2.43.0


From 9c93bbf5167743006415d0ac989943189beecd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 099/116] fix: listing counted the placeholder for an unknown
 size as data

An archived file whose header says 0xffffffff got that number added to its
size when its first volume holds none of its data.
---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 51b25f5..654ff1b 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1043,7 +1043,7 @@ def info(srr_file):
 			if block.unpacked_size == 0xffffffff and not f.compression:
 				# 2) above int was correct? it must match at the end
 				f.file_size += block.packed_size
-			if block.unpacked_size != 0xffffffffffffffff and f.file_size == 0:
+			elif block.unpacked_size != 0xffffffffffffffff and f.file_size == 0:
 				# 1) expected the last RAR (first with the proper value)
 				f.file_size = block.unpacked_size
 			# crc of the file is the crc stored in
-- 
2.43.0


From e41ac3760563da744e9a9c65b9f7670026beb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 100/116] fix: retag stopped at an SRS that is not for music

The extracted SRS file was removed twice.
---
 bin/retag.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bin/retag.py b/bin/retag.py
index 94a022b..36fe13b 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -115,7 +115,6 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	except NoTaggingAvailable as not_music:
 		print("")
 		print(str(not_music))
-		os.remove(srs)
 		return False
 
 	original_name = srs_info.sample_name
-- 
2.43.0


From 09b5121c6c3531f2d470e582e97b9730e86b5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 101/116] fix: retag always returned the status of a failure

---
 bin/retag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/retag.py b/bin/retag.py
index 36fe13b..6bac5fd 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -102,6 +102,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		"" if failures == 1 else "s",
 		"" if not skips else "%s skip%s." %
 	    	(skips, "" if skips == 1 else "s")))
+	return failures == 0
 
 def fix_tagging(srs, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
-- 
2.43.0


From dde67d3486c0da5bca300a714f018a7ea8507906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 102/116] fix: retag mixed up stored files with the same name
 in different folders

The name of a stored file without path selects it in every folder.
---
 bin/retag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 6bac5fd..1beec69 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -70,12 +70,14 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			srs_files.append(sfile)
 		else:
 			print("Extracting %s" % sfile)
-			rescene.extract_files(srr_file, output_dir, True, sfile)
+			rescene.extract_files(srr_file, output_dir, True,
+			                      matcher=lambda name: name == sfile)
 
 	# fix music files that can be found
 	for srs in srs_files:
 		print("Using %s" % srs)
-		(out, ok) = rescene.extract_files(srr_file, output_dir, True, srs)[0]
+		(out, ok) = rescene.extract_files(srr_file, output_dir, True,
+			matcher=lambda name: name == srs)[0]
 		if not ok:
 			# file extraction failed or existing .srs not overwritten
 			print("Attempt to fix track aborted.")
-- 
2.43.0


From abbe4fc707e7faf0c9186a112e89d292b523f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 103/116] fix: retag used a track of the same name from the
 wrong folder

---
 bin/retag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 1beec69..bbced8c 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -123,12 +123,12 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	original_name = srs_info.sample_name
 	print("Fixing %s" % original_name)
 
-	musicf = join_fix_case(input_dir, original_name)
 	out_subfolder = os.path.dirname(os.path.relpath(srs, output_dir))
+	srr_path = out_subfolder.split("/")
+	srr_path.append(original_name)
+	musicf = join_fix_case(input_dir, *srr_path)
 	if not os.path.isfile(musicf):
-		srr_path = out_subfolder.split("/")
-		srr_path.append(original_name)
-		musicf = join_fix_case(input_dir, *srr_path)
+		musicf = join_fix_case(input_dir, original_name)
 		if not os.path.isfile(musicf):
 			print("Track not found")
 			raise ValueError("not found")
-- 
2.43.0


From b57d5e9ffed706b2761ba1f3e9b2c416a2112844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 104/116] fix: srs_batch -n created no SRS files at all

The empty parameter made the usage information appear. Samples that
already have an SRS file are now skipped.
---
 bin/srs_batch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/srs_batch.py b/bin/srs_batch.py
index 97fbbe2..1dd858d 100644
--- a/bin/srs_batch.py
+++ b/bin/srs_batch.py
@@ -60,13 +60,17 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	if not os.path.isdir(dest_dir):
 		os.makedirs(dest_dir)
 
+	srs = os.path.join(dest_dir, os.path.splitext(sample_file)[0] + ".srs")
+	if keep and os.path.exists(srs):
+		print("Already exists: %s" % srs)
+		return
+
 	original_stderr = sys.stderr
 	txt_error_file = os.path.join(dest_dir, sample_file) + ".txt"
 	sys.stderr = open(txt_error_file, "wt")
 	keep_txt = False
 	try:
-		overwrite_param = "" if keep else "-y"
-		srsmain([sample, overwrite_param, "-o", dest_dir], True)
+		srsmain([sample, "-y", "-o", dest_dir], True)
 	except ValueError:
 		keep_txt = True
 
-- 
2.43.0


From 70c06d0e113677dcf337aa8ba07f0b62465d23da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 105/116] fix: srr_sort never listed SRRs with two or more NFO
 files

---
 bin/srr_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index b89efff..705baa6 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -73,8 +73,8 @@ def check_repack(srr_file):
 	return False
 
 def check_nfos(srr_file):
+	nfo_count = 0
 	for block in RarReader(srr_file):
-		nfo_count = 0
 		if (block.rawtype == BlockType.SrrStoredFile and
 			block.file_name[-4:].lower() == ".nfo"):
 			nfo_count += 1
-- 
2.43.0


From 8bec3b1ce49ce3d8f9797b90a1ec357b2c6a9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 106/116] fix: srr_sort did not see .jpeg files as images

---
 bin/srr_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index 705baa6..9758ce9 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -54,7 +54,7 @@ def check_empty(srr_file):
 	return True
 
 def check_image(srr_file, noproof):
-	images = (".jpg", ".png", ".bmp", ".gif", "jpeg")
+	images = (".jpg", ".png", ".bmp", ".gif", ".jpeg")
 	for block in RarReader(srr_file):
 		if (block.rawtype == BlockType.SrrStoredFile and
 			os.path.splitext(block.file_name)[1] in images):
-- 
2.43.0


From 20320223eb0cf50c42227524638eee61e078ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 107/116] fix: srr_sort replaced another SRR file of the same
 name when moving

---
 bin/srr_sort.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index 9758ce9..efe6f49 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -172,10 +172,14 @@ def check(srr_file):
 		if options.txt:
 			result |= check_for_ext(srr_file, ".txt")
 		if result and options.output_dir:
-			print("Moving %s." % srr_file)
 			srr_name = os.path.basename(srr_file)
-			# move the SRR to the given directory
-			os.renames(srr_file, os.path.join(options.output_dir, srr_name))
+			destination = os.path.join(options.output_dir, srr_name)
+			if os.path.exists(destination):
+				print("Not moving %s: already exists." % srr_file)
+			else:
+				print("Moving %s." % srr_file)
+				# move the SRR to the given directory
+				os.renames(srr_file, destination)
 		if result:
 			print(os.path.basename(srr_file))
 	except (EnvironmentError, Exception) as err:
-- 
2.43.0


From 8b0bbe0a8f9ad395f437b8b2b80cbeda4a50c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 108/116] fix: srs_bad only looked at one of the samples with
 the same name

---
 bin/srs_bad.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bin/srs_bad.py b/bin/srs_bad.py
index 6a5da42..1a6bcab 100644
--- a/bin/srs_bad.py
+++ b/bin/srs_bad.py
@@ -66,11 +66,9 @@ def handle_srr(srr_file, options, temporary_directory):
 			printout.add(stored_file)
 
 	if extracting_needed:
-		extract_files(srr_file, temporary_directory, extract_paths=False)
-		for value in srrinfo["stored_files"].values():
-			fn = basename(value.file_name)
+		for srsf, _success in extract_files(srr_file, temporary_directory):
+			fn = basename(srsf)
 			if fn.endswith(".srs"):
-				srsf = join(temporary_directory, fn)
 				ft = file_type_info(srsf).file_type
 				if ft not in [FileType.MP3, FileType.FLAC]:
 					sample = sample_class_factory(ft)
-- 
2.43.0


From 68a137bb8261cc6473116154345c87723e784dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 109/116] fix: first match not tried again with other tracks
 for SRS files with cut signatures

---
 resample/srs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index ac6d027..2493a53 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -189,7 +189,8 @@ def find_best_educated_guesses(tracks, cut_data):
 		tracks[track_id].olist += list(reversed(in_range))
 
 		# the first and only match for this track is what we need
-		if not len(tracks[track_id].olist):
+		# (or together with an other match for an other bad track)
+		if not len(tracks[track_id].olist) or len(cut_data) > 1:
 			tracks[track_id].olist.append(tracks[track_id].match_offset)
 
 def main(argv=None, no_exit=False):
-- 
2.43.0


From 6f98fd1b0abb8afcb630346118bcc76b62e18c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 110/116] fix: upper case hexadecimal entities escaped when
 repairing an NZB

---
 usenet/nzb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 30ad991..358a856 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -41,7 +41,7 @@ def read_nzb(nzb_file):
 		# Problem with the ampersand.
 		# newsmangler doesn't properly escape the & in the NZB
 		# http://www.powergrep.com/manual/xmpxmlfixentities.html
-		XML_AMP_FIX = b"&(?!(?:[a-z]+|#[0-9]+|#x[0-9a-f]+);)"
+		XML_AMP_FIX = b"&(?!(?:[a-z]+|#[0-9]+|#x[0-9a-fA-F]+);)"
 		fixed_nzb = io.BytesIO()
 		with open(nzb_file, "rb") as bfile:
 			previous_line = b""
-- 
2.43.0


From ebd3ceb1fc7a6fc2c0ba1a2129b8c461af967662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 111/116] fix: unescaped ampersand before a word and a
 semicolon made an NZB unreadable

---
 usenet/nzb_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index 358a856..d143163 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -41,7 +41,7 @@ def read_nzb(nzb_file):
 		# Problem with the ampersand.
 		# newsmangler doesn't properly escape the & in the NZB
 		# http://www.powergrep.com/manual/xmpxmlfixentities.html
-		XML_AMP_FIX = b"&(?!(?:[a-z]+|#[0-9]+|#x[0-9a-fA-F]+);)"
+		XML_AMP_FIX = b"&(?!(?:amp|lt|gt|quot|apos|ouml|#[0-9]+|#x[0-9a-fA-F]+);)"
 		fixed_nzb = io.BytesIO()
 		with open(nzb_file, "rb") as bfile:
 			previous_line = b""
-- 
2.43.0


From f5c54f58e70790e87080eb9f23ba24caea6fb25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:58 +0000
Subject: [PATCH 112/116] fix: NUL bytes in entities of an NZB to repair

---
 usenet/nzb_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index d143163..e43e1b7 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -47,11 +47,11 @@ def read_nzb(nzb_file):
 			previous_line = b""
 			nzb_end_tag = False
 			for line in bfile.readlines():
+				# invalid XML characters from NewsLeecher
+				line = re.sub(b"\00", b"", line)
 				line = re.sub(XML_AMP_FIX, b"&amp;", line)
 				LATIN1_OUML = b"\xF6"
 				line = re.sub(b"&ouml;", LATIN1_OUML, line)
-				# invalid XML characters from NewsLeecher
-				line = re.sub(b"\00", b"", line)
 				# <!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->
 				# after the comment the NZB closing tag appears twice
 				if b"</nzb>" in line:
-- 
2.43.0


From 0315c3c4e58f1d742ab9ba0363b9d4cee1e1274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 113/116] fix: recovery records kept in old SRRs were lost on
 edits and rebuilds

---
 rescene/rar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index c40f7d9..538742a 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1589,7 +1589,12 @@ class RarReader(object):
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				self._rarstream.seek(add_size, 1)
+				# the data belongs to the block: it must not get lost when
+				# the SRR is edited and it is needed to rebuild the volume
+				if block_start_position + hsize + add_size > self._file_length:
+					raise EnvironmentError("Invalid RAR data length (%d) at"
+						" offset %#x" % (add_size, block_start_position))
+				block_buffer += self._rarstream.read(add_size)
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
-- 
2.43.0


From 6c4669d89b6db1351f4ef07d316c933906747136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 114/116] fix: don't drop the SRS of a track that has the name
 of a track on an other disc

pyrescene.py compared the checksum of each music SRS with that of the SFV
by base name only, with the last SFV read winning. Releases with tracks of
the same name in CD1 and CD2 lost the SRS files of all discs but one.
---
 bin/pyrescene.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 2477a9f..7e0b50c 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1203,7 +1203,9 @@ def generate_srr(reldir, working_dir, options, mthread):
 		crclist = {}
 		for sfv in sfvs:
 			for sfvf in rescene.utility.parse_sfv_file(sfv)[0]:
-				crclist[sfvf.file_name.lower()] = sfvf.crc32
+				# tracks on different discs can have the same file name
+				crclist.setdefault(
+					sfvf.file_name.lower(), []).append(sfvf.crc32)
 
 		to_remove = []
 		for stored_file in copied_files:
@@ -1213,8 +1215,9 @@ def generate_srr(reldir, working_dir, options, mthread):
 						file_type_info(stored_file).file_type)
 					srs_data, _tracks = sample.load_srs(stored_file)
 					# accept SRS if it isn't in the SFV
-					crc = int(crclist.get(srs_data.name.lower(), "-1"), 16)
-					if srs_data.crc32 != crc and crc != -1:
+					crcs = [int(crc, 16) for crc in
+						crclist.get(srs_data.name.lower(), [])]
+					if crcs and srs_data.crc32 not in crcs:
 						to_remove.append(stored_file)
 						logging.critical("%s: SFV verification failed for %s."
 										% (reldir, srs_data.name))
-- 
2.43.0


From f69758ff0464ad7bf02eee128fe9b5e21b84a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:01 +0000
Subject: [PATCH 115/116] fix: list all volumes when folders have volumes of
 the same name

info() used the lower-case base name as key, so of CD1/x.rar and CD2/x.rar
only the last one was listed, with the checksum of whatever SFV came last,
and content_hash() ignored the other volumes.
---
 rescene/main.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 654ff1b..d47e140 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -976,6 +976,7 @@ def info(srr_file):
 	stored_files = odict()   # files stored in the srr
 	rar_files = odict()      # rar, r00, ...
 	sfv_entries = []         # non repairable files from the SFV
+	sfv_folders = []         # the folder of the SFV for each of the entries
 	sfv_comments = []
 	archived_files = odict() # files inside rar archive(s)
 	appname = ""
@@ -1003,6 +1004,8 @@ def info(srr_file):
 					sfvdata = sfv.read(block.file_size)
 				(entries, comments, errors) = parse_sfv_data(sfvdata)
 				sfv_entries.extend(entries)
+				folder = os.path.dirname(block.file_name)
+				sfv_folders.extend([folder] * len(entries))
 				sfv_comments.extend(comments)
 				# TODO: let user know that there is a bad SFV
 				sfv_comments.extend(errors)
@@ -1012,7 +1015,10 @@ def info(srr_file):
 			add_size = False
 			current_rar = None # end the file size counting
 				
-			key = os.path.basename(block.file_name.lower())
+			full_name = block.file_name.lower()
+			key = os.path.basename(full_name)
+			if key in rar_files and rar_files[key].file_name.lower() != full_name:
+				key = full_name  # volume with the same name in an other folder
 			current_rar = FileInfo()
 			current_rar.file_name = block.file_name
 			current_rar.file_size = 0
@@ -1117,15 +1123,17 @@ def info(srr_file):
 										  block.header_size)
 			rar_files[current_rar.key] = current_rar	
 	
-	def add_info_to_rar(sfv_entry):
+	def add_info_to_rar(sfv_entry, folder):
 		"""Add SFV crc32 hashes to the right RAR info block"""
 		key = os.path.basename(sfv_entry.file_name).lower()		  
-		rar = rar_files.get(key)
+		full_name = os.path.join(folder, sfv_entry.file_name).lower()
+		rar = rar_files.get(full_name.replace("\\", "/"), rar_files.get(key))
 		if rar is not None:
 			rar.crc32 = sfv_entry.crc32.upper()
 			return True
 		return False
-	sfv_entries[:] = [e for e in sfv_entries if not add_info_to_rar(e)]
+	sfv_entries[:] = [e for (e, folder) in zip(sfv_entries, sfv_folders)
+	                  if not add_info_to_rar(e, folder)]
 	
 	return {"appname": appname, 
 	        "stored_files": stored_files,
@@ -1150,10 +1158,11 @@ def content_hash(srr_file, algorithm='sha1'):
 	with open(srr_file, 'rb') as sfile:
 		# sort based on file name without path
 		# the difference in capitals is ignored
-		for key in sorted(rar_files.keys()):
-			start = rar_files[key].offset_start_rar
+		for rar in sorted(rar_files.values(), key=lambda r: (
+				os.path.basename(r.file_name.lower()), r.file_name.lower())):
+			start = rar.offset_start_rar
 			try:
-				end = rar_files[key].offset_end_rar
+				end = rar.offset_end_rar
 				amount = end - start
 			except AttributeError:
 				amount = -1 # read until EOF
-- 
2.43.0


From 0adf23a8df5db3ef4c1cf859228cba91a06e76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 116/116] fix: the order of a release's files in the SRR does
 not depend on the file system

os.walk gives folders and files in the order of the file system: on some the
volumes of CD2 came before those of CD1 and the same release could give
different SRRs.
---
 bin/pyrescene.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 7e0b50c..9a73a8d 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -150,8 +150,9 @@ def get_files(release_dir, extension):
 	"""Gather all 'extension' files from the subdirs."""
 	matches = []
 	try:
-		for dirpath, _dirnames, filenames in os.walk(release_dir):
-			for filename in filenames:
+		for dirpath, dirnames, filenames in os.walk(release_dir):
+			dirnames.sort()  # the same order on every file system
+			for filename in sorted(filenames):
 				if fnmatch.fnmatchcase(filename.lower(), extension.lower()):
 					matches.append(os.path.join(dirpath, filename))
 		return matches
@@ -164,8 +165,9 @@ def get_files_list(release_dir, extension_list):
 	"""Gather all files that match an extension from the list."""
 	matches = []
 	try:
-		for dirpath, _dirnames, filenames in os.walk(release_dir):
-			for filename in filenames:
+		for dirpath, dirnames, filenames in os.walk(release_dir):
+			dirnames.sort()  # the same order on every file system
+			for filename in sorted(filenames):
 				fn = filename.lower()
 				for video_ext in extension_list:
 					if fnmatch.fnmatchcase(fn, "*" + video_ext):
@@ -703,7 +705,7 @@ def create_srr_for_subs(unrar, sfv, working_dir, release_dir):
 		if first_rars:
 			first_level = True  # RARS not somewhere in the temp folder
 		else:
-			first_rars = rescene.utility.first_rars(os.listdir(folder))
+			first_rars = rescene.utility.first_rars(sorted(os.listdir(folder)))
 			first_rars = [os.path.join(folder, x) for x in first_rars]
 			first_level = False
 		if not len(first_rars):
-- 
2.43.0

