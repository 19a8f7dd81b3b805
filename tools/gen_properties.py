"""Regenerates /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


prop("P01", "Store-mode RAR volumes are rebuilt byte for byte from the SRR",
     "For every store-mode (-m0) RAR 1.5-4.x volume set, creating an SRR from it and reconstructing with the SRR plus the "
     "extracted files gives back every volume under its original name with exactly the original bytes (recovery records, "
     "comments, padding and end-of-archive blocks included). This does not depend on volume naming, on how files are spread "
     "over volumes, on directories inside the archive, or on whether the SRR was made from the SFV, the RARs or both. SRRs of the first generation, which hold whole recovery records of volumes, rebuild them as well.",
     ["inputs", "configurations"],
     "all store-mode volume sets (number/size of files, split points, naming scheme, optional blocks, recovery records), all creation inputs",
     "The tests rebuild two or three fixed archives (one volume, one recovery record); the space of layouts x options is unbounded and multi-volume splits at chunk boundaries are not sampled.",
     ["rescene/main.py", "rescene/rar.py", "rescene/utility.py"],
     [("create_srr copies headers and drops stored data", "rescene/main.py create_srr/_handle_rar"),
      ("reconstruct replays blocks and re-reads source data", "rescene/main.py reconstruct/_write_recovery_record")],
     [("srr block list", "header-only image of all volumes", "the .srr file"),
      ("source offset", "position in the extracted file while volumes are written", "reconstruct()")],
     ["return value of reconstruct", "bytes of the output volumes"])

prop("P02", "SRR listing is faithful to the volumes and files that went in",
     "What the listing of an SRR reports - application name, stored files with size and data, RAR volumes in order with size and "
     "checksum, archived files with size and CRC, recovery record presence, SFV entries and comments, compression flag - equals what "
     "was put in, for locally created SRRs and after any stored-file edits. The SRR never contains archived file data and its stored "
     "files can be extracted with identical bytes.",
     ["inputs", "configurations"],
     "all volume sets, stored file lists (order, names with directories and non-ASCII characters, sizes including empty) and creation options",
     "Tests assert single fields on a handful of sample SRRs; ordering, sizes, multi-set and duplicate-basename combinations are not reached.",
     ["rescene/main.py", "rescene/rar.py"],
     [("info walks all blocks", "rescene/main.py info"), ("SRR block writers", "rescene/rar.py SrrStoredFileBlock, SrrRarFileBlock, SrrHeaderBlock")],
     [("srr block list", "header, stored files, RAR sections, OSO hashes", "the .srr file")],
     ["info() result", "extract_files()"])

prop("P03", "Stored-file edits change exactly the stored files they name",
     "After any sequence of adding, removing and renaming stored files, the stored-file list (names, order, bytes) is exactly what "
     "the sequence of edits prescribes (a name that is already stored is refused, renaming an unknown name is refused, removing an unknown name changes nothing), and everything else in the SRR "
     "(application name, RAR metadata, hashes) stays byte-identical so that the release can still be rebuilt.",
     ["histories", "inputs"],
     "every finite sequence of add/remove/rename requests over every SRR (with or without RAR blocks, path separators, case variants)",
     "Unit tests apply one edit to a fixed SRR; the guarantee is about every history and about what must not change.",
     ["rescene/main.py", "rescene/rar.py"],
     [("rewrite through temporary file", "rescene/main.py add_stored_files/remove_stored_files/rename_stored_file"),
      ("duplicate check", "rescene/main.py add_stored_files")],
     [("stored", "ordered list of (name, bytes)", ".srr file"), ("rest", "all remaining blocks", ".srr file")],
     ["bytes of the SRR after each call", "raised exceptions"])

prop("P04", "Edits to an SRR are crash- and fault-safe",
     "If adding, removing or renaming a stored file fails with an error or is interrupted at any file operation, the original SRR is still in place with "
     "its old contents and no temporary file is left behind. If the process is killed at any point, the complete old or the complete "
     "new SRR still exists on disk in the same directory: a truncated or mixed file is never found under the SRR's name.",
     ["crash_points", "fault_sequences"],
     "every file operation of an edit as crash point or failing operation, including writes that fail part-way (disk full)",
     "No test injects a fault or a crash; the number of points grows with the edit.",
     ["rescene/main.py"],
     [("write to temp in same directory, then remove+rename", "rescene/main.py add_stored_files/remove_stored_files/rename_stored_file")],
     [("disk", "contents under the SRR name and under temporary names", "directory of the SRR")],
     ["directory contents after fault or crash"])

prop("P05", "Extraction stays inside the output folder and asks before overwriting",
     "Extracting stored files from any SRR, and rebuilding RAR volumes from it, creates or changes files only inside the requested output folder, whatever names the SRR contains "
     "(absolute, parent references, either slash, empty or device-like elements). An existing file is only replaced with consent, with "
     "or without recreating paths, and the outcome reported for each file is what happened on disk.",
     ["inputs", "configurations"],
     "every SRR (including hostile ones), every name, matcher, path option and consent answer",
     "Tests try a few benign names; hostile names form an unbounded set.",
     ["rescene/main.py", "rescene/utility.py"],
     [("path joining validates elements", "rescene/utility.py joinpath"), ("consent callback", "rescene/main.py can_overwrite")],
     [], ["directory tree before/after", "returned (path, success) list"])

prop("P06", "Reconstruction never reports success for wrong source files",
     "When a source file is missing, has the wrong size or has different contents, reconstruction raises an error or reports the "
     "checksum mismatch; it never silently produces a wrong volume, also when a source was named by a hint or found by automatic search. Only on request a lost file is taken to be zeros; everything else of the volumes stays right then. "
     "Verification of extracted files (by the SRR or an SFV) counts a file as good exactly if its bytes match, and existing volumes are never overwritten without consent.",
     ["inputs", "configurations", "fault_sequences"],
     "every combination of damaged/missing/renamed sources, hints, auto-location, path option, pre-existing outputs and volume selection",
     "Tests cover one wrong-size case and one hint.",
     ["rescene/main.py", "rescene/srr.py"],
     [("size check and CRC while writing", "rescene/main.py reconstruct"), ("locating of sources", "rescene/main.py _locate_file/_auto_locate_renamed"),
      ("verification of extracted files", "rescene/srr.py verify_extracted_files")],
     [], ["raised exceptions", "CRC events", "bytes of outputs", "exit status"])

prop("P07", "Random access into archived files equals the file itself",
     "Reading a file directly out of a store-mode RAR set behaves exactly like reading the plain file: every sequence of seeks, reads and "
     "position queries returns the same bytes and positions wherever volume boundaries fall. The right archived file is chosen by name, "
     "the length is the file's length, and reading at or past the end yields nothing.",
     ["inputs", "histories"],
     "every volume layout and every sequence of seek/read/tell calls",
     "Tests read two fixed archives at a few offsets.",
     ["rescene/rarstream.py", "rescene/rar.py"],
     [("volume lookup per position", "rescene/rarstream.py RarStream.read/seek")],
     [("pos", "current position in the packed file", "RarStream")],
     ["bytes and positions returned"])

prop("P08", "Volume naming: next volume, first volume and archive detection agree",
     "For every volume naming scheme (.rar/.r00../.s00.., zero-padded .partN.rar with any digit count, .001) the chain obtained by repeatedly asking "
     "for the next volume visits every volume of the set once, in archive order. Exactly the first volume of each set is recognised as first, "
     "whatever the order, letter case and mixture of sets in the list given.",
     ["inputs"],
     "all base names, schemes, lengths of the set (carry r99->s00, part09->part10, part099->part100) and listing orders",
     "Tests list a dozen names; carries and mixed sets are not enumerated.",
     ["rescene/utility.py", "rescene/main.py"],
     [("name successor", "rescene/utility.py next_archive"), ("first-volume filter", "rescene/utility.py first_rars, is_rar"),
      ("sfv ordering", "rescene/utility.py SfvEntry ordering")],
     [], ["returned names"])

prop("P09", "SFV data is parsed, ordered and compared losslessly",
     "Parsing an SFV yields exactly its file/CRC pairs (names with spaces, upper/lower case CRCs, any line ending, comments and blank lines separated), "
     "sorting puts archive volumes in their archive order, and removing duplicates or comparing two SFVs depends only on the set of name/CRC pairs.",
     ["inputs", "configurations"],
     "all SFV texts and line orders",
     "Tests parse a handful of literal SFVs.",
     ["rescene/utility.py", "rescene/srr.py"],
     [("SfvEntry", "rescene/utility.py SfvEntry"), ("parse_sfv_data", "rescene/utility.py parse_sfv_data")],
     [], ["entries, comments, errors returned", "exit status of verification"])

prop("P10", "AVI, MKV, MP4 and WMV samples are rebuilt byte for byte",
     "For every well-formed AVI, MKV, MP4 or WMV sample whose stream data occurs in the main video (the beginning of each track's data in one place only, "
     "not preceded by a partial copy running into it), creating an SRS and rebuilding from the SRS plus the "
     "main video - given as a plain file or still inside a RAR set, with or without stored match offsets - yields the original sample "
     "bit for bit under its original name, and the SRS records the sample's name, size and CRC and holds no stream data beyond the track signatures.",
     ["inputs", "configurations"],
     "all container layouts (interleaving, track count, odd sizes and padding, lacing, interspersed metadata, cut position within the main file) and tool options",
     "The media fixtures are absent; no container sample is rebuilt by the tests at all.",
     ["resample/main.py", "resample/srs.py", "resample/riff.py", "resample/ebml.py", "resample/mov.py", "resample/asf.py"],
     [("profile/create/load/find/extract/rebuild per container", "resample/main.py"), ("CLI driver", "resample/srs.py main")],
     [("tracks", "per-track signature, length, match offset", "the .srs file")],
     ["exit status", "bytes of the rebuilt sample"])

prop("P11", "FLAC, MP3 and stream samples are rebuilt byte for byte",
     "For every FLAC or MP3 file with its tags where they belong (ID3v2 in front; APE, Lyrics3 and ID3v1 in this order behind) and every program-stream sample "
     "(.vob, .m2ts, .mpg, ...) cut from a larger file, the SRS plus the music/stream data (with any different or missing tags for music, other metadata blocks for FLAC; "
     "for stream samples the first 256 bytes occurring once) "
     "rebuild the original file bit for bit, all tag blocks included. The SRS itself contains no music data.",
     ["inputs", "configurations"],
     "all combinations of tag blocks (ID3v1, ID3v2, APE, Lyrics3) in source and re-tagged file, FLAC metadata blocks, cut positions",
     "One small MP3 header test exists; re-tagged rebuilds and cut offsets are not covered.",
     ["resample/main.py", "resample/mp3.py", "resample/flac.py", "resample/stream.py", "resample/srs.py"],
     [("tag block readers", "resample/mp3.py, resample/flac.py"), ("find/rebuild", "resample/main.py")],
     [], ["exit status", "bytes of the rebuilt file"])

prop("P12", "A sample rebuild never claims success for wrong data or harms sources",
     "If the main file does not contain the sample's data (different, truncated, shifted or corrupted), rebuilding ends with a non-zero "
     "status, leaves no sample under the final name unless the user asked to keep it, and leaves pre-existing files and all inputs untouched; success is reported only if "
     "the written sample has the recorded size and CRC. An existing output is replaced only with consent and the source files are never deleted.",
     ["inputs", "fault_sequences", "configurations"],
     "all corruptions of the main file and SRS, all pre-existing outputs, answers and options",
     "Tests do not run the rebuild command on wrong input.",
     ["resample/srs.py", "resample/main.py"],
     [("CRC comparison then rename from temp", "resample/srs.py main"), ("temp names", "rescene/utility.py create_temp_file_name/replace_result")],
     [("outcome", "exit code", "srs CLI"), ("disk", "output directory contents", "file system")],
     ["exit status", "directory contents"])

prop("P13", "Failed SRR/SRS creation leaves existing files alone and no partial result",
     "Creating an SRR or SRS either completes and atomically yields the full new file, or fails (or is interrupted) with an error status leaving whatever was at the "
     "destination before unchanged, all inputs unmodified and no temporary or partial file behind. An existing destination is only "
     "replaced when the user agreed.",
     ["fault_sequences", "configurations", "inputs"],
     "every failing input (missing volume, compressed archive, corrupt RAR, empty SFV), failing file operation, option set and pre-existing destination",
     "Tests check that exceptions are raised, not what is left on disk.",
     ["rescene/srr.py", "rescene/main.py", "resample/srs.py", "rescene/utility.py"],
     [("temporary name + replace", "rescene/srr.py create_srr, resample/srs.py main, rescene/utility.py replace_result"),
      ("cleanup on error", "rescene/main.py create_srr")],
     [("disk", "destination directory", "file system")],
     ["exit status", "directory contents"])

prop("P14", "Fingerprints identify content, not packaging",
     "The OpenSubtitles hash stored for an archived file equals the hash of the plain file however it is split over volumes; combining the CRCs of two parts gives the "
     "CRC of the concatenation for all lengths; and the content fingerprint of an SRR is unchanged by stored files, application name, order and letter case of volume names, but "
     "differs when RAR metadata differs.",
     ["inputs"],
     "all file sizes (including below and around the hash window), split points and packaging variations",
     "Tests compare single known values.",
     ["rescene/osohash.py", "rescene/crc32combine.py", "rescene/main.py"],
     [("osohash_from / compute_hash", "rescene/osohash.py"), ("crc32_combine", "rescene/crc32combine.py"), ("content_hash", "rescene/main.py content_hash")],
     [], ["returned hashes"])

prop("P15", "Malformed archives and samples are rejected, never looped on or misread",
     "Reading any truncated or corrupted RAR or SRR file block by block terminates: blocks in front of the damage are reported exactly as in the intact file, and "
     "the reading either ends normally or raises one of the documented input errors (EnvironmentError, ValueError, ArchiveNotFoundError). A cut inside of a block, a header size "
     "that is impossible and data that go past the end of the file are always reported as errors. The srr and srs tools given such a file, or a damaged sample, SRS or media file, "
     "never hang, end with a non-zero status and a message when they cannot use it, and leave every existing file as it was; a cut AVI, MKV, MP4 or WMV sample is never accepted.",
     ["inputs"],
     "every truncation point and header corruption of valid files",
     "Tests use two or three broken files.",
     ["rescene/rar.py", "rescene/main.py", "resample/main.py"],
     [("header length checks", "rescene/rar.py RarReader/BlockFactory"), ("IncompleteSample / InvalidDataException", "resample/*.py")],
     [], ["blocks yielded", "exception types"])

prop("P16", "Merging SRRs preserves every part",
     "Merging any list of SRR files yields one SRR holding all stored files of all inputs, in input order, and all RAR and other metadata in input order, with "
     "nothing lost, duplicated or altered; each merged volume set can still be rebuilt and the inputs are untouched.",
     ["inputs", "histories"],
     "all lists of SRRs with any mix of stored files, volume sets, hashes and application names",
     "One test merges two fixed files.",
     ["rescene/main.py", "bin/srr_merge.py"],
     [("merge in two passes", "rescene/main.py merge_srrs")],
     [], ["bytes of merged SRR"])

prop("P17", "SRRs made from a Usenet post equal SRRs made from the files",
     "The SRR made from an NZB has exactly the volumes, volume headers and stored files of the SRR made from the posted files (NFOs first, then the other kept files as posted, then the SFVs by name with those of "
     "samples, extras, proofs and subpacks last; no indexer images, thumbnails or unrelated files), however the files are cut into articles, and from any configured server that has an undamaged article, also when other "
     "servers are down, lack it or have it damaged, or a file was posted twice. "
     "When a needed article is missing everywhere or the post is a known repack no SRR is left and the NZB is not put with the successful ones, and a dry run makes and moves nothing. "
     "A posted file read as a stream gives the bytes of the file without fetching articles with nothing but packed data, and decoding a yEnc article returns exactly the encoded bytes and its part range or raises when size, "
     "checksum or framing is wrong.",
     ["inputs", "configurations", "fault_sequences"],
     "all posts: volume sets, cuts into articles, byte contents (all escape cases), servers and article faults",
     "Tests decode a few recorded articles; no test posts a release, cuts it differently or loses an article.",
     ["rescene/main.py", "usenet/yenc.py", "usenet/srr_usenet.py"],
     [("create_srr_fh", "rescene/main.py"), ("decode", "usenet/yenc.py"), ("NNTPFile", "usenet/srr_usenet.py"), ("create_srr", "usenet/srr_usenet.py")],
     [], ["bytes of SRR", "folder of the NZB afterwards", "commands the servers get", "decoded data"])

prop("P18", "NZB files survive being read, split, filtered and rewritten",
     "Reading an NZB yields each post with its poster, date, groups and all segments in order with sizes and message ids, and writing it out again "
     "loses nothing; the naming helpers recover the posted file name from the subject.",
     ["inputs"],
     "all NZB documents",
     "Tests parse literal documents.",
     ["usenet/nzb_utils.py", "usenet/pynzb"],
     [("read_nzb/add_file/get_xml", "usenet/nzb_utils.py"), ("parsers", "usenet/pynzb")],
     [], ["parsed objects, written XML"])

prop("P19", "A matching source is always found and used to rebuild renamed or moved files",
     "If the right source files are available - at the archive path, flattened, under a name given by a hint, or, when automatic search is on, under any name with the right "
     "extension and size - reconstruction succeeds and rebuilds the same volumes, and only the requested volumes when a subset is selected.",
     ["configurations", "inputs"],
     "all placements of the sources, hint maps, path options and volume selections",
     "Tests use one placement.",
     ["rescene/main.py"],
     [("_locate_file", "rescene/main.py"), ("hints / auto locate", "rescene/main.py reconstruct")],
     [], ["bytes of outputs"])

prop("P20", "Release scans find releases, store the right files, touch nothing else",
     "pyrescene creates for each release directory one SRR with the volumes of all RAR sets of the main SFVs and, with their paths inside the release and in the documented order, the files to keep (nfo, m3u, proofs and "
     "covers, log, cue, an SRS or else a .txt with the error for each sample or track, fixes, SRRs of subtitle sets, SFVs), music releases sorted by name with the nfo first and tracks that fail their SFV left out (but not for the checksum that the SFV of "
     "another disc has for that name). "
     "Exclusions leave out just what they name, the folders above the release have no influence, and SFVs of subtitles, proofs, covers and fixes in folders of their own are not main SFVs unless the release name says so. "
     "Recursively all releases below a folder are found and none inside another, a release that fails is reported in the exit status and does not stop the others, no file of a release is changed, an existing SRR stays "
     "without permission or on failure, and no temporary files stay.",
     ["inputs", "configurations"],
     "all release directory layouts, folder trees and option combinations",
     "The test suite does not test the scan at all; which files end up in the SRR depends on combinations of names, folders, sizes and options.",
     ["bin/pyrescene.py", "rescene/main.py", "rescene/utility.py"],
     [("generate_srr", "bin/pyrescene.py"), ("remove_unwanted_sfvs", "bin/pyrescene.py"), ("is_release", "bin/pyrescene.py"), ("get_proof_files", "bin/pyrescene.py")],
     [], ["resulting SRR: volumes, stored files and their order", "directory tree", "exit status and printed lists"])

prop("P21", "Compressed archives are rebuilt if the RAR version that made them is there",
     "Given RAR executables named DATE_rarVERSION in a folder, a set of compressed volumes is rebuilt byte for byte whenever one of the executables makes, with some thread count within the limits given, the packed data of the "
     "volumes from the files; otherwise the tool refuses with a non-zero exit status. Candidates are tried in the documented order - what worked for the previous file, the first version released on or after the date of the newest "
     "archived file, then older versions from new to old, then all others - each version and thread count (ascending, within the limits) at most once for a file, with the previous or next archived file added where the archive "
     "was made solid or padded by them. Files in the folder that are no such executables, and executables that fail, change nothing; an earlier reconstruction in the same process or another RAR set with "
     "the same file names has no influence, and no temporary folders or files stay behind.",
     ["configurations", "inputs", "histories"],
     "all catalogues of executables, thread limits, archive histories and file dates",
     "Tests check a few names; the search itself is not tested at all.",
     ["rescene/main.py", "rescene/utility.py"],
     [("RarRepository/RarExecutable/RarArguments", "rescene/main.py"), ("CompressedRarFile", "rescene/main.py"), ("CompressedRarFileAll", "rescene/main.py")],
     [], ["sequence of candidates as seen by the executables", "bytes of volumes", "exit status", "temporary folders"])

prop("P22", "A music release gets its original tracks back from retagged ones",
     "Given the SRR of a music release and a folder with its tracks, retag writes to the output folder every file stored in the SRR and, for each stored SRS of an MP3 or FLAC file, the original track byte for byte - whether the track in "
     "the input folder lies in its own folder or in the root, with names in any upper/lower case, and also when tracks in different folders have the same name. Missing or wrong tracks count as failures and leave nothing behind, the SRS "
     "files are taken away again, an SRS of a video is skipped, existing files are only replaced with consent, input files outside the output folder are never changed, and the exit status is 0 exactly if no track failed.",
     ["inputs", "configurations"],
     "all stored files, placements, name cases, existing files, answers and options",
     "The tool has no tests.",
     ["bin/retag.py", "resample/srs.py", "rescene/main.py"],
     [("fix_tracks/fix_tagging/join_fix_case", "bin/retag.py"), ("extract_files", "rescene/main.py"), ("main", "resample/srs.py")],
     [], ["output folder", "input folder", "exit status"])

prop("P23", "The batch tools treat every file as the single tools do",
     "srs_batch makes of every video of a folder tree exactly the SRS that srs makes, or a text file with the error, and with -n leaves existing SRS files alone; srr_extract_srs writes exactly the SRS files of an SRR, at their paths; "
     "srs_bad lists exactly the SRRs with unchecked samples or error texts and which they are; srs_size lists exactly the SRS files of samples over a size; srr_sort lists exactly the SRRs that match one of the options (compressed, no "
     "RARs, images, proofless images, several or no NFOs, duplicates, no SFV, texts, repacks, upper case, nothing stored, several archived files in a set, no or lower case groups, fixes), totals the volume sizes, and moves them without ever replacing another SRR; preprardir makes of each installer "
     "(SFX or tar.gz) of RAR 2 or newer the executable DATE_rarVERSION, betas only on request. One file that cannot be handled never affects another, and nothing else is changed.",
     ["inputs", "configurations", "histories"],
     "all folder trees, file kinds, options and name clashes",
     "The tools have no tests.",
     ["bin/srs_batch.py", "bin/srr_extract_srs.py", "bin/srs_bad.py", "bin/srs_size.py", "bin/srr_sort.py", "bin/preprardir.py"],
     [("create_srs", "bin/srs_batch.py"), ("handle_srr", "bin/srs_bad.py"), ("check", "bin/srr_sort.py"), ("extract_rarbin", "bin/preprardir.py")],
     [], ["output folders", "listings", "input folders"])

prop("P24", "A release comes back completely from its SRR and the archived files",
     "After any history of a release and the SRR that pyrescene made of it - archived files unpacked, volumes, samples or documents lost, files added to, removed from or renamed in the SRR, the SRR merged with another, parts "
     "brought back in any order with srr and srs - every volume can be rebuilt from the archived files, every stored file can be extracted and every sample can be rebuilt from the movie, unpacked or still in its volumes, and every track of a music release from a retagged one, all byte for byte "
     "at their paths; only what was taken out of the SRR by an edit is missing. Each operation changes exactly the files it is about. The scan of the recreated release gives the first SRR again, byte for byte, in whatever order the file system lists folders.",
     ["histories", "inputs", "configurations"],
     "all histories of losses, edits and recreations, all releases of one or two store-mode sets with samples and documents, or of one or two tracks",
     "The tests look at single steps on fixed files; how the parts (pyrescene, srr, srs, edits, merging) work together over a history is not tested.",
     ["bin/pyrescene.py", "rescene/main.py", "rescene/srr.py", "resample/srs.py", "resample/main.py", "rescene/rar.py", "rescene/rarstream.py"],
     [("generate_srr", "bin/pyrescene.py"), ("reconstruct/extract_files/add_stored_files/merge_srrs", "rescene/main.py"), ("main", "resample/srs.py")],
     [("stored files", "names and contents in the SRR", "the .srr file"), ("release directory", "what is there", "the file system")],
     ["release directory", "SRR", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print(len(P))
