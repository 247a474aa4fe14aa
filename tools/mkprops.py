#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the texts below."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


FSFILES = ["atrcopy/diskimages.py", "atrcopy/utils.py", "atrcopy/ataridos.py", "atrcopy/dos33.py"]

prop("C01", "A file written to a disk image reads back exactly",
     "After a file is successfully written to an Atari DOS 2 image (single, enhanced/medium or double density, with or without ATR header) or an Apple DOS 3.3 image, reading it returns exactly the bytes written (for DOS 3.3: followed by zeros up to a sector boundary), through the same object and after the raw image is reopened. This holds for every length including 0, exact sector multiples and files needing several track/sector lists, for every pattern of free sectors, and after any earlier adds and deletes.",
     ["inputs", "histories", "configurations"],
     "all file lengths, all free-sector patterns, all histories of adds/deletes, all writable disk layouts",
     "The tests write a few random-length files to three sample images; lengths at sector and list boundaries, fragmented disks and the other densities are never reached.",
     FSFILES,
     [("write_file / build_sectors", "atrcopy/diskimages.py"), ("assign_sector_numbers", "atrcopy/utils.py"),
      ("process_raw_sector / file_link", "atrcopy/ataridos.py"), ("track/sector lists", "atrcopy/dos33.py")],
     observe=["DiskImageBase.write_file", "DiskImageBase.find_file", "raw bytes"])
prop("C02", "Adding or deleting a file leaves every other file and byte untouched",
     "Adding or deleting one file changes nothing on the disk except that file's own directory entry, that file's own sectors, and the free-space bookkeeping. All other files keep their contents, names, flags (locked, type, entries made by other DOS versions such as MyDOS subdirectories or DOS 2.5 extended files) and sectors; boot sectors, image header and unused sectors and bytes keep their contents, and marks and comments on the image stay.",
     ["inputs", "histories", "configurations"],
     "every operation at every reachable disk state, every byte of the image",
     "The tests compare a handful of other files after a few operations; they do not diff the image, nor use images with locked, foreign or oddly named entries.",
     FSFILES,
     [("calc_sectors / encode_dirent of unchanged entries", "atrcopy/utils.py, atrcopy/ataridos.py, atrcopy/dos33.py"), ("write_sector_list", "atrcopy/diskimages.py")],
     observe=["raw bytes before/after"])
prop("C03", "Allocation structures stay consistent after every operation",
     "After every successful add or delete, the free-space map marks exactly the sectors that belong to no file and no system area as free: no sector belongs to two files, no used sector is marked free, no sector is lost, deleting a file returns exactly its sectors, and the free sector count, the map that is printed and each directory entry's sector count agree with the stored map and the chains. A new file only ever takes sectors that were free, and as many as its length requires.",
     ["histories", "inputs", "configurations"],
     "every reachable disk state (allocation maps with any set of free sectors)",
     "Tests look at file contents of short histories; a leaked or doubly used sector shows up only much later, at particular free-sector positions.",
     FSFILES,
     [("VTOC parse/calc_bitmap", "atrcopy/ataridos.py, atrcopy/dos33.py"), ("assign_sector_numbers / free_sector_list", "atrcopy/utils.py")],
     state=[("sector_map", "1 = free", "atrcopy/utils.py VTOC")],
     observe=["raw VTOC, directory and links"])
prop("C04", "File operations succeed exactly when they fit; failures change nothing",
     "Writing a file succeeds exactly when enough free sectors (including DOS 3.3 track/sector lists) and a free or deleted directory entry are available; otherwise it raises the not-enough-space or directory-full error. Deleting a file that does not exist raises file-not-found. An operation that fails leaves every byte of the image as it was, and the image stays usable: later operations behave as if the failed one had not been tried.",
     ["histories", "inputs", "fault_sequences"],
     "every length around the remaining capacity, every fill level of disk and directory, every position of a failing operation in a history",
     "Tests fill one image once and only check that an exception is raised, not that capacity is fully usable nor that the image is unchanged.",
     FSFILES,
     [("transaction begin/rollback", "atrcopy/diskimages.py"), ("NotEnoughSpaceOnDisk checks", "atrcopy/utils.py"), ("get_free_dirent", "atrcopy/utils.py")],
     observe=["exceptions", "raw bytes"])
prop("C05", "The directory lists exactly the files on the disk, under their names",
     "The listing contains exactly the live files, each once, in directory order, with the right name and sector count (and DOS 3.3 type and locked flag), and a file can be looked up and deleted under its listed name; deleted entries are never listed or matched. Names are stored as given up to the format's limit (8.3, or 30 characters), deleted entries are reused, and the directory can be filled to its capacity of 64 (Atari) or 105 (DOS 3.3, 15 catalog sectors) entries.",
     ["inputs", "histories"],
     "all names of the allowed alphabet and lengths, all sets of live/deleted entries, all directory fill levels",
     "The tests use one or two short names and never approach the directory capacity.",
     FSFILES,
     [("Directory.set/get_free_dirent/find_dirent", "atrcopy/utils.py"), ("parse_raw_dirent/encode_dirent", "atrcopy/ataridos.py, atrcopy/dos33.py"), ("catalog sector chain", "atrcopy/dos33.py")],
     observe=["image.files", "find_file", "raw directory sectors"])
prop("C06", "Shredding overwrites exactly the free sectors",
     "Shredding a disk image fills every byte of every sector that the disk's free-space map marks as free with the fill value and changes no other byte, so all files, the directory and the boot sectors are unchanged.",
     ["histories", "inputs", "configurations"],
     "every set of free sectors, every history, every layout and fill value",
     "The tests only check that file contents survive a shred of one sample disk.",
     ["atrcopy/diskimages.py", "atrcopy/utils.py"], [("shred / iter_free_sectors", "atrcopy/diskimages.py, atrcopy/utils.py")],
     observe=["raw bytes before/after"])
prop("C07", "Saving and reopening a disk image is lossless; reading never modifies it",
     "Listing, reading, parsing segments of, or printing a disk image never changes its bytes. Saving it and opening the saved file again, letting the format be detected automatically, yields the same bytes, the same image format, the same listing and the same file contents.",
     ["inputs", "histories", "configurations"],
     "all supported image layouts and all reachable disk states",
     "Tests reopen a few sample images once; detection of a modified or freshly created image is not covered for every layout and history.",
     ["atrcopy/diskimages.py", "atrcopy/parsers.py", "atrcopy/segments.py", "atrcopy/container.py"],
     [("save / as_bytes", "atrcopy/diskimages.py"), ("guess_parser_for_mime", "atrcopy/parsers.py")],
     observe=["saved file", "guessed parser"])
prop("C08", "Sector numbers map one-to-one onto the bytes of the image",
     "For every valid image of a supported layout (single, enhanced or double density and larger ATR images, headerless XFD images, DOS 3.3 images), sectors 1..N (0..559 for DOS 3.3) map to consecutive, disjoint byte ranges that together cover the whole image after its header, each of the right size (128-byte boot sectors in double density images); out-of-range sectors raise an out-of-range error. An ATR header describes the image size and sector size correctly, and re-encoding a decoded header reproduces it.",
     ["inputs", "configurations"],
     "all sector numbers of all layouts, all header field values",
     "Tests compare positions of a few sectors on two layouts.",
     ["atrcopy/diskimages.py", "atrcopy/ataridos.py", "atrcopy/utils.py"],
     [("get_pos / sector_is_valid", "atrcopy/diskimages.py, atrcopy/ataridos.py"), ("AtrHeader.__init__/to_array", "atrcopy/ataridos.py")],
     observe=["header.get_pos", "header bytes"])
prop("C09", "Arbitrary or damaged input is handled without hanging, crashing or changes",
     "Opening, identifying, listing, and reading files from arbitrary bytes or any damaged disk image, executable, cartridge or archive terminates and either succeeds or raises one of the library's own errors. Input bytes are never modified. Damage confined to the sectors of one file (its data, links, sector map or track/sector list) leaves the image recognised and every other file listed and readable as before.",
     ["inputs", "fault_sequences"],
     "all short byte strings, all single-byte corruptions of metadata, all truncations",
     "Tests feed valid samples and a few hand-made invalid ones; corruption of each metadata byte is not sampled.",
     ["atrcopy/parsers.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/spartados.py", "atrcopy/kboot.py", "atrcopy/standard_delivery.py", "atrcopy/cartridge.py", "atrcopy/mame.py", "atrcopy/container.py"],
     [("error classes", "atrcopy/errors.py"), ("guess_parser_for_mime", "atrcopy/parsers.py"), ("chain loop detection", "atrcopy/diskimages.py, atrcopy/dos33.py, atrcopy/spartados.py")],
     observe=["exceptions", "termination"])
prop("C10", "An Atari executable built from segments loads the same bytes again",
     "Building an Atari 8-bit executable from any list of non-empty segments (each within 64K) yields a file whose parsed segments have exactly the given addresses and bytes in order. If none of them is itself a segment at $2E0, one run-address segment is put in front of them, holding the requested run address (which must lie inside one of the segments, otherwise building fails with an error) or the first segment's address when none is requested.",
     ["inputs", "programs"],
     "all segment counts, lengths, addresses and run addresses within bounds, including adjacent, overlapping and 1-byte segments",
     "Tests build one or two executables with fixed segments.",
     ["atrcopy/executables.py", "atrcopy/ataridos.py"],
     [("get_xex", "atrcopy/executables.py"), ("AtariDosFile.parse_segments", "atrcopy/ataridos.py")],
     observe=["file bytes", "parsed segments"])
prop("C11", "An Apple binary built from segments holds every byte at its address",
     "Building an Apple DOS 3.3 binary from any list of non-empty segments gives a 4-byte header with load address and length followed by an image in which each byte of each segment lies at its own address relative to the load address (later segments win where they overlap), gaps are zero, and a run address other than the load address is reached by a jump placed directly in front of the data. A run address outside of all segments is refused with an error.",
     ["inputs", "programs"],
     "all segment counts, orders, lengths, addresses and run addresses within bounds",
     "Tests build a single fixed example.",
     ["atrcopy/executables.py", "atrcopy/dos33.py"], [("get_bsave", "atrcopy/executables.py")],
     observe=["file bytes"])
prop("C12", "A KBoot disk image contains the executable unchanged",
     "Creating a KBoot boot image from any executable embeds it unchanged: the image is recognised as a KBoot image whose single executable has exactly the given bytes and length, and its ATR header matches its size. Creating one from segments contains an executable with those segments and run address.",
     ["inputs"],
     "all executable lengths (sector boundaries, over 64K) within bounds",
     "Tests use one executable.",
     ["atrcopy/kboot.py"], [("insert_kboot / create_boot_image / find_segments", "atrcopy/kboot.py")],
     observe=["image bytes", "parsed file"])
prop("C13", "An Apple boot disk loads every segment to its address",
     "An Apple boot disk created from segments in main memory between $0900 and $BFFF is a standard 143,360-byte image whose loader, reading its track/sector tables in order, places every byte of every segment at its address (later segments win where they overlap) and then jumps to the run address (the first segment's address when none is given). Segments that do not fit on the disk or in the loader's tables are refused with an error. (Start addresses $2001 and $4001 are aliases of $2000 and $4000 that only suppress showing the hi-res screen.)",
     ["inputs", "programs"],
     "all segment lists within bounds: counts, page-unaligned starts and ends, pages shared by several segments",
     "Tests build one example and compare nothing but its creation.",
     ["atrcopy/standard_delivery.py"], [("create_boot_image", "atrcopy/standard_delivery.py")],
     observe=["image bytes interpreted by a reference loader"])
prop("C14", "Compressed containers are transparent",
     "An image compressed with gzip, bzip2, xz or LZMA opens exactly like the uncompressed image: same bytes, same detected format, same listing and file contents. Data that does not start like one of these formats is passed through unchanged, truncated compressed data and damaged gzip, bzip2 or xz data is never unpacked into a shorter or different image, and DCM archives are reported as unsupported.",
     ["inputs", "configurations", "fault_sequences"],
     "all image formats x container formats, all truncations and single-byte corruptions",
     "Tests open one file per container.",
     ["atrcopy/container.py", "atrcopy/dcm.py"], [("guess_container / decode", "atrcopy/container.py, atrcopy/dcm.py")],
     observe=["unpacked bytes"])
prop("C15", "A segment view shows and changes exactly its own bytes of the image",
     "Any segment (contiguous, or with an explicit byte order such as the sectors of a file; also a segment of a segment) reads exactly the bytes of the underlying data at its indexes, writing through it changes exactly those bytes and no others, and its conversions between own index, address, label and position in the base data are mutually inverse and agree with the data; its export as raw data or as an Apple binary contains exactly its bytes.",
     ["inputs", "histories", "configurations"],
     "all small index sets/orders, nesting depth, and positions",
     "Tests check a few fixed layouts.",
     ["atrcopy/segments.py"], [("OrderWrapper, get_raw_index, byte_bounds_offset, reverse_offset", "atrcopy/segments.py")],
     observe=["segment.data, rawdata"])
prop("C16", "Comments, marks and user data follow a simple per-byte model",
     "Comments, style marks (match, comment, selection, diff, data and user styles) and user data set on a segment are kept per underlying byte: they read back through every segment that shows the byte; setting a mark on a range or rectangle, or clearing a match, comment, selection, diff or user mark, affects only that kind and only those bytes; and enumerations, searches for the next or previous mark and range queries return exactly the marked bytes.",
     ["histories", "inputs"],
     "all sequences of set/clear operations on overlapping small ranges and views",
     "Tests use two or three fixed ranges.",
     ["atrcopy/segments.py"], [("set_style_ranges / clear_style_bits / set_comment_at / iter_comments_in_segment / find_next", "atrcopy/segments.py")],
     observe=["style array", "comments", "ranges"])
prop("C17", "Saved mark and data state can be restored exactly",
     "Copying out the marks and comments of some ranges of a segment and restoring them later brings back exactly the marks and comments these bytes had, whatever was changed through any segment in between, and touches nothing else. Resizing a resizable container any number of times and re-attaching its segments keeps the remaining bytes, marks and comments, new bytes are zero, and every re-attached segment still shows the same part of the container.",
     ["histories", "inputs"],
     "all sequences of changes between save and restore on small ranges",
     "Tests restore one fixed range.",
     ["atrcopy/segments.py"], [("get_comment_restore_data / restore_comments / get_user_data_restore / resize / replace_data", "atrcopy/segments.py")],
     observe=["state before/after"])
prop("C18", "Session state survives serialization",
     "Serializing the segments of an image (position, byte order, names, origin, labels and other attributes) and the session of its container (comments, comment marks, data and user styles) to JSON and restoring them over the same bytes yields segments with the same contents, addresses and annotations that are views of the restored container; sessions of older versions are converted.",
     ["inputs", "histories"],
     "all small combinations of annotations, views and nesting",
     "Tests pickle one object each.",
     ["atrcopy/segments.py", "atrcopy/container.py", "atrcopy/diskimages.py"], [("__getstate__/__setstate__/serialize_session/restore_session", "atrcopy/segments.py")],
     observe=["restored objects"])
prop("C19", "The command line changes only what was asked for",
     "Adding, deleting, shredding, creating, assembling and extracting through the command line has exactly the described effect on the image file and the output directory: an existing file is replaced and a locked one deleted only with --force, several files in one command are all processed, extracted files contain exactly the file's bytes and never lie outside the output directory, and --dry-run, listing commands and failed changes of an image leave every file as it was; crc prints the CRC-32 of each file's bytes.",
     ["inputs", "histories", "configurations"],
     "all commands x options x short file lists, histories of commands on one image",
     "Tests do not run the command line program's file changing commands.",
     ["atrcopy/__init__.py"], [("run / add_files / remove_files / extract_files / save_file", "atrcopy/__init__.py")],
     observe=["files in a scratch directory"])
prop("C20", "Cartridge images of every type map their bytes correctly",
     "For every cartridge type in the table, an image of the declared size, with a CART header or (when the type is chosen) without, is accepted for the right machine and split into segments that cover the ROM data exactly once, the main bank and every switched bank at their addresses; an image of any other size or of an unknown type is refused; the CART header round-trips and the image prepared for the emulator carries it. A bare ROM image is accepted exactly if its size is a power of two.",
     ["inputs", "configurations"],
     "all cartridge types, all sizes around the declared one",
     "Tests try a few types.",
     ["atrcopy/cartridge.py"], [("A8CartHeader, segment parsing", "atrcopy/cartridge.py")],
     observe=["segments"])
prop("C21", "Disks written by other systems are listed and read faithfully",
     "Files on SpartaDOS images (any length, with 128, 256 or 512 byte sectors, sector maps and directories spanning several sectors, their sectors in any order), on MyDOS images, on Atari DOS 2 disks (sectors in any order, sectors in the middle filled only in part) and on DOS 3.3 disks (data and track/sector lists anywhere, catalog chained in any order, stale pairs after the end) are listed in directory order with their names, and each is read back exactly; deleted files are neither listed nor found, and reading changes nothing.",
     ["inputs", "configurations"],
     "all file lengths around map and sector boundaries, all sector orders and fill degrees of small files, all entry states",
     "Tests read one sample each.",
     ["atrcopy/spartados.py", "atrcopy/ataridos.py", "atrcopy/dos33.py"], [("SpartaDosDirent / sector map", "atrcopy/spartados.py"), ("AtariDosDirent.process_raw_sector", "atrcopy/ataridos.py"), ("Dos33Dirent.get_track_sector_list", "atrcopy/dos33.py")],
     observe=["image.files, find_file"])
prop("C22", "Every kind of image is recognised from its contents, and as nothing else",
     "Opening data identifies its format: an Atari disk, with an ATR header or of exactly one of the headerless sizes, as a KBoot, SpartaDOS, Atari DOS or boot disk according to what is on it (a boot disk shows its boot sectors at the load address its boot record gives), a file starting with $FFFF and sane addresses as an executable with its parts, a CART header as its cartridge type, a ZIP file whose members are all multiples of 16 bytes as a MAME ROM set with each member's name and bytes in order, 143,360 bytes as an Apple DOS 3.3 disk, an Apple binary when its header gives exactly its length, and other data as ROM when its size is a power of two; anything else is reported as unsupported. Every way of opening agrees. A known title is reported exactly when every byte of its signature matches, or when its checksum and length are listed, whatever its size. Opening changes nothing.",
     ["inputs", "configurations"],
     "all formats and their parameters, every size around the special ones, every byte of every magic number and signature",
     "Tests open one sample file of some of the formats.",
     ["atrcopy/parsers.py", "atrcopy/magic.py", "atrcopy/mame.py", "atrcopy/ataridos.py", "atrcopy/cartridge.py"], [("find_diskimage_from_data / iter_parsers / mime_parse_order / guess_parser_by_size", "atrcopy/parsers.py"), ("guess_detail_for_mime / check_signature", "atrcopy/magic.py"), ("MameZipImage", "atrcopy/mame.py")],
     observe=["parser.menu_name, mime, parser.segments"])

prop("C23", "The segments of an opened image show its structure exactly",
     "Opening a disk image yields, besides the entire image, segments for its header, raw sectors (labelled with sector or track and sector numbers), boot sectors at the address their boot record gives, VTOC or bitmap, directory (with each field of each entry described) and every file in directory order, followed on Atari disks by the loadable parts of each file that is an executable, at their load addresses; an Apple binary file is shown at its load address, and a ROM ZIP file as its members in order. Each segment consists of exactly the bytes of the image that belong to that part, in their logical order, for every disk layout, placement and length; nothing is missing or shown twice, and changing a byte through a segment changes exactly that byte of the image.",
     ["inputs", "configurations"],
     "all layouts, file sets, sector orders, executables with parts at every position relative to sector boundaries, boot records",
     "Tests count the segments of a few samples.",
     ["atrcopy/diskimages.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/spartados.py", "atrcopy/kboot.py", "atrcopy/segments.py"], [("DiskImageBase.parse_segments / get_file_segments", "atrcopy/diskimages.py"), ("get_boot_segments / get_vtoc_segments / get_directory_segments / AtariDosFile.parse_segments", "atrcopy/ataridos.py")],
     observe=["parser.segments: names, origins, positions, labels, comments"])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P))
