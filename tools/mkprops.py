"""Regenerates properties.jsonl and MANIFEST.json (run by hand, not by a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, level_note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": [{"states": "configurations", "faults": "fault_sequences"}.get(o, o) for o in over], "text": text},
               "why_tests_cant": why, "anchors": a}, level_note))


DI, AT, D3, SEG, UT = "atrcopy/diskimages.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/segments.py", "atrcopy/utils.py"
EX, KB, SD, CA, PA, CO, SP, INI = ("atrcopy/executables.py", "atrcopy/kboot.py", "atrcopy/standard_delivery.py", "atrcopy/cartridge.py",
                                   "atrcopy/parsers.py", "atrcopy/container.py", "atrcopy/spartados.py", "atrcopy/__init__.py")

prop("C01", "A file written to a disk image reads back exactly",
     "After a file is added to an Atari DOS (single, enhanced or double density, with or without ATR header) or Apple DOS 3.3 disk image, reading it by name returns exactly the bytes that were written (for DOS 3.3, padded with zeros to a whole sector). This holds for every file content, length and free-space layout for which the add succeeds, including zero-length files, files that exactly fill their last sector, and files long enough to need several track/sector lists, and also after the image is reloaded from its bytes.",
     ["inputs", "states"], "every file content, every length in range, every pattern of free and used sectors, every writable disk geometry",
     "Tests write a handful of fixed files to pristine template disks; contents x lengths x fragmentation patterns cannot be sampled.",
     [DI, AT, D3, UT], [("write_file / build_sectors / write_sector_list", DI), ("sector chain encoding and decoding", AT), ("track/sector lists", D3), ("sector assignment", UT)],
     "image.find_file(name) after image.write_file(...), on the same object and after re-parsing the bytes")

prop("C02", "Adding or deleting one file leaves every other file intact",
     "Adding a file or deleting a file never changes the contents, name, size, flags or directory entry of any other file on the disk, locked and other-typed files included. Outside the sectors newly given to the added file, only the sector allocation map and the directory slot concerned change: boot sectors, the image header, unused sectors and sectors owned by other files keep their bytes.",
     ["inputs", "states", "histories"], "every content of existing and new files, every free-space pattern, adds and deletes in sequence",
     "A clobbered neighbour only shows for particular layouts and byte values; tests check the file they wrote, not all the others.",
     [DI, AT, D3, UT], [("directory rewrite", UT), ("dirent encode", AT), ("catalog encode", D3)],
     "image bytes before and after write_file/delete_file, compared sector by sector; contents of the other files")

prop("C03", "Files are stored only in free sectors, and accounted exactly",
     "A file is stored only in sectors that the allocation map marked free and that belong to no other file or system area, each used once; afterwards exactly those sectors have become used in the map and the free-sector count stored on the disk agrees with the map. The directory entry records the number of sectors the file really occupies.",
     ["inputs", "states"], "every free/used pattern over the explored windows, every file length in range",
     "Tests use disks whose free space is contiguous; the number of free-space patterns is exponential in the number of sectors.",
     [UT, AT, D3], [("reserve_space / get_next_free_sector", UT), ("AtariDosVTOC.calc_bitmap", AT), ("Dos33VTOC bit order", D3)],
     "allocation map bits, chain of the new file, free count and sector count read by an independent reader")

prop("C04", "A failed add or delete leaves the disk image unchanged",
     "When adding or deleting a file fails for any reason (disk full, directory full, file not found, unusable name or data, a damaged chain, or an error part way through storing), every byte of the image and the listing of its files are exactly what they were before the attempt. A file that does not fit is refused, never stored in part.",
     ["faults", "inputs", "states"], "every failure point of the operation, every free-space pattern, every damaged link value in range",
     "Failures have to be injected at each internal step with each disk state; tests only cover the success path plus one full-disk case.",
     [DI, UT, D3], [("begin_transaction / rollback_transaction", DI), ("capacity checks", UT)],
     "image bytes and listing before and after a write_file/delete_file that raises")

prop("C05", "Deleting a file removes exactly it and frees exactly its space",
     "After a file is deleted it is no longer listed or readable, the sectors it occupied (and only those) are free again and its directory slot can be reused, so that a file of the same size can be added back even on a full disk. Asking to delete or read a name that is not on the disk reports that the file was not found.",
     ["inputs", "states", "histories"], "every file of a populated disk, every content and chain layout, delete/add sequences",
     "Leaks of sectors or slots only show after many operations or on nearly full disks.",
     [DI, AT, D3, UT], [("delete_file", DI), ("get_sectors_in_vtoc / free_sector_list", AT), ("remove_dirent / mark_deleted", UT)],
     "listing, allocation map and directory bytes after delete_file; a following write_file")

prop("C06", "The directory listing shows exactly what is on the disk",
     "For every directory content, the listing contains exactly the files in use (deleted and never-used entries excluded, in directory order, up to the full capacity of 64 Atari or 105 Apple entries) with the name, extension, sector count, lock state and file type recorded on the disk. A file added under a valid name is listed and can be found under that name, and the stored entry has the documented on-disk form (space padding, file type, lock flag, sector count).",
     ["inputs", "states"], "every value of the flag, name, count and start bytes of a directory entry, every slot position, every valid file name",
     "There are 2^128 directory entries; tests read a few well-formed disks.",
     [AT, D3, DI, UT], [("AtariDosDirent.parse_raw_dirent / encode_dirent", AT), ("Dos33Dirent", D3), ("find_dirent", DI), ("get_free_dirent", UT)],
     "image.files (names, sizes, flags) against directory bytes decoded by an independent reader; directory bytes after write_file")

prop("C07", "Sector numbers map one-to-one onto the bytes of the image",
     "For every supported disk geometry every valid sector number denotes its own byte range of the image, ranges of different sectors never overlap and together cover the image, and every invalid sector number is refused with an error. Track/sector pairs and the sector labels shown for raw bytes agree with that mapping.",
     ["inputs"], "every sector number, every geometry, every byte offset of a raw sector view, every track/sector pair",
     "Off-by-one errors at the short boot sectors or at the last sector need exactly the right sector number.",
     [DI, AT, D3, SEG], [("get_pos / sector_is_valid / iter_sectors", DI), ("AtrHeader.get_pos / check_size", AT), ("sector_from_track / track_from_sector", DI), ("RawSectorsSegment.label", SEG)],
     "header.get_pos for symbolic sector numbers; segment labels")

prop("C08", "ATR headers survive decoding and encoding",
     "Decoding any ATR header yields the image size, sector size, checksum, flags and spare fields that its bytes say, encoding the decoded header gives back the same bytes, and data without the ATR signature is not taken for an ATR image. Adding a header to a raw disk of a standard size yields an image that describes that disk, with the disk contents unchanged.",
     ["inputs"], "every value of all 16 header bytes, every standard image size",
     "2^128 headers; large images and rarely used fields are in no test disk.",
     [AT], [("AtrHeader.__init__ / encode / check_size", AT), ("add_atr_header / as_new_format", AT)],
     "header attributes, header.to_array(), bytes of the image with header")

prop("C09", "A damaged disk image ends in a defined error, never a hang or crash",
     "Whatever bytes are found in the structural parts of a disk image (header, boot record, allocation map, directory, sector links, track/sector lists, sector maps), opening it, listing it, reading its files or enumerating its segments terminates, and it either succeeds or fails with one of the package's own errors. Reading a damaged file never loops and never returns bytes from outside the image.",
     ["inputs"], "every value of the structural bytes within the explored windows",
     "Cycles and wild pointers are found by adversarial values, not by sample disks.",
     [DI, AT, D3, SP, KB, UT], [("sectors_seen / seen guards", AT), ("assert_valid_sector", DI), ("get_sector_map", SP), ("KBootDirent", KB)],
     "exceptions and termination of image construction, find_file, parse_segments")

prop("C10", "Files stored by other systems are read as the format defines",
     "For any well-formed file on an Atari DOS 2 or MyDOS disk, reading returns, in link order, exactly the number of bytes each sector declares, up to the sector whose link is zero; for DOS 3.3 it returns the listed data sectors in order. A sector whose recorded file number belongs to another file, or that declares more bytes than a sector of the disk can hold, is reported as an error rather than read.",
     ["inputs"], "every byte count per sector, every link layout and file number in the explored chains",
     "Tests only read files that this program or one DOS wrote contiguously with full sectors.",
     [AT, D3], [("process_raw_sector", AT), ("get_track_sector_list / read_sector", D3), ("get_file_segment", AT)],
     "find_file and the file segment's bytes against an independent decoder")

prop("C11", "A built XEX executable contains exactly the given segments",
     "The Atari executable made from a list of segments consists of the two-byte signature followed, for each block, by its start address, its inclusive end address and its bytes, in the order given, with nothing else; it is preceded by a run-address block holding the requested run address (or the first segment's address) unless a segment supplies one. A run address outside every segment is refused, and parsing the executable gives back the same addresses and bytes.",
     ["inputs"], "every origin, every content, every run address, 1 to 3 segments of every small length",
     "Address arithmetic at page and word boundaries needs exact values that example tests do not contain.",
     [EX], [("get_xex", EX), ("create_executable_file_data", EX)],
     "bytes returned by get_xex / create_executable_file_data; segments from re-parsing them")

prop("C12", "Parsing an executable accounts for every byte of the file",
     "For every byte sequence, parsing it as an Atari executable terminates and either reports it as not an executable or yields segments whose addresses are the ones in the block headers and whose bytes are the corresponding slices of the file, in file order; a truncated final block is kept and marked incomplete. The run address reported is the one stored in the run-address block.",
     ["inputs"], "every byte sequence up to the length bound",
     "Block boundaries are data-dependent: truncations and embedded signatures at each position cannot be sampled.",
     [AT], [("AtariDosFile.parse_segments", AT), ("RunAddressSegment.run_address", AT)],
     "segments produced for symbolic file contents against a reference parser")

prop("C13", "Apple binary files carry exactly the given memory image",
     "The Apple binary made from segments has a header with the load address and length, followed by a memory image in which every byte of every segment is at its address (the later one where segments overlap) and gaps are zero; when a different run address is requested, a jump to it precedes the data. Parsing such a file gives back the load address and the bytes, and a file whose header does not match its size is refused.",
     ["inputs"], "every origin, content and run address, 1 to 3 segments, every byte sequence up to the bound for parsing",
     "Needs overlapping, out-of-order and gapped segments at arbitrary addresses.",
     [EX, D3, SEG], [("get_bsave", EX), ("Dos33BinFile.parse_segments", D3), ("BSAVESaver", SEG)],
     "bytes returned by get_bsave; segments and errors from parsing")

prop("C14", "An Atari boot disk holds and reports the executable it was made from",
     "A boot disk image created from segments is a valid ATR image: its header matches its size, its loader records the length of the executable, the executable follows the boot sectors unchanged and padded to a whole sector, and reading the disk's single file returns exactly the executable built from those segments and the requested run address. Executables too long for the loader's 16-bit count are refused.",
     ["inputs"], "every content, origin and run address, every executable length in the explored windows",
     "Length fields wrap and padding boundaries only show at particular sizes.",
     [KB, AT], [("create_boot_image / add_xexboot_header", KB), ("KBootDirent", KB)],
     "image bytes; the file read back after re-parsing the image")

prop("C15", "An Apple boot disk loads every byte to its address",
     "In a boot disk created from segments, following the loader's own page list through the disk's sector order puts every byte of every segment at its load address, with the requested run address stored for the final jump; segments never overwrite the loader or each other's sectors, and the image has the standard size. Where segments overlap the later one wins, and origins $2001 and $4001 are the tool's notation for $2000 and $4000 without displaying the screen. Segments that do not fit on the disk or in the loader's list, or that lie in page 0, in the loader's own page 8 or above $BFFF, are refused.",
     ["inputs"], "every content, origins at every page offset, sizes in the explored windows, several segments, every run address",
     "The loader's run-length page list and sector skew only go wrong for particular sizes and addresses.",
     [SD], [("create_boot_image", SD), ("get_fstbt_code", SD)],
     "image bytes interpreted by an independent model of the loader")

prop("C16", "Every view of a segment addresses the same underlying bytes",
     "A segment selected from another one, as a range, as an arbitrary list of positions, or as a selection of a selection, shows exactly the bytes at the selected positions of the original, and a change made through any view is seen at the right place through all of them and nowhere else. Converting a position in a view to a position in the file and back is the identity, positions that are not in the view are reported as such, and a copy shares nothing with the original.",
     ["inputs", "histories"], "every selection list over the base, every position, every written value",
     "The selections compose; tests cover a few fixed lists.",
     [SEG], [("SegmentData / OrderWrapper", SEG), ("get_raw_index / get_reverse_index / get_indexed", SEG)],
     "reads and writes through SegmentData and DefaultSegment views")

prop("C17", "Markings and comments stay on the bytes they were put on",
     "Setting or clearing a marking (selection, comment, match, data or user style) over ranges affects exactly the bytes in those ranges and no other marking; the ranges reported for a marking are exactly the maximal runs of bytes that carry it. A comment is found at the byte it was attached to, through whichever view it was made, and saving and restoring a session gives back the same comments, data and user ranges.",
     ["inputs", "histories"], "every range, every style combination, every prior style content, every comment position, contiguous and non-contiguous segments",
     "Bit masks interact and ranges can be empty, reversed, adjacent or overlapping; tests use a few ranges.",
     [SEG], [("set_style_ranges / clear_style_ranges / get_style_ranges", SEG), ("comments", SEG), ("serialize_session / restore_session", SEG)],
     "style arrays, range lists and comments after the operations")

prop("C18", "A saved segment description reconstructs the same segment",
     "For every segment, contiguous or not, saving its description and reconstructing it over the same file data gives a segment with the same origin, name, identity and exactly the same bytes at the same file positions, still sharing the file's data. Growing the container segment keeps all existing bytes and every segment rebound to it keeps its contents and position.",
     ["inputs"], "every slice and selection of the base data, every attribute value, sizes before and after growth",
     "Serialisation of selections of selections is not exercised with all shapes.",
     [SEG], [("__getstate__ / __setstate__ / reconstruct_raw", SEG), ("resize / replace_data", SEG)],
     "bytes and index maps of reconstructed segments")

prop("C19", "Interleaving segments places every byte at its defined position",
     "Interleaving segments that share the same file, N bytes at a time, gives a segment made of N bytes of the first, N bytes of the second and so on, cyclically, limited to the largest multiple of N that fits in the shortest one, as a live view on the same file data. Segments of different files are refused.",
     ["inputs"], "every pair or triple of ranges or selections, every interleave factor, every content",
     "Byte positions depend on factor, lengths and origins jointly.",
     [SEG], [("interleave_indexes / interleave_segments", SEG)],
     "bytes and index map of the interleaved segment; writes through it")

prop("C20", "A cartridge image is partitioned exactly as its type defines",
     "For every known cartridge type, an image with a matching header and size is split into a header, a main bank and switchable banks that lie inside the image, do not overlap and together cover the declared size at the declared origins, and an image whose size does not match its type or whose type is unknown is refused. Writing the header for a type and reading it back gives the same type, and the image prepared for an emulator is that header followed by the unchanged contents.",
     ["inputs"], "every cartridge type number, every header content, every image size class",
     "There are 2^32 type codes and dozens of bank layouts; tests check a few.",
     [CA], [("A8CartHeader", CA), ("get_main_segment / get_banked_segments", CA), ("create_emulator_boot_segment", CA)],
     "segments, header bytes and errors for symbolic headers")

prop("C21", "Addresses and subsets given as text mean what the prefixes say",
     "A number given as text is read as hexadecimal with a 0x or $ prefix, decimal with #, binary with %, and otherwise in the default base, for every digit string, and anything else is an error rather than a different number. A data file given as name[start:end]@address contributes exactly that subset of its bytes at that address; every data and object file listed on a command line contributes, in order, however the options are grouped; and the run address given or found in an object file is passed on unchanged.",
     ["inputs"], "every text up to the length bound, every subset bound and address",
     "Prefix handling is by character position; all strings cannot be listed.",
     [UT, INI], [("text_to_int", UT), ("assemble_segments", INI)],
     "values returned by text_to_int; segments returned by assemble_segments")

prop("C22", "Commands never destroy data they were not told to",
     "Extracting never overwrites an existing local file without the force option and never writes outside the target directory whatever the names on the disk; adding never replaces a file on the image without force; deleting never removes a locked file without force; creating never replaces an existing image without force, and makes an exact copy of the template named (by its full name, with or without extension, or by a part of the name that fits one template only); a dry run writes nothing anywhere. When a command adds, removes or creates, what it reports as done is in the saved image, even if other files of the same command were skipped.",
     ["inputs", "faults", "histories"], "every combination of options and of existing local and image files in the bound, every file name stored on the disk, every order of files",
     "The outcome depends on combinations of options, name collisions and hostile names; tests run a few command lines.",
     [INI], [("extract_files / add_files / remove_files / save_file / create_image", INI)],
     "calls to open/save/makedirs recorded by stand-ins, image bytes saved")

prop("C23", "Clearing free space touches nothing but free sectors",
     "Clearing the empty sectors of a disk fills every sector that the allocation map marks free with the fill value and changes no other byte of the image, so that all files, the directory, the map and the boot sectors stay as they were.",
     ["inputs", "states"], "every free/used pattern over the explored windows, every fill value, every geometry",
     "A single misplaced sector is only visible for a particular map content.",
     [DI, UT], [("shred", DI), ("iter_free_sectors", UT)],
     "image bytes before and after shred")

prop("C24", "Compressed images are unpacked exactly or left alone",
     "If the data is in a supported compressed container, the image that is opened consists of exactly the unpacked bytes; data that is not such a container is used as it is, whatever the decompressors report, truncated or corrupt containers included. An archive type that is recognised but not supported is reported as unsupported, and garbage is never taken for it.",
     ["inputs", "faults"], "every outcome of each decompressor, every header byte pair of the archive format, every unpacked content in the bound",
     "Each kind of corruption raises a different error from a different library layer.",
     [CO, PA, "atrcopy/dcm.py"], [("DiskImageContainer", CO), ("guess_container", PA), ("DCMContainer", "atrcopy/dcm.py")],
     "data handed to the parsers, exceptions")

prop("C25", "SpartaDOS disks are listed and read as the format defines",
     "On a SpartaDOS disk every file in use is listed with its name, length, lock and directory state, deleted entries are not listed, and reading a file returns exactly its recorded length of bytes from the sectors of its sector map in order, across linked map sectors.",
     ["inputs"], "every directory entry content, every length up to the bound, every sector map order in the explored layouts",
     "Lengths at sector and map boundaries and attribute combinations are not in the sample disks.",
     [SP], [("SpartaDosDirent", SP), ("get_sector_map / get_directory / get_file_segment", SP)],
     "image.files and find_file against an independent decoder")

prop("C26", "An image is identified as what it is and opened without change",
     "Identifying a file tries the known formats in the documented order and returns the first that accepts it: well-formed Atari DOS, SpartaDOS, boot, executable, cartridge, DOS 3.3 and Apple binary images are each opened as their own format whatever their contents, unknown data is reported as unknown, and identification never modifies the data. Every segment listed for an identified image lies inside it.",
     ["inputs"], "every content of the free bytes of each format, arbitrary short data",
     "One format's data can accidentally satisfy another format's test; only particular byte values do.",
     [PA, INI, "atrcopy/magic.py", AT, D3, KB], [("guess_parser_for_mime / iter_parsers", PA), ("find_diskimage_from_data", INI), ("check_signature", "atrcopy/magic.py")],
     "parser class returned and data bytes afterwards")

prop("C27", "A zip archive of ROM images opens as exactly its members",
     "A zip archive of ROM images is opened as its members one after the other in archive order, with one segment for each that has its name, its bytes and its place in the set, and the archive itself is left alone. An archive with no members or with a member whose size is not a multiple of 16 bytes is refused, and a damaged, truncated or encrypted archive ends in one of the package's own errors, never in another exception.",
     ["inputs", "faults"], "every number and size of members in range, every content, every way the zip reader fails and the point where it does",
     "Tests open one good archive at most; damaged ones fail in many different ways inside the library.",
     ["atrcopy/mame.py", PA], [("MameZipImage", "atrcopy/mame.py"), ("MameZipParser", PA)],
     "MameZipImage segments and data; find_diskimage_from_data")

prop("C28", "A disk opened as segments shows every area and file in place",
     "Opening a populated disk image as segments yields a segment for the whole image, one each for its header, its sectors, its allocation map and its directory, and one for each file in directory order, named after it. Each segment consists of exactly the bytes of the image that belong to that area or file; opening changes nothing; writing a byte through any of the segments changes exactly that byte of the image, and the file read afterwards has it. The label of a byte among the sectors names its sector and offset.",
     ["inputs", "states"], "every content of files in fragmented chains, every value written, every offset within a sector",
     "Segments are built from computed position lists; tests look at names and a few sizes.",
     [DI, AT, D3, "atrcopy/parsers.py", "atrcopy/segments.py"], [("parse_segments / get_file_segments", DI), ("get_vtoc_segments / get_directory_segments / get_file_segment", AT), ("get_directory_segments / get_file_segment", D3)],
     "parser.segments: positions, bytes, names, labels; image bytes after writing through a segment")

prop("C29", "Listings and checksums describe exactly the files on the disk",
     "The list and crc commands print one line for each file on the image, or for each of the files named that exists, in directory order, with its name, its size in sectors and its lock mark; files that are deleted or not on the disk have no line. A checksum shown is the CRC-32 of exactly the contents of that file. The segments command names every file. None of these commands writes anything.",
     ["inputs", "states"], "every content and lock state of the files, every selection of names in the bound",
     "Which files appear, in which order and with the checksum of which bytes depends on the disk and the selection; tests do not run these commands.",
     [INI, AT, D3], [("list_files / crc_files", INI), ("Dirent.__str__ / summary", AT)],
     "lines printed; data given to zlib.crc32; files written")

prop("C30", "A saved session of an opened image restores every segment in place",
     "Saving the description of an opened image and restoring it over the same image read again gives the same list of segments: each with its kind, name, origin, error text, identity and labels, consisting of the same bytes of the image in the same order, also when saved and restored again. The restored segments are views of the new image only: writing through one changes exactly that byte there, and nothing in the image opened first. Comments and markings put on any segment are on the same byte after the restart.",
     ["inputs", "states", "histories"], "every kind of image in the bound with arbitrary contents; every segment; every value written",
     "Segments of fragmented files are restored from saved position lists; tests restore single hand-made segments.",
     [PA, "atrcopy/segments.py", AT, D3], [("SegmentParser.__getstate__ / __setstate__ / reconstruct_segments", PA), ("DefaultSegment.__getstate__ / reconstruct_raw / serialize_session", "atrcopy/segments.py")],
     "segments of the restored parser: positions, bytes, names, comments; both images after a write")


LEVEL = "model_checking"
NOTE = "Bounded symbolic execution of the real Python source with z3 deciding every branch and assertion; bounds in the evidence file and DESIGN.md."
TECH = "symbolic execution of the real source (re-encoded from /repo on every run) with SMT-decided path feasibility and assertions (z3, cvc5 cross-check), counterexamples replayed on the real code"


def main():
    built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "harness")) if f.startswith("c") and f[1:3].isdigit())
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p, _ in P:
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        if i in built:
            checks.append({"property": i, "quick_cmd": "python3-vt -m vp.run %s --tier quick" % i,
                           "thorough_cmd": "python3-vt -m vp.run %s --tier thorough" % i,
                           "technique": TECH, "level": LEVEL, "level_note": note or NOTE})
        else:
            na.append({"property": i, "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Harnesses in harness/, symbolic engine in vp/. Repaired defects are listed in known_findings.json."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
