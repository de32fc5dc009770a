"""Writes DESIGN.md from tools/design_head.md, the properties, the bounds stated
in the harnesses and the text below (run by hand, not by a check)."""
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from vp import engine as E, instrument as I
E.set_engine(E.Engine())
E.ENG.pending = []

# property -> (what is run and asserted, oracle, seconds quick)
T = {
"C01": ("`write_file` then `find_file`, also after re-parsing the bytes; equality of every byte is a VC over fully symbolic contents, with symbolic free maps of the windows and symbolic directory positions.", "the written byte terms themselves", 62),
"C02": ("`write_file`/`delete_file` on populated disks; every byte of the image before and after is compared except the sectors the new file got, the map and its slot; all add/delete histories up to the bound are branches of one symbolic execution.", "image before the operation; reference reader in `harness/fs.py`", 21),
"C03": ("`write_file` with symbolic free map; the sectors of the stored chain (followed by the reference reader) must have been free, distinct, non-system; map after = map before minus those; counts equal. VTOC decode/encode over every map value.", "reference VTOC and chain decoder", 22),
"C04": ("operations driven into each failure (symbolic reason); on the failure path all bytes and the listing must be equal to the snapshot. A failing store is injected at a symbolic call number.", "snapshot", 26),
"C05": ("`delete_file`, then the map, listing, `find_file`, and re-adding; also the `delete` of damaged counts and near-identical names.", "reference chain decoder and map", 27),
"C06": ("`get_directory` over symbolic directory entries; `write_file` with symbolic names.", "reference directory decoder / encoder", 8),
"C07": ("`get_index_of_sector`, `sector_is_valid`, labels, `get_contiguous_sectors` with the sector number as one symbolic integer: in range / disjoint / covering / invalid refused are arithmetic VCs.", "closed formula of the geometry", 7),
"C08": ("`AtrHeader` decode and encode over 16 symbolic bytes; header creation for the standard sizes.", "ATR field layout", 4),
"C09": ("open, list, read all files, enumerate segments on disks with one symbolic damaged structure; any exception that is not the package's, or fuel exhaustion, is the violation.", "exception class", 61),
"C10": ("files laid out by the reference writer (symbolic order, byte counts, contents) and read by `find_file`.", "reference writer", 20),
"C11": ("`create_executable_file_data` with symbolic origins, contents, run address; result compared byte by byte, then parsed again.", "XEX layout", 7),
"C12": ("`AtariDosFile`/`KBoot`-independent parsing of symbolic byte strings (`parse_segments`) against a reference decoder executed on the same symbolic bytes.", "reference XEX decoder", 19),
"C13": ("`get_bsave`-type creation and `AppleBin` parsing with symbolic base, contents, run address.", "memory image", 6),
"C14": ("`KBootImage.create_boot_image`, `add_xexboot_header`, re-opening the bytes.", "executable of C11, ATR layout", 7),
"C15": ("`StandardDeliveryImage.create_boot_image`; the 6502 loader found in the produced boot sector is executed by a small 6502 interpreter (`harness/a2.py`) over the symbolic image, and memory compared.", "memory image of the segments", 23),
"C16": ("`SegmentData`/`DefaultSegment` views with symbolic bounds, index lists and writes; every view is compared with the positions computed independently.", "list of positions", 18),
"C17": ("style and comment calls with symbolic ranges and style bytes; sessions through `serialize`/`restore`.", "per-byte model", 15),
"C18": ("`__getstate__`/`__setstate__`, `reconstruct_raw`, `resize`, `replace_data` with symbolic selections.", "positions and bytes before saving", 38),
"C19": ("`interleave_segments` with symbolic contents, offsets, orders and factors.", "cyclic order formula", 25),
"C20": ("cartridge parsing with symbolic header, bank borders and types.", "bank table written from the atari800 documentation", 47),
"C21": ("`text_to_int`, data-file subsets, `assemble_segments`, and whole command lines with symbolic characters.", "reference digit decoder", 55),
"C22": ("`atrcopy.run` on whole command lines over an in-memory file system; symbolic names, lock bits, contents.", "rules of the options; reference reader of the saved image", 46),
"C23": ("`shred`/clear with symbolic maps and fill value.", "map before", 20),
"C24": ("`find_diskimage_from_data`/`iter_parsers` with decompressors replaced by nondeterministic stand-ins.", "bytes the stand-in produced", 7),
"C25": ("SpartaDOS images built by hand with symbolic entries, lengths, maps.", "reference layout", 9),
"C26": ("identification of symbolic images of each kind through all parsers.", "documented order; per-format signature rules", 61),
"C27": ("ROM sets with the zip reader replaced by a nondeterministic stand-in.", "bytes the stand-in produced", 5),
"C28": ("the segment list of populated disks; position, bytes, names; writes through each segment.", "reference layout", 25),
"C29": ("`list`, `crc`, `segments` command lines; printed lines against the disk; `zlib.crc32` replaced by a recorder.", "reference reader", 25),
"C30": ("parsers of every kind saved (`__getstate__`), made again and restored over a copy of the image.", "the parser that was saved; positions in the image", 20),
}

head = open(os.path.join(H, "tools", "design_head.md")).read()
tail = open(os.path.join(H, "tools", "design_tail.md")).read()
out = [head.rstrip("\n"), "", "## Properties", ""]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    m = I.load("harness.%s" % p["id"].lower())
    b = getattr(m, "BOUNDS", {})
    how, oracle, sec = T[p["id"]]
    out += ["### %s  %s" % (p["id"], p["title"]), "",
            "* Run and asserted: " + how,
            "* Oracle: " + oracle + ".",
            "* Bounds (quick, about %d s on 8 cores): %s" % (sec, b.get("quick") if isinstance(b, dict) else b)]
    if isinstance(b, dict) and b.get("thorough"):
        out.append("* Thorough: " + b["thorough"])
    if getattr(m, "OUTSIDE", ""):
        out.append("* Outside: " + m.OUTSIDE + ".")
    if getattr(m, "ASSUMPTIONS", []):
        out.append("* Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    out += ["* Beyond tests: " + p["why_tests_cant"], ""]
seeds = ["| property | bug | needs |", "| --- | --- | --- |"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    seeds.append("| %s | %s: %s | %s |" % (m["property"], d, m["what_it_breaks"], m["needs"]))
seeds[2:] = sorted(seeds[2:])
tail = tail.replace("@SEEDS@", "\n".join(seeds))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
