"""Write -> read round trip on Atari DOS 2 and Apple DOS 3.3 disks."""
from . import fs as F


def store_and_check(cx, d, image, name, data):
    fs = d.fs
    slot = d.next_slot()
    image.write_file(name, None, data)
    want = fs.padded(cx, cx.lst(data))
    got = image.find_file(name)
    cx.check(cx.eq(got, cx.mkbytes(want)), "read-back")
    # the bytes on disk, decoded by the independent reader
    ref, ok = fs.read(cx, image.bytes, slot)
    cx.check(ref is not None, "on-disk chain well formed")
    cx.check(ok, "on-disk file number")
    cx.check(cx.eq(ref, want), "on-disk contents")
    if fs.kind == "atari":
        e = fs.entry_bytes(cx, image.bytes, slot)
        cx.check(e[1] + 256 * e[2] == fs.nsectors(len(data)), "on-disk sector count")
    d.files[slot] = (name, fs.chain(cx, image.bytes, slot), cx.lst(data), None)
    return slot


def roundtrip(cx, geo, lengths, pre, fill=0, kind="bytes"):
    d = F.populate(cx, geo, pre, fill)
    image = d.done()
    n = cx.choose("len", lengths)
    data = cx.bytes("d", n)
    if kind == "array":
        data = cx.mkarray(cx.lst(data))
    elif kind == "list":
        data = cx.lst(data)
    store_and_check(cx, d, image, "NEW.BIN", data)
    # and a fresh open of the same bytes
    d2 = d.fs.open(image.bytes.copy())
    cx.check(cx.eq(d2.find_file("NEW.BIN"), cx.mkbytes(d.fs.padded(cx, cx.lst(data)))), "read-back after reopening")


def fragmented(cx, geo, window, length):
    """Free space is an arbitrary subset of a window of sectors."""
    d = F.populate(cx, geo, "frag")
    d.all_used()
    d.window("w", window)
    image = d.done()
    data = cx.bytes("d", length)
    from atrcopy import errors
    try:
        store_and_check(cx, d, image, "NEW.BIN", data)
        cx.reach("stored in fragmented space")
    except errors.NotEnoughSpaceOnDisk:
        cx.reach("window too small")


def several(cx, geo, lengths, names):
    """Several files one after another; all must read back at the end."""
    d = F.populate(cx, geo, "empty")
    image = d.done()
    for i, name in enumerate(names):
        n = cx.choose("len%d" % i, lengths)
        store_and_check(cx, d, image, name, cx.bytes("d%d" % i, n))
    image = d.fs.open(image.bytes)
    for slot in d.files:
        cx.check(cx.eq(image.find_file(d.files[slot][0]), d.contents(slot)), "all files read back at the end")


def many(cx, geo, counts):
    """The new file takes any directory position up to the last one."""
    n = cx.choose("existing", counts)
    d = F.populate(cx, geo, "full:%d" % n)
    image = d.done()
    store_and_check(cx, d, image, "NEW.BIN", cx.bytes("d", d.fs.payload + 2))
    for slot in list(d.files)[-3:]:
        cx.check(cx.eq(image.find_file(d.files[slot][0]), d.contents(slot)), "neighbour still reads back")


def windows(geo):
    if geo == "dos33":
        return [list(range(56, 64)), list(range(268, 272)) + list(range(289, 293)), list(range(552, 558)), [100, 119, 120, 255, 257, 511, 512]]
    return [list(range(10, 18)), [358, 359, 369, 370, 371], list(range(713, 719)), [100, 254, 257, 258, 510, 513, 514]]


def cases(tier):
    out = []
    T = tier == "thorough"
    for geo in ["sd", "ed", "dd", "dd2", "sdx", "edx", "ddx", "dd2x", "dos33"]:
        fs = F.make(geo)
        p = fs.payload
        big = 707 if geo != "dos33" else 496 - 5
        small = [0, 1, 2, p - 1, p, p + 1, 2 * p - 1, 2 * p, 2 * p + 1]
        if T:
            small = list(range(0, 3 * p + 3))
        out.append({"name": "small-%s" % geo, "fn": "roundtrip", "params": {"geo": geo, "lengths": small, "pre": "empty"}})
        out.append({"name": "pre-%s" % geo, "fn": "roundtrip", "params": {"geo": geo, "lengths": [0, 3, p, p + 1, 5 * p + 9], "pre": "frag", "fill": 0xe5}})
        main = geo in ("sd", "ed", "dd", "dos33")
        if main or T:
            out.append({"name": "large-%s" % geo, "fn": "roundtrip", "cost": 20, "params": {"geo": geo, "lengths": [252 * p + 1, 300 * p, 400 * p - 1], "pre": "frag"}})
            out.append({"name": "capacity-%s" % geo, "fn": "roundtrip", "cost": 20, "params": {"geo": geo, "lengths": [big * p - 1, big * p], "pre": "empty"}})
            for i, w in enumerate(windows(geo)):
                for k in ((1, 2, 3) if not T else (1, 2, 3, 4, 5)):
                    out.append({"name": "frag-%s-%d-%d" % (geo, i, k), "fn": "fragmented", "cost": 5, "params": {"geo": geo, "window": w, "length": k * p - 1}})
            out.append({"name": "several-%s" % geo, "fn": "several", "cost": 10, "params": {"geo": geo, "lengths": [0, 1, p + 1] if not T else [0, 1, p, p + 1], "names": ["ONE", "TWO.B", "LONGNAME.EXT"]}})
            top = 63 if geo != "dos33" else 104
            cnt = [7, 8, 9, 15, 16, 17, 31, 62, top] if not T else list(range(0, top + 1))
            if geo == "dos33" and not T:
                cnt = [6, 7, 8, 13, 14, 97, 98, 104]
            out.append({"name": "many-%s" % geo, "fn": "many", "cost": 12, "params": {"geo": geo, "counts": cnt}})
    if not T:
        out.append({"name": "ts-boundaries", "fn": "roundtrip", "cost": 15, "params": {"geo": "dos33", "lengths": [k * 256 for k in (121, 122, 123, 243, 244, 245, 366, 367)], "pre": "empty"}})
        out.append({"name": "array", "fn": "roundtrip", "params": {"geo": "sd", "lengths": [0, 130], "pre": "frag", "kind": "array"}})
        out.append({"name": "list", "fn": "roundtrip", "params": {"geo": "dos33", "lengths": [0, 300], "pre": "frag", "kind": "list"}})
    else:
        out.append({"name": "ts-boundaries", "fn": "roundtrip", "cost": 15, "params": {"geo": "dos33", "lengths": [k * 256 + e for k in (121, 122, 123, 243, 244, 245, 365, 366, 367) for e in (-1, 0, 1)], "pre": "empty"}})
        for geo in ("sd", "dd", "dos33"):
            for kind in ("array", "list"):
                out.append({"name": "%s-%s" % (kind, geo), "fn": "roundtrip", "params": {"geo": geo, "lengths": [0, 1, 130, 300], "pre": "frag", "kind": kind}})
    return out


def REACH(tier):
    return ["stored in fragmented space", "window too small", "read-back after reopening", "all files read back at the end", "neighbour still reads back"]


BOUNDS = {
    "quick": "all 9 geometries (Atari SD/ED/DD/DD with full-size boot sectors, with and without ATR header; DOS 3.3): fully symbolic contents, lengths around every multiple of the sector payload up to 2 sectors, 0, several hundred sectors, the full disk and each track/sector-list boundary; every free/used pattern of windows of 5 to 8 sectors (disk start, around the directory, disk end, around sectors 256 and 512); 3 files one after the other; every directory position around a sector boundary and the last one.",
    "thorough": "as quick, every length from 0 to 3 sectors + 2, every directory position, files of up to 5 sectors in the windows, data given as bytes, list or array.",
}
OUTSIDE = "free-space patterns outside the windows (sectors outside them are all used or all free), enhanced-density sectors above 719 (the tool does not use them), other geometries"
ASSUMPTIONS = ["disk populated by the reference writer in harness/fs.py"]
