"""The listing shows exactly what the directory holds; added entries have the
documented on-disk form."""
from . import fs as F


def lettered(cx, name, n, avoid=(46,)):
    t = cx.bytelist(name, n)
    for c in t:
        cx.assume(cx.and_(c >= 33, c <= 126))
        for a in avoid:
            cx.assume(c != a)
    return t


def text(cx, codes):
    return cx.mkbytes(codes).decode("latin1")


# ------------------------------------------------------------------ reading
def atari_list(cx, geo, slots, nlen, elen):
    """Arbitrary flags, counts and names in some slots of a 64-entry
    directory; the rest is in use or deleted."""
    fs = F.make(geo)
    img = fs.blank(cx)
    expect = []
    other = 0
    over = False
    last = max(slots)
    for k in range(last + 2 if last < 63 else 64):
        if k in slots:
            e = {"flag": cx.byte("flag%d" % k), "count": cx.int("count%d" % k, 0, 720), "start": cx.int("start%d" % k, 1, 719)}
            # an entry is either in use or deleted, not both
            cx.assume((e["flag"] & 0xc0) != 0xc0)
            # directories end at the first never-used entry
            if k != last:
                cx.assume(e["flag"] != 0)
            e["name"] = lettered(cx, "name%d" % k, nlen)
            e["ext"] = lettered(cx, "ext%d" % k, elen)
            fs.put_entry(cx, img, k, e["flag"], e["count"], e["start"], e["name"], e["ext"])
        elif k == last + 1:
            break
        else:
            e = {"flag": [0x42, 0x80, 0x62, 0x43][k % 4], "count": k, "start": 100 + k, "name": F.asc("N%d" % k), "ext": F.asc("XYZ"[:k % 4])}
            fs.put_entry(cx, img, k, e["flag"], e["count"], e["start"], e["name"], e["ext"])
        e["slot"] = k
        expect.append(e)
    img0 = cx.snapshot(img)
    image = fs.open(img)
    cx.check(cx.same_except(image.bytes, img0, []), "listing does not change the disk")
    live = [e for e in expect if (e["flag"] & 0x40) != 0]
    cx.check(len(image.files) == len(live), "exactly the files in use are listed")
    for e, f in zip(live, image.files):
        fl = e["flag"]
        want = e["name"] + ([46] + e["ext"] if e["ext"] else [])
        cx.check(cx.eq(f.filename, text(cx, want)), "name recorded on disk")
        cx.check(f.num_sectors == e["count"], "sector count recorded on disk")
        cx.check(f.starting_sector == e["start"], "starting sector recorded on disk")
        cx.check(cx.iff(f.locked, (fl & 0x20) != 0), "lock state recorded on disk")
        cx.check(cx.iff(f.is_dir, (fl & 0x10) != 0), "subdirectory flag recorded on disk")
        cx.check(cx.iff(f.dos_2, (fl & 0x02) != 0), "DOS 2 flag recorded on disk")
        cx.check(cx.iff(f.mydos, (fl & 0x04) != 0), "MyDOS flag recorded on disk")
        cx.check(cx.iff(f.opened_output, (fl & 0x01) != 0), "open for output flag recorded on disk")
        cx.check(f.in_use and not f.deleted, "listed files are in use")
        cx.check(f.file_num == e["slot"], "file number is the directory position")
        cx.reach("listed")
    if len(live) < len(expect):
        cx.reach("deleted")


def atari_names(cx, geo):
    """Names with arbitrary space padding."""
    fs = F.make(geo)
    img = fs.blank(cx)
    nm = cx.bytelist("n", 8)
    ex = cx.bytelist("e", 3)
    for l in (nm, ex):
        for i, c in enumerate(l):
            cx.assume(cx.and_(c >= 0x20, c <= 0x7e))
    fs.put_entry(cx, img, 0, 0x42, 1, 10, nm, ex)
    image = fs.open(img)
    # only trailing spaces are padding
    a = b = 0
    for i, c in enumerate(nm):
        a = cx.ite(c != 32, i + 1, a)
    for i, c in enumerate(ex):
        b = cx.ite(c != 32, i + 1, b)
    a, b = cx.concrete(a), cx.concrete(b)
    want = nm[:a] + ([46] + ex[:b] if b else [])
    cx.check(cx.eq(image.files[0].filename, text(cx, want)), "padding is not part of the name")
    cx.check(image.find_dirent(text(cx, want)) is image.files[0], "found under the listed name")
    cx.reach("padded")


def atari_flags(cx, geo):
    """The printed flags say what the flag byte says."""
    fs = F.make(geo)
    img = fs.blank(cx)
    fl = cx.choose("flag", [f for f in range(0x40, 0x80)])
    fs.put_entry(cx, img, 0, fl, 12, 345, F.asc("AUTORUN"), F.asc("SYS"))
    image = fs.open(img)
    f = image.files[0]
    want = "".join([("o" if fl & 1 else "."), ("2" if fl & 2 else "."), ("m" if fl & 4 else "."), "u", ".", ("*" if fl & 0x20 else " ")])
    cx.check(f.summary == want, "flag summary")
    cx.check(str(f) == "File #0  (%s) 345 AUTORUN SYS  012" % want, "listing line")
    cx.check(image.dir().splitlines()[1:] == [str(f)], "directory listing")
    cx.reach("printed")


def apple_list(cx, slots, nlen):
    fs = F.make("dos33")
    img = fs.blank(cx)
    expect = []
    for k in range(max(slots) + 1):
        if k in slots:
            e = {"track": cx.byte("track%d" % k), "sector": cx.int("sector%d" % k, 0, 15), "typ": cx.byte("typ%d" % k),
                 "count": cx.int("count%d" % k, 0, 560), "name": lettered(cx, "name%d" % k, nlen, avoid=())}
            cx.assume(cx.or_(cx.and_(e["track"] >= 1, e["track"] < 35), e["track"] == 255))
        else:
            e = {"track": [20, 255, 3][k % 3], "sector": k % 16, "typ": [4, 0, 0x82, 1][k % 4], "count": k, "name": F.asc("FILE %d" % k)}
        fs.put_entry(cx, img, k, e["track"], e["sector"], e["typ"], e["name"], e["count"])
        expect.append(e)
    img0 = cx.snapshot(img)
    image = fs.open(img)
    cx.check(cx.same_except(image.bytes, img0, []), "listing does not change the disk")
    live = [e for e in expect if e["track"] != 255]
    cx.check(len(image.files) == len(live), "exactly the files in use are listed")
    for e, f in zip(live, image.files):
        cx.check(cx.eq(f.filename, text(cx, e["name"])), "name recorded on disk")
        cx.check(f.num_sectors == e["count"], "sector count recorded on disk")
        cx.check(cx.iff(f.locked, (e["typ"] & 0x80) != 0), "lock state recorded on disk")
        cx.check(cx.and_(f.track == e["track"], f.sector == e["sector"]), "track/sector list position recorded on disk")
        cx.check(f.in_use and not f.deleted, "listed files are in use")
        cx.check(f.flag == e["typ"], "file type recorded on disk")
        cx.reach("listed")
    if len(live) < len(expect):
        cx.reach("deleted")


TYPES = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 0x10: "R", 0x20: "a", 0x40: "b"}


def apple_deleted(cx, slots):
    """A deleted entry keeps whatever track number in its last character."""
    fs = F.make("dos33")
    img = fs.blank(cx)
    for k in range(max(slots) + 2):
        fs.put_entry(cx, img, k, 255 if k in slots else 20, k % 16, 4, F.asc("FILE %d" % k), 3)
        if k in slots:
            img[fs.slot_pos(k) + 0x20] = cx.byte("last%d" % k)
    image = fs.open(img)
    cx.check(F.names(image) == ["FILE %d" % k for k in range(max(slots) + 2) if k not in slots], "exactly the files in use are listed")
    cx.reach("deleted")


def apple_types(cx):
    fs = F.make("dos33")
    img = fs.blank(cx)
    t = cx.choose("typ", list(range(256)))
    fs.put_entry(cx, img, 0, 20, 3, t, F.asc("HELLO WORLD"), 300)
    image = fs.open(img)
    f = image.files[0]
    want = ("*" if t & 0x80 else " ") + TYPES.get(t & 0x7f, "?")
    cx.check(f.summary == want, "lock mark and type letter")
    cx.check(f.file_type == want[1], "type letter")
    cx.check(str(f) == "File #0  (%s) 300 %-30s 020 003" % (want, "HELLO WORLD"), "listing line")
    cx.reach("printed")


def apple_names(cx):
    """Names with arbitrary space padding, up to the full 30 characters."""
    fs = F.make("dos33")
    img = fs.blank(cx)
    n = cx.choose("len", [1, 2, 15, 29, 30])
    nm = lettered(cx, "n", n, avoid=())
    if n > 2:
        nm[1] = 32
        if cx.choose("lead", [0, 1]):
            nm[0] = 32
    fs.put_entry(cx, img, 0, 20, 3, 4, nm, 5)
    image = fs.open(img)
    cx.check(cx.eq(image.files[0].filename, text(cx, nm)), "padding is not part of the name")
    cx.check(image.find_dirent(text(cx, nm)) is image.files[0], "found under the listed name")
    cx.reach("padded")


def capacity(cx, geo, counts):
    """Full directories, every position reachable."""
    d = F.Disk(cx, geo)
    fs = d.fs
    n = cx.choose("n", counts)
    gone = cx.choose("gone", [None, 0, n // 2, n - 1])
    for k in range(n):
        nm = F.asc("F%d" % k)
        c = cx.byte("c%d" % k)
        if fs.kind == "atari":
            fs.put_entry(cx, d.img, k, 0x80 if k == gone else 0x42, c, 4 + k, nm, [])
        else:
            fs.put_entry(cx, d.img, k, 255 if k == gone else 3 + k // 16, k % 16, 4, nm, c)
    image = d.done()
    want = ["F%d" % k for k in range(n) if k != gone]
    cx.check(F.names(image) == want, "every entry is listed, in order")
    for k in range(n):
        if k != gone:
            f = image.find_dirent("F%d" % k)
            cx.check(cx.eq(f.num_sectors, cx.plain(d.img[fs.slot_pos(k) + (1 if fs.kind == "atari" else 33)])), "each name finds its own entry")
    cx.reach("full" if n == fs.nslots else "partial")


# ------------------------------------------------------------------ writing
def atari_form(cx, d, img, slot, base, ext, nsec):
    e = d.fs.entry_bytes(cx, img, slot)
    cx.check(e[0] == 0x42, "flag of a new file: in use, DOS 2")
    cx.check(e[1] + 256 * e[2] == nsec, "sector count stored")
    ch = d.fs.chain(cx, img, slot)
    cx.check(ch is not None and len(ch) == nsec, "stored entry leads to the file's sectors")
    cx.check(cx.eq(e[5:13], base + [32] * (8 - len(base))), "name stored padded with spaces")
    cx.check(cx.eq(e[13:16], ext + [32] * (3 - len(ext))), "extension stored padded with spaces")


def atari_write(cx, geo, pre, shapes):
    d = F.populate(cx, geo, pre)
    image = d.done()
    slot = d.next_slot()
    old = F.names(image)
    nb, ne, size = cx.choose("shape", shapes)
    base = lettered(cx, "b", nb)
    ext = lettered(cx, "e", ne)
    name = text(cx, base + ([46] + ext if ext else []))
    data = cx.bytelist("d", size)
    for o in old:
        cx.assume(cx.not_(cx.eq(name, o)))
    image.write_file(name, None, cx.mkbytes(data))
    atari_form(cx, d, image.bytes, slot, base, ext, d.fs.nsectors(size))
    for im in (image, d.fs.open(image.bytes.copy())):
        at = len([k for k in d.files if k < slot])
        got = F.names(im)
        cx.check(len(got) == len(old) + 1 and cx.eq(got[at], name), "listed under its name at its place")
        cx.check(got[:at] + got[at + 1:] == old, "other names unchanged")
        f = im.find_dirent(name)
        cx.check(f is im.files[at], "found under its name")
        cx.check(f.num_sectors == d.fs.nsectors(size) and not f.locked, "size and lock state")
        cx.check(cx.eq(im.find_file(name), cx.mkbytes(data)), "contents under its name")
    cx.reach("written")


def apple_write(cx, pre, shapes):
    d = F.populate(cx, "dos33", pre)
    image = d.done()
    slot = d.next_slot()
    old = F.names(image)
    n, size = cx.choose("shape", shapes)
    typ = cx.choose("typ", ["T", "I", "A", "B", "S", "R", "a", "b", None])
    nm = lettered(cx, "n", n, avoid=())
    if n > 3:
        nm[1] = 32
    name = text(cx, nm)
    data = cx.bytelist("d", size)
    for o in old:
        cx.assume(cx.not_(cx.eq(name, o)))
    image.write_file(name, typ, cx.mkbytes(data))
    e = d.fs.entry_bytes(cx, image.bytes, slot)
    code = {v: k for k, v in TYPES.items()}.get(typ, 4)
    cx.check(e[2] == code, "file type stored, unlocked")
    cx.check(cx.eq(e[3:33], [c | 0x80 for c in nm] + [0xa0] * (30 - n)), "name stored as padded high ASCII")
    cx.check(e[33] + 256 * e[34] == d.fs.nsectors(size), "sector count stored")
    ch = d.fs.chain(cx, image.bytes, slot)
    cx.check(ch is not None and len(ch) == d.fs.nsectors(size), "stored entry leads to the file's sectors")
    for im in (image, d.fs.open(image.bytes.copy())):
        at = len([k for k in d.files if k < slot])
        got = F.names(im)
        cx.check(len(got) == len(old) + 1 and cx.eq(got[at], name), "listed under its name at its place")
        cx.check(got[:at] + got[at + 1:] == old, "other names unchanged")
        f = im.find_dirent(name)
        cx.check(f is im.files[at], "found under its name")
        cx.check(f.num_sectors == d.fs.nsectors(size) and not f.locked and f.file_type == (typ or "B"), "size, type and lock state")
    cx.reach("written")


def fillup(cx, geo, have):
    """Slots are used in order up to the last one, then refused."""
    from atrcopy import errors
    d = F.Disk(cx, geo)
    fs = d.fs
    n = cx.choose("have", have)
    for k in range(n):
        s = fs.usable()[300 + k]
        if fs.kind == "atari":
            fs.put_entry(cx, d.img, k, 0x42, 1, s, F.asc("F%d" % k), [])
        else:
            fs.put_entry(cx, d.img, k, s // 16, s % 16, 4, F.asc("F%d" % k), 2)
        d.mark_used([s])
    image = d.done()
    want = ["F%d" % k for k in range(n)]
    body = cx.bytelist("d", 3)
    for k in range(n, min(n + 3, fs.nslots)):
        image.write_file("G%d" % k, None, cx.mkbytes(body))
        want.append("G%d" % k)
        cx.check(F.names(image) == want, "new entry follows the existing ones")
        e = fs.entry_bytes(cx, image.bytes, k)
        cx.check(fs.live(cx, image.bytes, k), "new entry is in the next slot")
        for j in range(n, k + 1):
            cx.check(cx.eq(image.find_file("G%d" % j), cx.mkbytes(fs.padded(cx, body))), "each new file reads back")
    if len(want) == fs.nslots:
        try:
            image.write_file("EXTRA", None, b"x")
            cx.fail("full directory must refuse another entry")
        except errors.NoSpaceInDirectory:
            cx.reach("no space")
        cx.check(F.names(image) == want, "listing unchanged")


def cases(tier):
    T = tier == "thorough"
    out = []
    sizes = [(8, 3), (1, 0), (5, 2)] + ([(1, 1), (7, 3), (8, 0), (3, 1)] if T else [])
    for geo in ["sd", "dd", "edx"] + (["ed", "dd2", "sdx", "ddx", "dd2x"] if T else []):
        for j, slots in enumerate([[0, 1], [7, 8], [62, 63]] + ([[0, 1, 2], [31, 32, 55], [61, 62, 63]] if T else [])):
            for nl, el in sizes if T or j == 0 else sizes[:1]:
                out.append({"name": "list-%s-%d-%d.%d" % (geo, slots[0], nl, el), "fn": "atari_list", "cost": 3,
                            "params": {"geo": geo, "slots": slots, "nlen": nl, "elen": el}})
        out.append({"name": "names-%s" % geo, "fn": "atari_names", "cost": 3, "params": {"geo": geo}})
        out.append({"name": "flags-%s" % geo, "fn": "atari_flags", "cost": 2, "params": {"geo": geo}})
        out.append({"name": "capacity-%s" % geo, "fn": "capacity", "cost": 2, "params": {"geo": geo, "counts": [1, 8, 9, 63, 64]}})
        out.append({"name": "fillup-%s" % geo, "fn": "fillup", "cost": 2, "params": {"geo": geo, "have": [0, 6, 7, 61, 63]}})
        for pre in ["empty", "frag"]:
            out.append({"name": "write-%s-%s" % (geo, pre), "fn": "atari_write", "cost": 4,
                        "params": {"geo": geo, "pre": pre, "shapes": [(8, 3, 4), (1, 0, 126), (7, 1, 300), (8, 0, 1), (2, 2, 0)]}})
    for j, slots in enumerate([[0, 1], [6, 7], [103, 104]] + ([[0, 1, 2], [13, 14, 50]] if T else [])):
        out.append({"name": "list-dos33-%d" % slots[0], "fn": "apple_list", "cost": 3, "params": {"slots": slots, "nlen": 30}})
        out.append({"name": "list-dos33-%d-short" % slots[0], "fn": "apple_list", "cost": 3, "params": {"slots": slots, "nlen": 4}})
    out.append({"name": "names-dos33", "fn": "apple_names", "params": {}})
    for slots in ([1], [6, 7], [0, 13]):
        out.append({"name": "deleted-dos33-%s" % "-".join(map(str, slots)), "fn": "apple_deleted", "params": {"slots": slots}})
    out.append({"name": "types-dos33", "fn": "apple_types", "cost": 3, "params": {}})
    out.append({"name": "capacity-dos33", "fn": "capacity", "cost": 3, "params": {"geo": "dos33", "counts": [1, 7, 8, 104, 105]}})
    out.append({"name": "fillup-dos33", "fn": "fillup", "cost": 4, "params": {"geo": "dos33", "have": [0, 5, 6, 97, 102, 105]}})
    for pre in ["empty", "frag"]:
        out.append({"name": "write-dos33-%s" % pre, "fn": "apple_write", "cost": 8,
                    "params": {"pre": pre, "shapes": [(30, 1), (1, 0), (12, 257)] + ([(29, 256), (3, 600)] if T else [])}})
    return out


def REACH(tier):
    return ["listed", "deleted", "padded", "printed", "full", "partial", "written", "no space"]


BOUNDS = {
    "quick": "Atari SD, DD (ATR) and ED (raw), DOS 3.3: two directory entries at a time fully symbolic (flag, count, position, every character of the name) at the start, across a directory sector boundary and at the end of an otherwise filled directory; every flag byte and type byte; names of every padded length; added files with symbolic names of 1-8.0-3 / 1-30 characters; directories with 0 to 64/105 entries.",
    "thorough": "as quick, all 8 Atari geometries, three symbolic entries at a time, more name shapes.",
}
OUTSIDE = "names with characters outside 33-126 (a space inside a DOS 3.3 name is covered), entries flagged both in use and deleted, used entries after a never-used one, contents of subdirectories"
ASSUMPTIONS = ["entries in use have a starting sector that exists on the disk (others are C09)", "directory written by the reference writer in harness/fs.py"]
