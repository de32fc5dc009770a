"""Identification of image files."""
import hashlib
import zipfile

import numpy as np

from . import fs as F
from .c13 import le
from .c25 import Sparta
from .vfs import nocodecs

ATR, XEX, CART, C5200 = "application/vnd.atari8bit.atr", "application/vnd.atari8bit.xex", "application/vnd.atari8bit.cart", "application/vnd.atari5200.cart"
DSK, BIN, ROM = "application/vnd.apple2.dsk", "application/vnd.apple2.bin", "application/vnd.rom"


def prepare(cx):
    nocodecs(cx)
    cx.stub(zipfile.is_zipfile, lambda f: False)


def identify(cx, img, how):
    """(mime, image class name, parser) or None if unknown."""
    import atrcopy
    from atrcopy import errors
    from atrcopy.segments import SegmentData
    before = cx.snapshot(img)
    if how and "/" in how:
        # asked for one system only
        mime, parser = atrcopy.guess_parser_for_system(how, SegmentData(img))
        cx.check(cx.same_except(img, before, []), "identification does not modify the data")
        if parser is None:
            return None
    elif how == "iter":
        mime, parser = atrcopy.iter_parsers(SegmentData(img))
        cx.check(cx.same_except(img, before, []), "identification does not modify the data")
        if parser is None:
            return None
    else:
        try:
            parser, mime = atrcopy.find_diskimage_from_data(img)
        except errors.UnsupportedDiskImage:
            cx.check(cx.same_except(img, before, []), "identification does not modify the data")
            return None
        cx.check(cx.same_except(img, before, []), "identification does not modify the data")
    inside(cx, parser, img)
    return mime, type(parser.image).__name__, parser


def inside(cx, parser, img):
    size = len(img)
    cx.check(len(parser.segments) > 0 and len(parser.segments[0]) == size, "the first segment is the whole image")
    cx.check(cx.eq(parser.segments[0].data[:], img), "the image has the bytes of the file")
    for s in parser.segments:
        n = len(s)
        if type(s).__name__ == "EmptySegment" or n == 0:
            continue
        r = s.rawdata
        if r.is_indexed:
            o = cx.lst(r.order)
            ok = cx.all(cx.and_(i >= 0, i < size) for i in o)
        else:
            ok = cx.and_(s.get_raw_index(0) >= 0, s.get_raw_index(n - 1) < size)
        cx.check(ok, "segments lie inside the image", str(s.name))


HOW = ["data", "iter"]
BIG = ["Atari DOS", "DOS 3.3", "boot disk"]         # (one way less, for time)


def expect(cx, img, mime, cls, label, detail=None):
    how = HOW if label in BIG else HOW + [mime, mime.rsplit(".", 1)[0]]
    r = identify(cx, img, cx.choose("how", how))
    cx.check(r is not None, "identified", label)
    cx.check(r[1] == cls, "opened as its own format", (label, r[1]))
    if detail is None:
        cx.check(r[0] == mime, "kind of file", (label, r[0]))
    cx.reach(label)
    return r


# -------------------------------------------------------------- disk images
def bootbytes(cx, d, at, tag="boot"):
    for i in at:
        d.img[d.fs.header + i] = cx.byte("%s%d" % (tag, i))


def atari(cx, geo, what):
    """Atari DOS disk with free boot sector bytes, names, contents."""
    prepare(cx)
    d = F.populate(cx, geo, "frag", 0)
    h = d.fs.header
    if what == "boot":
        at = [0, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17] + [30, 31, 33, 40, 41, 42, 127]
        d.img[h + 1] = 3
        if not h:
            # (the first two bytes decide whether it is a DCM archive)
            at = at[1:]
        bootbytes(cx, d, at)
    elif what == "names":
        p = d.fs.slot_pos(0)
        for i in (5, 6, 12, 13):
            d.img[p + i] = cx.byte("name%d" % i)
        d.img[d.fs.slot_pos(1)] = cx.choose("flag", [0x42, 0x62, 0x43])
    elif what == "header":
        for i in range(8, 16):
            d.img[i] = cx.byte("h%d" % i)
    elif what == "vtoc":
        p, n = d.fs.pos(360)
        for i in (3, 4, 5, 6, 9, 10, 11, 50, 98, 99, 100, 127):
            d.img[p + i] = cx.byte("v%d" % i)
        d.img[p] = cx.choose("code", [0, 2])
    expect(cx, d.img, ATR, "AtariDosDiskImage", "Atari DOS", detail=True if what in ("header", "names") else None)


def kbootfield(cx, geo):
    """The size field of a KBoot disk decides between KBoot and Atari DOS."""
    prepare(cx)
    d = F.populate(cx, geo, "frag", 0)
    h = d.fs.header
    c = cx.bytelist("count", 3)
    for i in range(3):
        d.img[h + 9 + i] = c[i]
    n = c[0] + 256 * c[1] + 65536 * c[2]
    pos, _ = d.fs.pos(4)
    r = identify(cx, d.img, "data")
    cx.check(r is not None, "identified")
    if r[1] == "KBootImage":
        cx.check(cx.and_(pos + n <= d.fs.size, pos + n >= d.fs.size - 128), "taken for KBoot only if the size matches")
        f = r[2].image.files[0]
        cx.check(f.exe_size == n, "size of the executable")
        cx.reach("KBoot by size")
    else:
        cx.check(r[1] == "AtariDosDiskImage", "opened as its own format", r[1])
        cx.check(cx.not_(cx.and_(pos + n <= d.fs.size, pos + n >= d.fs.size - 128)), "taken for KBoot if the size matches")
        cx.reach("Atari DOS by size")


def sparta(cx, geo):
    prepare(cx)
    d = Sparta(cx, geo, cx.choose("version", [0x11, 0x20, 0x21]))
    h = d.g.header
    if h:
        d.img[h + 0] = cx.byte("b0")
    for i in (2, 3, 4, 5, 6, 7, 8, 13, 14, 20, 21, 22, 23, 29, 30, 33, 34, 60):
        d.img[h + i] = cx.byte("b%d" % i)
    d.map([7], [30, 31])
    d.directory([d.entry(cx.choose("st", [0x08, 0x09, 0x28]), 7, 130, [cx.byte("n0"), 65], F.asc("TXT"))], [d.root], [6])
    expect(cx, d.img, ATR, "SpartaDosDiskImage", "SpartaDOS")


def kboot(cx, n, run):
    """Boot disks made by the program itself, any executable."""
    prepare(cx)
    from atrcopy.segments import SegmentList
    from atrcopy.kboot import KBootImage
    segs = SegmentList()
    o = cx.int("origin", 0x2000, 0x9000)
    segs.add_segment(cx.mkarray(cx.bytelist("d", n)), o)
    k = KBootImage.create_boot_image(segs, o if run else None)
    img = k.bytes.copy()
    r = expect(cx, img, ATR, "KBootImage", "KBoot", detail=True)
    x = cx.lst(r[2].image.find_file(r[2].image.files[0].filename))
    want = [255, 255] + le(0x2e0) + le(0x2e1) + le(o) + le(o) + le(o + n - 1) + cx.lst(segs[0].data[:])
    cx.check(cx.eq(x, want), "the executable on the boot disk")


def bootdisk(cx, geo, kind):
    """A disk without a file system."""
    prepare(cx)
    fs = F.AtariFS(geo)
    img = fs.blank(cx)
    h = fs.header
    p = fs.slot_pos(0)
    img[p:p + 5] = [0x42, 1, 0, 255, 255]
    nsec = cx.int("nsec", 0, 255)
    lo, hi = cx.byte("lo"), cx.byte("hi")
    img[h + 1], img[h + 2], img[h + 3] = nsec, lo, hi
    for i in (4, 5, 6, 7, 40, 127):
        img[h + i] = cx.byte("b%d" % i)
    if h == 0:
        img[0] = 0
    load = lo + 256 * hi
    good = cx.and_(nsec >= 1, load + nsec * fs.ss <= 0xc000)
    r = identify(cx, img, "data")
    cx.check(r is not None and r[0] == ATR, "an image of a disk is a disk")
    if r[1] == "BootDiskImage":
        cx.check(good, "only what can be booted is a boot disk")
        cx.reach("boot disk")
    else:
        cx.check(r[1] == "AtariDiskImage", "opened as its own format", r[1])
        cx.check(cx.not_(good), "what can be booted is a boot disk")
        cx.reach("unidentified disk")


def apple(cx, what):
    prepare(cx)
    d = F.populate(cx, "dos33", "frag", 0)
    if what == "boot":
        bootbytes(cx, d, [1, 4, 5, 9, 10, 11, 100, 255])
        # not the first four bytes of a ProDOS disk, not an Atari image
        d.img[0], d.img[2] = 1, cx.int("b2", 0, 175)
        d.img[3] = cx.byte("b3")
    elif what == "vtoc":
        v = 272 * 256
        for i in (0, 4, 5, 6, 7, 0x26, 0x28, 0x30, 0x31, 0x38, 0x39, 0x40, 0xff):
            d.img[v + i] = cx.byte("v%d" % i)
    else:
        p = d.fs.slot_pos(1)
        for i in range(3, 12):
            d.img[p + i] = cx.int("n%d" % i, 0xa0, 0xff)
        d.img[p + 2] = cx.choose("type", [0, 1, 2, 4, 0x80, 0x84])
    expect(cx, d.img, DSK, "Dos33DiskImage", "DOS 3.3")


def prodos(cx):
    prepare(cx)
    from atrcopy import errors
    import atrcopy
    img = F.AppleFS().blank(cx)
    img[0:4] = [1, 56, 176, 3]
    img[5] = cx.byte("x")
    try:
        atrcopy.find_diskimage_from_data(img)
        cx.fail("an unsupported format is reported as unsupported")
    except errors.UnsupportedDiskImage:
        cx.check(True, "an unsupported format is reported as unsupported")
        cx.reach("ProDOS")


# -------------------------------------------------------------- other files
def xex(cx, lens):
    prepare(cx)
    b = [255, 255]
    for k, n in enumerate(lens):
        a = cx.int("a%d" % k, 0, 0xffff - n)
        b += le(a) + le(a + n - 1) + cx.bytelist("d%d" % k, n)
    r = expect(cx, cx.mkarray(b), XEX, "AtariDosFile", "executable", detail=True)
    get = [0xff, 0xff, 0x80, 0x2a, 0xff, 0x8a]
    sig = cx.all(x == y for x, y in zip(b, get))
    cx.check(cx.iff(r[0] == XEX + ".getaway", sig), "known program exactly by its signature")
    if r[0] != XEX + ".getaway":
        cx.check(r[0] == XEX, "kind of file")


def binary(cx, n):
    """BSAVE file."""
    prepare(cx)
    a = cx.int("a", 0, 0xffff)
    # (two bytes of 255 begin an Atari executable, 96 02 a disk image, F9/FA a DCM archive)
    cx.assume(cx.and_(a != 0xffff, a != 0x296, (a & 255) != 0xf9, (a & 255) != 0xfa))
    b = le(a) + le(n) + cx.bytelist("d", n)
    r = expect(cx, cx.mkarray(b), BIN, "Dos33BinFile", "Apple binary")
    cx.check(r[2].segments[-1].origin == a, "load address")


def cart(cx, ctype, size, mime, cls):
    prepare(cx)
    img = np.zeros(16 + size, dtype=np.uint8)
    img[0:8] = cx.mkarray(F.asc("CART") + [0, 0, 0, ctype])
    for i in list(range(8, 20)) + [16 + size // 2, size + 15, size + 10]:
        img[i] = cx.byte("c%d" % i)
    r = expect(cx, img, mime, cls, "cartridge")
    cx.check(r[2].image.header.cart_type == ctype and r[2].image.cart_type == ctype, "type of the cartridge")


def short(cx, n, first):
    """Arbitrary short data."""
    prepare(cx)
    from atrcopy import errors
    b = cx.bytelist("b", n)
    if n >= 2:
        cx.assume(cx.not_(cx.or_(b[0] == 0xf9, b[0] == 0xfa)))
    if first is not None:
        for x, y in zip(b, first):
            cx.assume(x == y)
    img = cx.mkarray(b)
    r = identify(cx, img, "data")
    is_ff = n >= 2 and cx.and_(b[0] == 255, b[1] == 255)
    # a well formed executable: complete blocks with ordered addresses
    bad = False
    if is_ff:
        pos = 2
        while pos < n:
            if n - pos >= 2 and cx.and_(b[pos] == 255, b[pos + 1] == 255):
                pos += 2
                continue
            if n - pos < 4:
                break
            s, e = b[pos] + 256 * b[pos + 1], b[pos + 2] + 256 * b[pos + 3]
            if e < s:
                bad = True
                break
            if e - s + 1 >= n - pos - 4:
                break
            pos = pos + 4 + cx.concrete(e - s + 1)
    is_bin = n >= 4 and b[2] + 256 * b[3] == n - 4
    pow2 = n & (n - 1) == 0
    if is_ff and not bad:
        cx.check(r is not None and r[0].startswith(XEX) and r[1] == "AtariDosFile", "an executable is opened as one")
        cx.reach("short executable")
    elif is_bin:
        cx.check(r is not None and r[0] == BIN and r[1] == "Dos33BinFile", "a binary file is opened as one")
        cx.reach("short binary")
    elif pow2:
        cx.check(r is None or r[0] == ROM, "a power of two in size may be a ROM")
        cx.reach("ROM")
    else:
        cx.check(r is None, "unknown data is reported as unknown", r)
        cx.reach("unknown")


class Handle:
    """An open file."""

    def __init__(self, data, fail):
        self.data, self.fail, self.at = data, fail, None

    def seek(self, n, whence=0):
        self.at = n
        return n

    def read(self, n=-1):
        if self.fail:
            raise OSError(5, "Input/output error")
        return self.data


def loader(cx, n, first, fail=False):
    """The loader of the editor agrees with the identification."""
    prepare(cx)
    cx.stub(print, lambda *a, **k: None)
    from atrcopy.omnivore_loader import identify_mime
    b = cx.bytelist("b", n)
    for x, y in zip(b, first or []):
        cx.assume(x == y)
    if n >= 2 and not first:
        cx.assume(cx.not_(cx.or_(b[0] == 0xf9, b[0] == 0xfa)))
        cx.assume(cx.not_(cx.and_(b[0] == 255, b[1] == 255)))
    r = identify(cx, cx.mkarray(b), "data")
    got = identify_mime(cx.mkbytes(b[:16]), Handle(cx.mkbytes(b), fail))
    if fail or r is None:
        cx.check(got is None, "not recognised")
        cx.reach("loader refuses")
    else:
        cx.check(got is not None and got["mime"] == r[0], "the loader finds the same type")
        cx.check(type(got["atrcopy_parser"].image).__name__ == r[1] and cx.eq(got["atrcopy_parser"].segments[0].data[:], b), "the loader opens the same image")
        cx.reach("loader")


def known(cx, size, want, cls):
    """Data whose digest is in the table is opened as what the table says."""
    prepare(cx)
    from atrcopy.signatures import sha1_signatures
    digests = sorted(d for d, v in sha1_signatures[size].items() if v[0] == want)
    digest = digests[0]

    class Sha:
        def digest(self):
            return digest

        def hexdigest(self):
            return digest.hex()

        def update(self, d):
            pass

    img = np.zeros(size, dtype=np.uint8)
    if cx.symbolic or True:
        seen = []

        def sha(*a, **k):
            seen.append(1)
            cx.check(len(a) == 1 and cx.eq(a[0], img), "the digest is of the whole data")
            return Sha()
        cx.stub(hashlib.sha1, sha)
    for i in (0, 1, 2, 3, 4, size - 1):
        img[i] = cx.byte("k%d" % i)
    if size >= 2:
        cx.assume(cx.not_(cx.or_(cx.plain(img[0]) == 0xf9, cx.plain(img[0]) == 0xfa)))
    r = identify(cx, img, cx.choose("how", HOW))
    cx.check(r is not None and r[0] == want, "a known file is what the table says")
    cx.check(r[1] == cls, "opened as its own format", r[1])
    cx.reach("known")


def signature(cx, name, at, size):
    """The details of a kind of file: exactly if all bytes match."""
    from atrcopy.magic import magic, guess_detail_for_mime
    from atrcopy.segments import SegmentData
    entry = [m for m in magic if m["mime"].endswith(name)][0]
    img = np.zeros(size, dtype=np.uint8)
    for k in at:
        if k < size:
            img[k] = cx.byte("s%d" % k)
    want = []
    for index, expected in entry["signature"]:
        if isinstance(index, slice):
            for j, v in zip(range(index.start, index.stop), expected):
                want.append((j, v))
        else:
            want.append((index, expected))
    # bytes that are not free hold the expected values
    for j, v in want:
        if j < size and j not in at:
            img[j] = v
    ok = cx.all(cx.plain(img[j]) == v if j < size else False for j, v in want)
    before = cx.snapshot(img)
    base = ".".join(entry["mime"].split(".")[:3])
    got = guess_detail_for_mime(base, SegmentData(img), None)
    if got == entry["mime"]:
        cx.check(ok, "a signature is found only if all its bytes match")
        cx.reach("signature")
    else:
        # an earlier entry of the table may match as well
        cx.check(cx.or_(got != base, cx.not_(ok)), "a signature is found if all its bytes match")
        cx.reach("no signature")
    cx.check(cx.same_except(img, before, []), "identification does not modify the data")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda label, fn, cost=2, **p: out.append({"name": label, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    for geo in ("sd", "dd", "ed", "sdx", "ddx") + (("dd2", "edx", "dd2x") if T else ()):
        for what in ("boot", "names", "vtoc"):
            add("atari-%s-%s" % (geo, what), "atari", geo=geo, what=what, cost=5)
        if not geo.endswith("x"):
            add("atari-%s-header" % geo, "atari", geo=geo, what="header", cost=5)
        add("bootdisk-%s" % geo, "bootdisk", geo=geo, kind="", cost=5)
    for geo in ("sd", "dd") + (("ed", "sdx") if T else ()):
        add("kbootfield-%s" % geo, "kbootfield", geo=geo, cost=5)
        add("sparta-%s" % geo, "sparta", geo=geo, cost=5)
    for n in (1, 100, 117, 300) + ((128, 5000) if T else ()):
        for run in (False, True):
            add("kboot-%d-%d" % (n, run), "kboot", n=n, run=run)
    for what in ("boot", "vtoc", "names"):
        add("apple-%s" % what, "apple", what=what, cost=6)
    add("prodos", "prodos")
    for k, lens in enumerate([[1], [5], [3, 4], [2, 2, 2]]):
        add("xex-%d" % k, "xex", lens=lens)
    for n in (1, 5, 12) + ((60, 252) if T else ()):
        add("binary-%d" % n, "binary", n=n)
    A8, A5 = "Atari8bitCartImage", "Atari5200CartImage"
    for t, k, mime, cls in ((1, 8, CART, A8), (2, 16, CART, A8), (4, 32, C5200, A5), (6, 16, C5200, A5), (8, 64, CART, A8), (21, 8, CART, A8), (57, 2, CART, A8), (20, 4, C5200, A5)):
        add("cart-%d" % t, "cart", ctype=t, size=1024 * k, mime=mime, cls=cls, cost=4)
    for n in (0, 1, 2, 3, 4, 5, 6, 7) + ((9, 10, 11) if T else ()):
        add("short-%d" % n, "short", n=n, first=None, cost=4)
    for n, first in ((0, None), (1, None), (3, None), (6, None), (10, [255, 255, 0, 0x20, 3, 0x20]), (7, [0, 8, 3, 0])):
        for fail in (False, True) if n == 3 else (False,):
            add("loader-%d-%d-%d" % (n, first is not None, fail), "loader", n=n, first=first, fail=fail)
    for n in (9, 11, 15):
        add("short-ff-%d" % n, "short", n=n, first=[255, 255], cost=4)
    for size, want, cls in ((8192, "application/vnd.atari2600.cart", "Atari2600CartImage"), (8192, "application/vnd.vectrex", "VectrexCartImage"), (128, "application/vnd.vectrex", "VectrexCartImage")):
        add("known-%d-%s" % (size, want[-6:]), "known", size=size, want=want, cls=cls)
    for name, at in (("getaway_pd", [8, 9, 12, 13, 14, 15]), ("xex.getaway", [0, 1, 2, 3, 4, 5]), ("atr.getaway", list(range(16, 25))),
                     ("jumpman_level_tester", [0, 4, 0x196 + 0x3f, 0x196 + 0x48, 0x196 + 0x4b, 0x196 + 0x4c]), ("atr.jumpman", [0, 3, 4, 0x810 + 0x3f, 0x810 + 0x48, 0x810 + 0x4b, 0x810 + 0x4c])):
        for size in (0, 3, 7, 13, 20, 1000, 2140, 2141, 4000):
            add("signature-%s-%d" % (name, size), "signature", name=name, at=at, size=size)
    return out


def REACH(tier):
    return ["Atari DOS", "KBoot by size", "Atari DOS by size", "SpartaDOS", "KBoot", "boot disk", "unidentified disk", "DOS 3.3", "ProDOS", "executable",
            "Apple binary", "cartridge", "short executable", "short binary", "ROM", "unknown", "known", "signature", "no signature", "loader", "loader refuses"]


BOUNDS = {
    "quick": "one sound image of each format with arbitrary bytes in its free fields (boot sectors, header, map, names, contents, volume name; about 10 to 30 bytes each): Atari DOS and boot disks in five geometries, SpartaDOS in two, KBoot disks with executables of up to 300 bytes, DOS 3.3, executables of up to three blocks, BSAVE files of up to 12 bytes, eight cartridge types; every byte sequence of up to 7 bytes; the table of digests with any content; every signature with its bytes arbitrary on data of nine sizes.",
    "thorough": "all eight Atari geometries, larger executables and binary files, short data up to 11 bytes.",
}
OUTSIDE = "compressed containers (C24); MAME zip files (the zip reader is library code); data that a format accepts by accident because it satisfies an earlier format's test, other than the KBoot size field; the digests themselves"
ASSUMPTIONS = ["decompressors and the zip reader refuse the data", "an arbitrary message has no digest in the table, except in the cases that replace the digest"]
