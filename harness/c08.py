"""ATR headers survive decoding and encoding."""
from . import fs as F


def le(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


def decode(cx):
    from atrcopy.ataridos import AtrHeader
    from atrcopy import errors
    b = cx.bytelist("h", 16)
    arr = cx.mkarray(b)
    before = cx.snapshot(arr)
    magic = cx.and_(b[0] == 0x96, b[1] == 0x02)
    try:
        h = AtrHeader(arr)
    except errors.InvalidAtrHeader:
        cx.check(cx.not_(magic), "ATR signature must be recognised")
        cx.reach("not atr")
        return
    cx.check(magic, "only the ATR signature is recognised")
    cx.check(h.image_size == (le(b[2:4]) + (b[6] << 16)) * 16, "image size field")
    cx.check(h.sector_size == le(b[4:6]), "sector size field")
    cx.check(h.crc == le(b[7:11]), "checksum field")
    cx.check(h.unused == le(b[11:15]), "spare field")
    cx.check(h.flags == b[15], "flags field")
    cx.check(len(h) == 16, "header length")
    out = h.to_array()
    cx.check(cx.eq(out, b), "encoding gives back the same bytes")
    cx.check(cx.same_except(arr, before, []), "decoding leaves the data alone")
    cx.reach("atr")


def encode(cx):
    """Encoding a header with given fields and decoding it again."""
    from atrcopy.ataridos import AtrHeader
    h = AtrHeader(create=True)
    par = cx.int("par", 0, (1 << 24) - 1)
    h.image_size = par * 16
    h.sector_size = cx.int("ss", 0, 65535)
    h.crc = cx.int("crc", 0, (1 << 32) - 1)
    h.unused = cx.int("unused", 0, (1 << 32) - 1)
    h.flags = cx.byte("flags")
    raw = h.to_array()
    cx.check(len(raw) == 16, "length of an encoded header")
    b = cx.lst(raw)
    cx.check(cx.and_(b[0] == 0x96, b[1] == 2), "signature")
    cx.check(le(b[2:4]) + (b[6] << 16) == par, "image size in paragraphs")
    cx.check(le(b[4:6]) == h.sector_size, "sector size")
    cx.check(le(b[7:11]) == h.crc, "checksum")
    cx.check(le(b[11:15]) == h.unused, "spare")
    cx.check(b[15] == h.flags, "flags")
    g = AtrHeader(raw)
    for k in ("image_size", "sector_size", "crc", "unused", "flags"):
        cx.check(getattr(g, k) == getattr(h, k), "decoded field equals the encoded one")
    cx.reach("encoded")


def short(cx, lengths):
    from atrcopy.ataridos import AtrHeader
    from atrcopy import errors
    n = cx.choose("n", lengths)
    b = [0x96, 2] + cx.bytelist("h", n - 2) if n > 1 else cx.bytelist("h", n)
    try:
        AtrHeader(cx.mkarray(b))
        cx.fail("incomplete header must be refused")
    except errors.InvalidAtrHeader:
        cx.check(len(b) != 16, "only complete headers are accepted")
        cx.reach("short")


def signature(cx, geo):
    """A disk without ATR signature is a raw disk: no byte of it is taken for
    a header; with it, the fields say what the header says."""
    fs = F.make(geo)
    img = fs.blank(cx)
    if fs.header:
        rest = cx.bytelist("r", 9)
        img[7:16] = cx.mkarray(rest)
        image = fs.open(img)
        h = image.header
        cx.check(len(h) == 16 and h.file_format == "ATR", "ATR header recognised")
        cx.check(cx.and_(h.crc == le(rest[0:4]), h.unused == le(rest[4:8]), h.flags == rest[8]), "fields kept")
        cx.check(cx.eq(h.to_array(), img[0:16]), "header encodes to the same bytes")
        cx.reach("with header")
    else:
        b = cx.bytelist("r", 16)
        cx.assume(cx.not_(cx.and_(b[0] == 0x96, b[1] == 2)))
        img[0:16] = cx.mkarray(b)
        image = fs.open(img)
        h = image.header
        cx.check(len(h) == 0 and len(h.to_array()) == 0 and h.file_format == "XFD", "raw disk recognised")
        cx.reach("without header")
    cx.check(h.image_size == fs.image_size and h.sector_size == fs.ss and h.max_sectors == fs.nsec, "geometry of the disk")


def addhdr(cx, size, ss, nsec, marks):
    """add_atr_header describes the disk and keeps its contents."""
    from atrcopy.ataridos import add_atr_header, AtrHeader, AtariDosDiskImage, AtariDiskImage
    from atrcopy.segments import SegmentData
    import numpy as np
    disk = np.zeros(size, dtype=np.uint8)
    for k, at in enumerate(marks):
        disk[at:at + 8] = cx.mkarray(cx.bytelist("m%d" % k, 8))
    before = cx.snapshot(disk)
    data = add_atr_header(disk)
    cx.check(len(data) == size + 16, "header precedes the disk")
    b = cx.lst(data[0:16])
    cx.check(cx.eq(b, [0x96, 2, (size // 16) & 255, ((size // 16) >> 8) & 255, ss & 255, ss >> 8, size // 16 >> 16] + [0] * 9), "header describes the disk")
    cx.check(cx.same_except(data[16:], before, []), "contents unchanged")
    cx.check(cx.same_except(disk, before, []), "original unchanged")
    image = AtariDiskImage(SegmentData(data))
    h = image.header
    cx.check(h.image_size == size and h.sector_size == ss and h.max_sectors == nsec and len(h) == 16, "geometry of the new image")
    cx.reach("added")


def convert(cx, geo):
    """as_new_format: same disk, with an ATR header."""
    d = F.populate(cx, geo, "frag")
    fs = d.fs
    image = d.done()
    before = cx.snapshot(image.bytes)
    new = image.as_new_format("ATR")
    cx.check(cx.same_except(image.bytes, before, []), "original unchanged")
    par = fs.image_size // 16
    cx.check(cx.eq(new.bytes[0:16], [0x96, 2, par & 255, (par >> 8) & 255, fs.ss & 255, fs.ss >> 8, par >> 16] + [0] * 9), "header describes the disk")
    cx.check(cx.same_except(new.bytes[16:], before[fs.header:], []), "contents unchanged")
    cx.check(F.names(new) == F.names(image), "same files")
    for k in d.files:
        cx.check(cx.eq(new.find_file(d.files[k][0]), d.contents(k)), "same contents")
    cx.reach("converted")


def cases(tier):
    out = [{"name": "decode", "fn": "decode", "params": {}}, {"name": "encode", "fn": "encode", "params": {}},
           {"name": "short", "fn": "short", "params": {"lengths": [0, 1, 2, 8, 15, 17, 32]}}]
    for geo in F.AtariFS.GEO:
        out.append({"name": "signature-%s" % geo, "fn": "signature", "params": {"geo": geo}})
        out.append({"name": "convert-%s" % geo, "fn": "convert", "params": {"geo": geo}})
    for size, ss, nsec in [(92160, 128, 720), (133120, 128, 1040), (183936, 256, 720), (184320, 256, 720)]:
        out.append({"name": "add-%d" % size, "fn": "addhdr", "params": {"size": size, "ss": ss, "nsec": nsec, "marks": [0, 384, 46000, size - 8]}})
    return out


def REACH(tier):
    return ["atr", "not atr", "encoded", "short", "with header", "without header", "added", "converted"]


BOUNDS = {"quick": "every 16-byte header (all 2^128); every combination of field values for encoding; the four standard disk sizes with and without header, with 32 to 2000 arbitrary content bytes."}
BOUNDS["thorough"] = BOUNDS["quick"]
OUTSIDE = "disk contents other than at the sampled positions of add_atr_header (the copy is one slice assignment)"
ASSUMPTIONS = []
