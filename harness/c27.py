"""ROM sets in zip archives.  The zip reader is library code and is replaced by
a stand-in that may do anything a zip reader can do: present any members, or
fail in any of its ways when the archive or a member is opened or read."""
import io
import struct
import zipfile
import zlib

from .vfs import nocodecs

FAILS = [lambda: zipfile.BadZipFile("Bad CRC-32"), lambda: zlib.error("Error -3 while decompressing data"), lambda: RuntimeError("is encrypted, password required for extraction"),
         lambda: NotImplementedError("That compression method is not supported"), lambda: EOFError("ended"), lambda: ValueError("negative seek value"), lambda: OSError("Invalid data stream"),
         lambda: struct.error("unpack requires a buffer of 4 bytes")]


class Info:
    def __init__(self, name, data, crc, packed):
        self.filename, self.data, self.CRC, self.file_size, self.compress_size = name, data, crc, len(data), packed
        self.orig_filename = name
        self.flag_bits, self.compress_type, self.comment = 0, 8, b""

    def is_dir(self):
        return self.filename[-1:] == "/"


class Zip:
    """Stand-in for zipfile.ZipFile."""

    def __init__(self, cx, raw, members, fail):
        self.cx, self.raw, self.members, self.fail = cx, raw, members, fail
        self.opened = 0

    def is_zip(self, f):
        self.look(f)
        return self.members is not None

    def look(self, f):
        """Whatever the reader is given holds the whole archive."""
        if hasattr(f, "read"):
            f.seek(0)
            data = f.read()
            self.cx.check(self.cx.eq(self.cx.lst(data), self.raw), "the zip reader is given the whole data")
            f.seek(0)

    def make(self, f, *a, **k):
        self.look(f)
        self.oops("archive")
        return self

    def oops(self, where, k=None):
        if self.fail is not None and self.fail[0] == where and (k is None or k == self.fail[2]):
            raise FAILS[self.fail[1]]()

    def infolist(self):
        return list(self.members)

    @property
    def filelist(self):
        return list(self.members)

    def namelist(self):
        return [m.filename for m in self.members]

    def getinfo(self, name):
        for m in reversed(self.members):    # the last of several of one name
            if m.filename == name:
                return m
        raise KeyError(name)

    def which(self, item):
        for k, m in enumerate(self.members):
            if item is m:
                return k, m
        m = self.getinfo(item)
        return self.members.index(m), m

    def open(self, item, *a, **k):
        n, m = self.which(item)
        self.oops("open", n)
        return Member(self, n, m)

    def read(self, item, *a, **k):
        return self.open(item).read()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Member:
    def __init__(self, zf, n, m):
        self.zf, self.n, self.m, self.at = zf, n, m, 0

    def read(self, size=-1):
        self.zf.oops("read", self.n)
        if size is None or size < 0:
            size = len(self.m.data)
        r = self.m.data[self.at:self.at + size]
        self.at += len(r)
        return self.zf.cx.mkbytes(r)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


NAMES = {"plain": lambda k: "rom%d.bin" % k, "same": lambda k: "rom.bin", "case": lambda k: ["rom.bin", "ROM.BIN", "Rom.Bin"][k % 3],
         "folders": lambda k: "dir%d/rom.bin" % k, "order": lambda k: "%s.bin" % "zaqm"[k % 4], "odd": lambda k: ["dir/", "../up", ".hidden", "no ext"][k % 4]}


def archive(cx, sizes, fail=None, zipped=True, n=6, free=8, names="plain"):
    """Stand-in archive with members of the given sizes."""
    nocodecs(cx)
    # a real archive starts with this signature, so no other format takes it
    raw = [0x50, 0x4b, 3, 4] + cx.bytelist("raw", n)
    members = None
    if zipped:
        members = []
        for k, s in enumerate(sizes):
            if s <= free:
                data = cx.bytelist("m%d_" % k, s)
            else:
                data = [(k * 31 + i * 7) & 255 for i in range(s)]
                for i in (0, s // 2, s - 1):
                    data[i] = cx.byte("m%d_%d" % (k, i))
            members.append(Info(NAMES[names](k), data, cx.int("crc%d" % k, 0, 0xffffffff), cx.int("packed%d" % k, 0, 70000)))
    z = Zip(cx, raw, members, fail)
    cx.stub(zipfile.is_zipfile, z.is_zip)
    cx.stub(zipfile.ZipFile, z.make)
    return raw, members


def check_set(cx, image, members):
    want = []
    for m in members:
        want += m.data
    cx.check(len(image.rawdata) == len(want), "size of the set")
    if want:
        cx.check(cx.eq(image.rawdata.data[:], want), "bytes of the set")
    segs = image.segments
    cx.check(len(segs) == len(members), "one segment for each member")
    off = 0
    for s, m in zip(segs, members):
        cx.check(s.name == m.filename, "name of a member")
        cx.check(len(s) == len(m.data), "size of a member")
        cx.check(s.origin == off, "address of a member")
        if m.data:
            cx.check(cx.eq(s.data[:], m.data), "bytes of a member")
            cx.check(s.get_raw_index(0) == off and s.get_raw_index(len(s) - 1) == off + len(s) - 1, "place of a member in the set")
        off += len(m.data)


def direct(cx, sizes, free=8, names=("plain",)):
    """The image class on an archive."""
    from atrcopy.mame import MameZipImage
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    sz = cx.choose("sizes", sizes)
    raw, members = archive(cx, sz, free=free, names=cx.choose("names", list(names)))
    arr = cx.mkarray(raw)
    good = len(sz) > 0 and all(x % 16 == 0 for x in sz)
    try:
        im = MameZipImage(SegmentData(arr))
        im.parse_segments()
    except errors.AtrError:
        cx.check(not good, "an archive of members of a multiple of 16 bytes is accepted")
        cx.check(cx.eq(arr, raw), "the archive is left alone")
        cx.reach("refused")
        return
    cx.check(good, "an archive with an odd member or no member is refused")
    check_set(cx, im, members)
    cx.check(cx.eq(arr, raw), "the archive is left alone")
    # a live view: a change in a member is a change of the set
    j = cx.choose("edit", list(range(len(sz))))
    if sz[j]:
        v = cx.byte("v")
        im.segments[j][1] = v
        at = sum(sz[:j]) + 1
        cx.check(im.rawdata.data[at] == v, "a change of a member")
    cx.reach("opened")


def broken(cx, sizes, where, n):
    """The zip reader fails."""
    import atrcopy
    from atrcopy import errors
    k = cx.choose("how", list(range(len(FAILS))))
    raw, members = archive(cx, sizes, fail=(where, k, cx.choose("member", list(range(len(sizes))))), n=n)
    arr = cx.mkarray(raw)
    from atrcopy.mame import MameZipImage
    from atrcopy.segments import SegmentData
    try:
        MameZipImage(SegmentData(arr))
    except errors.AtrError:
        pass
    else:
        cx.fail("a damaged archive is refused")
    cx.check(cx.eq(arr, raw), "the archive is left alone")
    try:
        atrcopy.find_diskimage_from_data(arr)
    except errors.AtrError:
        cx.reach("damaged")
        return
    cx.fail("a damaged archive is not identified")


def through(cx, sizes, zipped, n):
    """Identification of an archive among all formats."""
    import atrcopy
    from atrcopy import errors
    raw, members = archive(cx, sizes, zipped=zipped, n=n)
    arr = cx.mkarray(raw)
    try:
        parser, mime = atrcopy.find_diskimage_from_data(arr)
    except errors.AtrError:
        cx.check(not zipped, "an archive of ROM images is identified")
        cx.reach("unknown")
        return
    cx.check(zipped, "data that is no archive is not taken for one")
    cx.check(mime.startswith("application/vnd.mame_rom"), "identified as a ROM set")
    check_set(cx, parser.image, members)
    cx.check(cx.eq(parser.segments[0].data[:], raw), "the container segment is the archive")
    cx.check(len(parser.segments) == 1 + len(members), "segments of the parser")
    cx.check(cx.eq(arr, raw), "the archive is left alone")
    cx.reach("identified")


def real(cx, how):
    """The real zip reader on fixed archives: whole, cut short, damaged."""
    import atrcopy
    from atrcopy import errors
    data = [bytes((i * i + k) & 255 for i in range(256)) for k in range(2)]
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED if how == "deflated" else zipfile.ZIP_STORED) as z:
        for k, d in enumerate(data):
            z.writestr("r%d" % k, d)
    b = list(f.getvalue())
    at = bytes(b).index(b"PK\1\2")
    what = cx.choose("what", ["whole", "cut", "start", "damage", "encrypted", "method"])
    if what == "cut":
        b = b[:cx.choose("cut", [10, at, at + 20, len(b) - 1])]
    elif what == "start":
        b = b[cx.choose("start", [1, 30, at]):]
    elif what == "damage":
        i = cx.choose("at", [0, 40, 100, at, at + 24, at + 42, len(b) - 4])
        b[i] ^= 0xff
    elif what == "encrypted":
        b[6] |= 1
        b[at + 8] |= 1
    elif what == "method":
        b[8] = b[at + 10] = 99
    try:
        parser, mime = atrcopy.find_diskimage_from_data(cx.mkarray(b))
    except errors.AtrError:
        cx.check(what != "whole", "a whole archive is opened")
        cx.reach("library refused")
        return
    if what == "whole":
        cx.check(mime.startswith("application/vnd.mame_rom"), "identified as a ROM set")
        cx.check(cx.eq(parser.image.rawdata.data[:], list(data[0] + data[1])), "bytes of the members")
        cx.reach("library opened")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    add("small", "direct", 3, sizes=[[], [0], [16], [16, 16], [32, 16], [16, 0, 16], [48, 16, 32]], free=64)
    add("sizes", "direct", 3, sizes=[[k] for k in range(1, 20)] + [[16, k] for k in (1, 2, 4, 8, 15, 17, 24, 32)] + [[k, 16] for k in (1, 8, 17)] + [[16, 8, 8], [8, 8]])
    add("large", "direct", 4, sizes=[[256], [4096, 2048], [2048, 4096, 2048], [0x8000, 0x8000, 16], [0x10000 + 16, 32]])
    add("many", "direct", 3, sizes=[[16 * (k % 3 + 1) for k in range(n)] for n in (9, 20) + ((200,) if T else ())])
    add("names", "direct", 4, sizes=[[16, 16], [16, 32, 16], [0, 16, 16, 32]], free=16, names=sorted(NAMES))
    for where in ("archive", "open", "read"):
        add("broken-" + where, "broken", 3, sizes=[16, 32, 16], where=where, n=6)
    add("identify", "through", 4, sizes=[32, 16], zipped=True, n=40)
    add("identify-one", "through", 4, sizes=[256], zipped=True, n=25)
    add("identify-none", "through", 4, sizes=[16], zipped=False, n=40)
    add("real-deflated", "real", 3, how="deflated")
    add("real-stored", "real", 3, how="stored")
    return out


def REACH(tier):
    return ["opened", "refused", "damaged", "identified", "unknown", "library opened", "library refused"]


BOUNDS = {
    "quick": "archives of 0 to 20 members of 0 to 65552 bytes (arbitrary bytes; longer than 64 bytes: three arbitrary bytes each), every size modulo 16, names distinct or equal, in folders, of folders and out of order, arbitrary checksums and packed sizes; the zip reader fails in any of eight ways on opening the archive, or opening or reading any of three members; fixed real archives cut, damaged, encrypted or with an unknown method.",
    "thorough": "200 members.",
}
OUTSIDE = "the zip reader and the decompressors (library code; run only on fixed samples); arbitrary member names"
ASSUMPTIONS = ["the zip reader gives exactly as many bytes for a member as its size says, or fails"]
