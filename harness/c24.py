"""Compressed containers.  The decompressors themselves are library code and
are replaced by stand-ins that may do anything a decompressor can do: give back
arbitrary bytes or fail in any of the documented ways."""
import bz2
import gzip
import io
import lzma
import zlib

FAILS = {
    "gzip": [lambda: gzip.BadGzipFile("Not a gzipped file"), lambda: OSError("CRC check failed"), lambda: EOFError("ended before the end-of-stream marker"),
             lambda: zlib.error("Error -3 while decompressing data")],
    "bz2": [lambda: OSError("Invalid data stream"), lambda: EOFError("ended before the end-of-stream marker")],
    "lzma": [lambda: lzma.LZMAError("Input format not supported by decoder"), lambda: EOFError("ended before the end-of-stream marker")],
}


class Codec:
    """Stand-in for one decompressor: fails or yields `out`, for the data `raw`."""

    def __init__(self, cx, name, raw, out, late):
        self.cx, self.name, self.raw, self.out, self.late = cx, name, raw, out, late
        self.calls = 0

    def get(self, data):
        cx = self.cx
        self.calls += 1
        cx.check(cx.eq(cx.lst(data), self.raw), "the decompressor is given the whole data", self.name)
        if isinstance(self.out, int):
            raise FAILS[self.name][self.out]()
        return self.out

    def opened(self, *a, **k):
        f = k.get("fileobj")
        if f is None:
            f = a[0] if a and hasattr(a[0], "read") else k.get("filename")
        return Stream(self, f)

    def once(self, data, *a, **k):
        return self.cx.mkbytes(self.get(data))


class Stream:
    def __init__(self, codec, f):
        self.codec = codec
        data = f.read()
        self.at = 0
        if codec.late or not isinstance(codec.out, int):
            self.data = data
            self.buf = None
        else:
            self.buf = codec.get(data)

    def read(self, size=-1):
        if self.buf is None:
            self.buf = self.codec.get(self.data)
        if size is None or size < 0:
            size = len(self.buf)
        r = self.buf[self.at:self.at + size]
        self.at += len(r)
        return self.codec.cx.mkbytes(r)

    read1 = read

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def setup(cx, raw, outs, late):
    for name, out in outs.items():
        c = Codec(cx, name, raw, out, late)
        if name == "gzip":
            cx.stub(gzip.GzipFile, c.opened)
            cx.stub(gzip.open, c.opened)
            cx.stub(gzip.decompress, c.once)
        elif name == "bz2":
            cx.stub(bz2.BZ2File, c.opened)
            cx.stub(bz2.open, c.opened)
            cx.stub(bz2.decompress, c.once)
        else:
            cx.stub(lzma.LZMAFile, c.opened)
            cx.stub(lzma.open, c.opened)
            cx.stub(lzma.decompress, c.once)


def xex(cx, tag, n):
    a = 0x3000
    return [255, 255, a & 255, a >> 8, (a + n - 1) & 255, (a + n - 1) >> 8] + cx.bytelist(tag, n)


def opened(cx, data, how):
    """Open data the ways an application does; the bytes the parsers got."""
    import atrcopy
    from atrcopy.segments import SegmentData
    if how == "data":
        parser, mime = atrcopy.find_diskimage_from_data(data)
    elif how == "bytes":
        parser, mime = atrcopy.find_diskimage_from_data(cx.mkbytes(cx.lst(data)))
    else:
        mime, parser = atrcopy.iter_parsers(SegmentData(data))
    cx.check(parser is not None and mime == "application/vnd.atari8bit.xex", "recognised")
    got = cx.lst(parser.segments[0].data[:])
    cx.check(cx.eq(got, cx.lst(parser.image.rawdata.data[:])), "the image and its container segment have the same bytes")
    return got


def unpack(cx, codec, n, how, late):
    """Exactly one decompressor accepts the data."""
    want = xex(cx, "u", n)
    raw = cx.bytelist("raw", 10)
    outs = {}
    for c in ("gzip", "bz2", "lzma"):
        outs[c] = want if c == codec else cx.choose("fail-" + c, list(range(len(FAILS[c]))))
    setup(cx, raw, outs, late)
    arr = cx.mkarray(raw)
    got = opened(cx, arr, how)
    cx.check(cx.eq(got, want), "the image consists of exactly the unpacked bytes")
    cx.check(cx.eq(arr, raw), "the packed data is left alone")
    cx.reach("unpacked")


def plain(cx, n, how, late):
    """No decompressor accepts the data."""
    raw = xex(cx, "u", n)
    outs = {c: cx.choose("fail-" + c, list(range(len(FAILS[c])))) for c in ("gzip", "bz2", "lzma")}
    setup(cx, raw, outs, late)
    arr = cx.mkarray(raw)
    got = opened(cx, arr, how)
    cx.check(cx.eq(got, raw), "data that is no container is used as it is")
    cx.check(cx.eq(arr, raw), "the data is left alone")
    cx.reach("used as it is")


def guess(cx, n, codec, late):
    """guess_container itself, any data, any unpacked bytes."""
    from atrcopy import errors
    from atrcopy.parsers import guess_container
    raw = cx.bytelist("raw", n)
    out = cx.bytelist("out", cx.choose("len", [0, 1, 5]))
    outs = {c: out if c == codec else cx.choose("fail-" + c, list(range(len(FAILS[c])))) for c in ("gzip", "bz2", "lzma")}
    setup(cx, raw, outs, late)
    arr = cx.mkarray(raw)
    is_dcm = False
    if n >= 2:
        is_dcm = cx.and_(cx.or_(raw[0] == 0xf9, raw[0] == 0xfa), (raw[1] & 0x1f) == 1, ((raw[1] >> 5) & 3) < 3)
    try:
        c = guess_container(arr)
    except errors.UnsupportedContainer:
        cx.check(codec is None, "data that was unpacked is not reported as unsupported")
        cx.check(is_dcm, "only a recognised archive is reported as unsupported")
        cx.reach("unsupported")
        return
    if codec is not None:
        cx.check(c is not None and cx.eq(c.unpacked, out), "unpacked bytes")
        cx.check(type(c.unpacked) is type(arr), "unpacked data is an array")
        cx.reach("unpacked")
        return
    cx.check(c is None, "no container")
    cx.check(cx.not_(is_dcm), "a recognised archive is reported as unsupported")
    cx.check(cx.eq(arr, raw), "the data is left alone")
    cx.reach("no container")


def real(cx, codec, n):
    """The real decompressors on concrete data: whole, cut short, damaged."""
    data = bytes([255, 255, 0, 0x30, (n - 1) & 255, 0x30 + ((n - 1) >> 8)] + [(i * i + 7 * (i >> 8)) & 255 for i in range(n)])
    packed = {"gzip": gzip.compress, "bz2": bz2.compress, "lzma": lzma.compress}[codec](data)
    from atrcopy.parsers import guess_container
    import atrcopy
    c = guess_container(cx.mkarray(list(packed)))
    cx.check(c is not None and cx.eq(c.unpacked, list(data)), "unpacked by the library")
    cx.check(cx.eq(opened(cx, cx.mkarray(list(packed)), "data"), list(data)), "opened")
    cut = cx.choose("cut", [1, 2, 5, 9, len(packed) // 2, len(packed) - 1])
    c = guess_container(cx.mkarray(list(packed[:cut])))
    cx.check(c is None, "a truncated container is no container")
    i = cx.choose("damage", [0, 1, 2, 3, 10, 11, 12, 14, 20, len(packed) // 2, len(packed) - 9, len(packed) - 1])
    bad = list(packed)
    bad[i] = bad[i] ^ 0xff
    c = guess_container(cx.mkarray(bad))
    cx.check(c is None or cx.eq(c.unpacked, list(data)), "a damaged container is no container")
    cx.reach("library")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    for late in (False, True):
        for codec in ("gzip", "bz2", "lzma"):
            for how in ("data", "bytes", "iter"):
                add("unpack-%s-%s-%d" % (codec, how, late), "unpack", codec=codec, n=5 if not T else 40, how=how, late=late)
        for how in ("data", "bytes", "iter"):
            add("plain-%s-%d" % (how, late), "plain", n=5 if not T else 40, how=how, late=late)
        for codec in ("gzip", "bz2", "lzma", None):
            for n in (0, 1, 2, 3, 8) + ((16, 33) if T else ()):
                add("guess-%s-%d-%d" % (codec, n, late), "guess", n=n, codec=codec, late=late)
    for codec in ("gzip", "bz2", "lzma"):
        for n in (3, 300) + ((5000,) if T else ()):
            add("real-%s-%d" % (codec, n), "real", codec=codec, n=n)
    return out


def REACH(tier):
    return ["unpacked", "used as it is", "unsupported", "no container", "library"]


BOUNDS = {
    "quick": "packed data of 0 to 10 arbitrary bytes; each decompressor either gives 0, 1, 5 or 11 arbitrary bytes or fails with any of its documented exceptions, on opening or on reading; at most one decompressor accepts; opening through find_diskimage_from_data (array or bytes) and iter_parsers.",
    "thorough": "packed data up to 33 bytes, unpacked images of 46 bytes.",
}
OUTSIDE = "the decompression algorithms (library code; only run on fixed samples); data that two decompressors accept; decoding of DCM archives, which is not implemented"
ASSUMPTIONS = ["a decompressor fails only with OSError (BadGzipFile), EOFError, zlib.error (gzip), OSError, EOFError (bz2), LZMAError, EOFError (lzma)"]
