"""Sector numbers map one-to-one onto the bytes of the image."""
from . import fs as F

GEOS = ["sd", "ed", "dd", "dd2", "sdx", "edx", "ddx", "dd2x", "dos33"]


def spec(fs):
    """(first sector, number of sectors, header, short boot sectors, sector size)"""
    if fs.kind == "apple":
        return 0, 560, 0, 0, 256
    return 1, fs.nsec, fs.header, fs.nboot, fs.ss


def opened(cx, geo):
    fs = F.make(geo)
    img = fs.blank(cx)
    return fs, fs.open(img)


def where(cx, sp, s):
    first, count, head, nboot, ss = sp
    i = s - first
    if nboot == 0:
        return head + i * ss, ss
    short = i < nboot
    return cx.ite(short, head + i * 128, head + nboot * 128 + (i - nboot) * ss), cx.ite(short, 128, ss)


def position(cx, geo, lo, hi):
    from atrcopy import errors
    fs, image = opened(cx, geo)
    sp = spec(fs)
    first, count = sp[0], sp[1]
    cx.check(image.header.starting_sector_label == first and image.header.max_sectors == count, "number of sectors of the geometry")
    s = cx.int("s", lo, hi)
    good = cx.and_(s >= first, s < first + count)
    cx.check(cx.iff(image.header.sector_is_valid(s), good), "valid sector numbers")
    try:
        pos, size = image.header.get_pos(s)
    except errors.ByteNotInFile166:
        cx.check(cx.not_(good), "valid sector refused")
        cx.reach("refused")
        try:
            image.assert_valid_sector(s)
            cx.fail("invalid sector must be refused")
        except errors.ByteNotInFile166:
            pass
        return
    cx.check(good, "invalid sector accepted")
    p, n = where(cx, sp, s)
    cx.check(cx.and_(pos == p, size == n), "sector denotes its own byte range")
    cx.check(cx.and_(pos >= len(image.header), pos + size <= fs.size), "sector lies inside the image")
    image.assert_valid_sector(s)
    cx.reach("valid")


def partition(cx, geo):
    """Any two different sectors are disjoint; neighbours touch; first and
    last meet the ends of the image."""
    fs, image = opened(cx, geo)
    first, count, head, nboot, ss = spec(fs)
    get = image.header.get_pos
    a = cx.int("a", first, first + count - 1)
    b = cx.int("b", first, first + count - 1)
    pa, na = get(a)
    pb, nb = get(b)
    cx.check(cx.implies(a < b, pa + na <= pb), "different sectors do not overlap")
    cx.check(cx.implies(b == a + 1, pa + na == pb), "no gap between neighbouring sectors")
    cx.check(cx.implies(a == first, pa == head), "first sector at the start")
    cx.check(cx.implies(a == first + count - 1, pa + na == fs.size), "last sector ends the image")
    cx.reach("pair")


def sweep(cx, geo):
    fs, image = opened(cx, geo)
    first, count, head, nboot, ss = spec(fs)
    got = [(i, int(p), int(n)) for i, p, n in image.header.iter_sectors()]
    want = [(s,) + fs.pos(s) for s in range(first, first + count)]
    cx.check(got == want, "all sectors in order")


def anysize(cx, ss):
    """ATR images of any size: whole sectors of the declared size."""
    from atrcopy.ataridos import AtrHeader
    from atrcopy import errors
    h = AtrHeader(cx.mkarray([0x96, 2, 0, 0, ss & 255, ss >> 8] + [0] * 10))
    size = cx.int("size", 0, 1 << 24)
    for n in (92160, 92176, 184320, 184336, 183936, 183952):
        cx.assume(size != n)
    h.check_size(size)
    n = h.max_sectors
    cx.check(cx.and_(n * ss <= size, size < (n + 1) * ss), "as many sectors as the image holds")
    s = cx.int("s", -3, 1 << 18)
    good = cx.and_(s >= 1, s * ss <= size)
    try:
        pos, m = h.get_pos(s)
    except errors.ByteNotInFile166:
        cx.check(cx.not_(good), "valid sector refused")
        cx.reach("refused")
        return
    cx.check(good, "invalid sector accepted")
    cx.check(cx.and_(pos == 16 + (s - 1) * ss, m == ss), "sector denotes its own byte range")


def contents(cx, geo, secs):
    """Reading returns exactly the bytes of the sector, for every byte."""
    fs = F.make(geo)
    img = fs.blank(cx)
    s = cx.choose("s", secs)
    p, n = fs.pos(s)
    body = cx.bytelist("b", n)
    if p == 0 and fs.kind == "atari":
        # a raw disk that begins like an ATR header is taken for one
        cx.assume(cx.not_(cx.and_(body[0] == 0x96, body[1] == 2)))
    img[p:p + n] = cx.mkarray(body)
    image = fs.open(img)
    data, style = image.get_sectors(s)
    cx.check(cx.eq(data, body), "sector contents")
    cx.check(len(style) == n, "style of the sector")
    raw, pos, size = image.get_raw_bytes(s)
    cx.check(cx.eq(raw, body) and pos == p and size == n, "raw sector contents")
    k = cx.choose("k", [0, 1, 2, 5])
    last = fs.nsec if fs.kind == "atari" else 559
    if s + k <= last:
        end = fs.pos(s + k)
        data, style = image.get_sectors(s, s + k)
        cx.check(len(data) == end[0] + end[1] - p and cx.eq(data[0:n], body), "consecutive sectors")
        start, count = image.get_contiguous_sectors(s, k + 1)
        cx.check(start == p and count == end[0] + end[1] - p, "byte range of consecutive sectors")
        cx.reach("range")
    else:
        from atrcopy import errors
        for f in (lambda: image.get_sectors(s, s + k), lambda: image.get_contiguous_sectors(s, k + 1)):
            try:
                f()
                cx.fail("range past the last sector must be refused")
            except errors.ByteNotInFile166:
                cx.reach("range refused")


def stored(cx, geo, secs):
    """Writing a sector changes exactly the bytes of the sector."""
    fs = F.make(geo)
    img = fs.blank(cx, 0x5a if geo == "sd" else 0)
    image = fs.open(img)
    before = cx.snapshot(image.bytes)
    s = cx.choose("s", secs)
    p, n = fs.pos(s)
    body = cx.bytelist("b", n)
    from atrcopy.utils import WriteableSector, BaseSectorList
    l = BaseSectorList(image.header)
    w = WriteableSector(n, cx.mkarray(body), s)
    l.append(w)
    image.write_sector_list(l)
    cx.check(cx.eq(image.bytes[p:p + n], body), "sector stored in its byte range")
    cx.check(cx.same_except(image.bytes, before, range(p, p + n)), "no other byte changed")


def tracks(cx):
    fs, image = opened(cx, "dos33")
    h = image.header
    s = cx.int("s", 0, 559)
    t, k = h.track_from_sector(s)
    cx.check(cx.and_(t * 16 + k == s, k >= 0, k < 16, t < 35), "track and sector of a sector number")
    cx.check(h.sector_from_track(t, k) == s, "sector number of its track and sector")
    a, b = cx.int("t", 0, 34), cx.int("k", 0, 15)
    n = h.sector_from_track(a, b)
    cx.check(n == a * 16 + b, "sector number of a track and sector")
    c, d = h.track_from_sector(n)
    cx.check(cx.and_(a == c, b == d), "track and sector of it")


def labels(cx, geo, lower):
    """The label of every raw byte names the sector and offset it belongs to."""
    fs, image = opened(cx, geo)
    first, count, head, nboot, ss = spec(fs)
    image.parse_segments()
    want = {"Raw disk sectors": (first, count)}
    if fs.kind == "atari":
        want["VTOC"] = (360, 1)
        want["Directory"] = (361, 8)
        if fs.image_size == 133120:
            want["VTOC2"] = (1024, 1)
    else:
        want["VTOC"] = (272, 1)
    which = cx.choose("segment", sorted(want))
    segs = [s for s in image.segments if s.name == which]
    cx.check(len(segs) == 1, "segment listed once")
    seg = segs[0]
    a, n = want[which]
    p0 = fs.pos(a)[0]
    end = fs.pos(a + n - 1)
    cx.check(len(seg) == end[0] + end[1] - p0 and int(seg.get_raw_index(0)) == p0, "segment covers its sectors")
    s = cx.int("s", a, a + n - 1)
    pos, size = where(cx, spec(fs), s)
    off = cx.int("off", 0, 255)
    cx.assume(off < size)
    got = seg.label(pos - p0 + off, lower)
    x = "%02x" if lower else "%02X"
    if fs.kind == "atari":
        cx.check(cx.eq(got, cx.fmt("s%03d:" + x, s, off)), "label names the byte's sector and offset")
    else:
        cx.check(cx.eq(got, cx.fmt("t%02ds%02d:" + x, s >> 4, s & 15, off)), "label names the byte's track, sector and offset")
    cx.reach("label " + which)


def anylabel(cx, tracks, ss, nboot, bs):
    """A run of raw sectors that begins anywhere."""
    import numpy as np
    from atrcopy import segments as S
    n = 6
    size = nboot * bs + (n - nboot) * ss
    first = cx.int("first", 0, 900)
    cls = S.RawTrackSectorSegment if tracks else S.RawSectorsSegment
    seg = cls(S.SegmentData(np.zeros(size, dtype=np.uint8)), first, n, size, bs, nboot, ss)
    k = cx.int("k", 0, n - 1)
    size = cx.ite(k < nboot, bs, ss)
    off = cx.int("off", 0, max(bs, ss) - 1)
    cx.assume(off < size)
    pos = cx.ite(k < nboot, k * bs, nboot * bs + (k - nboot) * ss) + off
    s = first + k
    for lower in (True, False):
        x = "%02x" if lower else "%02X"
        want = cx.fmt("t%02ds%02d:" + x, s >> 4, s & 15, off) if tracks else cx.fmt("s%03d:" + x, s, off)
        cx.check(cx.eq(seg.label(pos, lower), want), "label names the byte's sector and offset")
    cx.reach("any label")


def cases(tier):
    T = tier == "thorough"
    out = []
    for geo in GEOS:
        out.append({"name": "position-%s" % geo, "fn": "position", "params": {"geo": geo, "lo": -70000, "hi": 70000}})
        out.append({"name": "partition-%s" % geo, "fn": "partition", "params": {"geo": geo}})
        out.append({"name": "sweep-%s" % geo, "fn": "sweep", "params": {"geo": geo}})
        for low in (True, False):
            out.append({"name": "labels-%s-%d" % (geo, low), "fn": "labels", "params": {"geo": geo, "lower": low}})
        fs = F.make(geo)
        last = fs.nsec if fs.kind == "atari" else 559
        secs = [1, 2, 3, 4, 5, 100, 359, 369, 719, 720, last - 2, last] if fs.kind == "atari" else [1, 15, 16, 200, 271, 288, 558, 559]
        out.append({"name": "contents-%s" % geo, "fn": "contents", "params": {"geo": geo, "secs": sorted(set(secs))}})
        out.append({"name": "stored-%s" % geo, "fn": "stored", "params": {"geo": geo, "secs": sorted(set(secs))}})
    for ss in (128, 256) + ((512,) if T else ()):
        out.append({"name": "anysize-%d" % ss, "fn": "anysize", "params": {"ss": ss}})
    for tr in (False, True):
        for ss, nboot, bs in ((128, 0, 0), (256, 0, 256), (256, 3, 128), (128, 1, 384)):
            out.append({"name": "anylabel-%d-%d-%d" % (tr, ss, nboot), "fn": "anylabel", "params": {"tracks": tr, "ss": ss, "nboot": nboot, "bs": bs}})
    out.append({"name": "tracks", "fn": "tracks", "params": {}})
    return out


def REACH(tier):
    return ["valid", "refused", "pair", "range", "range refused", "label Raw disk sectors", "label VTOC", "label Directory", "label VTOC2", "any label"]


BOUNDS = {
    "quick": "all 8 Atari geometries (SD, ED, DD with short and long boot sectors, with and without ATR header) and DOS 3.3; every sector number in [-70000, 70000]; every pair of sectors; every byte offset; ATR images of any other size up to 16 MB with 128 or 256 byte sectors; labels of runs of 6 raw sectors that begin at any number up to 900, with and without boot sectors of another size.",
    "thorough": "as quick, also 512-byte sectors.",
}
OUTSIDE = "VTOC overrides of the number of DOS 3.3 tracks; ATR images of unusual size whose first three sectors are short"
ASSUMPTIONS = []
