"""A saved session of an opened image, restored over the image read again."""
import numpy as np

from . import fs as F
from .c25 import Sparta
from .c18 import saved


def le(v):
    return [v & 255, v >> 8]


def plain(v):
    """numpy numbers are saved as numbers."""
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def exe(cx, tag, lens):
    b = [255, 255]
    for k, n in enumerate(lens):
        a = cx.choose("%sa%d" % (tag, k), [0x2000 + 0x400 * k, 0xff00])
        b += le(a) + le(a + n - 1) + cx.bytelist("%sd%d" % (tag, k), n)
    return b


def make(cx, kind):
    """(bytes of the file, parser class)"""
    from atrcopy import parsers as P
    what, _, geo = kind.partition("-")
    if what in ("frag", "empty", "exe", "void", "bad"):
        d = F.populate(cx, geo, what if what in ("frag", "empty") else "empty")
        n = d.fs.payload
        if what == "exe":
            d.add(0, "ONE.DAT", [12, 10], cx.bytelist("one", n + 5))
            x = exe(cx, "x", [n - 8, 5, n + 20])
            d.add(1, "RUN.XEX", [30, 9, 20, 511][:(len(x) + n - 1) // n], x)
            d.add(2, "LAST", [700], cx.bytelist("last", 3))
        elif what == "void":
            d.add(0, "VOID", [12], [])
            d.add(1, "FULL", [11], cx.bytelist("one", n))
        elif what == "bad":
            # a file whose chain leads out of the disk, between good ones
            d.add(0, "ONE.DAT", [12], cx.bytelist("one", 5))
            d.add(1, "BAD.DAT", [14, 15], cx.bytelist("bad", n + 1))
            d.add(2, "LAST", [17], cx.bytelist("last", 3))
            p, k = d.fs.pos(14)
            d.img[p + k - 3:p + k - 1] = [1 << 2 | 3, 0xff]
        for s in d.files:
            if d.fs.kind == "atari" and d.files[s][2] and d.files[s][0] != "RUN.XEX":
                cx.assume(d.files[s][2][0] != 255)
        d.fs.fix_count(cx, d.img)
        return d.img, P.Dos33SegmentParser if d.fs.kind == "apple" else P.AtariDosSegmentParser
    if what == "sparta":
        d = Sparta(cx, geo)
        d.map([7], [40, 31])
        d.put(40, cx.bytelist("f", 4))
        d.put(31, cx.bytelist("g", 2))
        d.directory([d.entry(0x08, 7, d.ss + 2, F.asc("FILE"), F.asc("TXT"))], [d.root], [6])
        return d.img, P.SpartaDosSegmentParser
    if what == "boot":
        fs = F.AtariFS(geo)
        img = fs.blank(cx)
        h = fs.header
        img[h:h + 8] = cx.mkarray([0, 2, 0, 7] + cx.bytelist("b", 4))
        return img, P.AtariBootDiskSegmentParser
    if what == "disk":
        fs = F.AtariFS(geo)
        img = fs.blank(cx)
        img[fs.header + 5] = cx.byte("b")
        return img, P.AtariUnidentifiedSegmentParser
    if what == "kboot":
        from atrcopy.segments import SegmentList
        from atrcopy.kboot import KBootImage
        segs = SegmentList()
        segs.add_segment(cx.mkarray(cx.bytelist("d", 9)), 0x2000)
        return KBootImage.create_boot_image(segs, 0x2003).bytes.copy(), P.KBootSegmentParser
    if what == "xex":
        b = exe(cx, "x", [3, 1, 4])
        if geo == "short":
            b = b[:-2]
        elif geo == "run":
            b += le(0x2e0) + le(0x2e1) + cx.bytelist("r", 2)
        return cx.mkarray(b), P.XexSegmentParser
    if what == "bin":
        return cx.mkarray(le(0x2000) + le(6) + cx.bytelist("d", 6)), P.Dos33BinSegmentParser
    if what == "raw":
        return cx.mkarray(cx.bytelist("d", 12)), P.DefaultSegmentParser
    if what == "rom":
        img = np.zeros(2048, dtype=np.uint8)
        for i in (0, 1000, 2047):
            img[i] = cx.byte("c%d" % i)
        return img, P.RomParser
    if what == "cart":
        ctype, kb = {"8": (1, 8), "16": (3, 16), "32": (12, 32), "5200": (4, 32)}[geo]
        size = kb * 1024
        img = np.zeros(16 + size, dtype=np.uint8)
        img[0:8] = cx.mkarray(F.asc("CART") + [0, 0, 0, ctype])
        for i in list(range(8, 20)) + [16 + size // 2, size + 15, size + 10]:
            img[i] = cx.byte("c%d" % i)

        class CartParser(P.AtariCartSegmentParser):
            image_type = P.Atari5200CartImage if geo == "5200" else P.Atari8bitCartImage
            cart_type = ctype
        return img, CartParser
    raise ValueError(kind)


def reload(cx, p, raw):
    """What jsonpickle does: every object is made again from its description."""
    state = p.__getstate__()
    cx.check(isinstance(state, dict) and "segments" in state, "the description has the segments")
    new = {}
    for k, v in state.items():
        if k == "segments":
            new[k] = []
            for s in v:
                o = s.__class__.__new__(s.__class__)
                o.__setstate__(saved(cx, plain(s.__getstate__())))
                new[k].append(o)
        else:
            new[k] = saved(cx, v)
    q = p.__class__.__new__(p.__class__)
    q.__setstate__(new)
    q.reconstruct_segments(raw)
    return q


def positions(n):
    return sorted(set(i for i in [0, 1, 2, n // 3, n // 2, n - 2, n - 1] + list(range(0, n, max(1, n // 25))) if 0 <= i < n))


def same(cx, a, b, img):
    cx.check(type(a) is type(b), "kind of segment")
    for k in ("name", "verbose_name", "origin", "error", "uuid"):
        cx.check(cx.eq(getattr(a, k), getattr(b, k)) if isinstance(getattr(a, k), str) else getattr(a, k) == getattr(b, k), "%s of a segment" % k)
    for k in a.extra_serializable_attributes:
        cx.check(getattr(a, k) == getattr(b, k), "attribute of a segment", k)
    cx.check(len(a) == len(b), "length of a segment", "%s: %d, %d" % (a.name, len(a), len(b)))
    for i in positions(len(a)):
        r = a.get_raw_index(i)
        cx.check(r == b.get_raw_index(i), "place of a byte in the image")
        if type(a).__name__ != "EmptySegment":
            cx.check(cx.plain(b.data[i]) == cx.plain(img[cx.concrete(r)]), "byte of a restored segment")
    for k in ("map_width", "page_size", "can_resize"):
        cx.check(getattr(a, k) == getattr(b, k), "attribute of a segment", k)
    for i in sorted(set(i for i in (0, 1, 130, len(a) // 2, len(a) - 1) if 0 <= i < len(a))):
        cx.check(cx.eq(a.label(i), b.label(i)), "label of a byte")


def session(cx, kind, twice=False, strict=False):
    from atrcopy.segments import SegmentData
    img, cls = make(cx, kind)
    p = cls(SegmentData(img), strict)
    orig = cx.snapshot(img)
    raw = SegmentData(img.copy())
    q = reload(cx, p, raw)
    if twice:
        q = reload(cx, q, raw)
        cx.reach("saved twice")
    cx.check(len(p.segments) == len(q.segments), "number of segments")
    cx.check(q.strict == strict, "strictness")
    cx.check(q.segment_data is raw, "the image restored over")
    if kind.startswith("bad"):
        cx.check(any(s.error for s in p.segments), "a file that cannot be read has an error")
        cx.reach("error")
    for a, b in zip(p.segments, q.segments):
        same(cx, a, b, img)
    cx.check(cx.same_except(raw.data, orig, []), "restoring changes nothing")
    if cls.__name__ != "DefaultSegmentParser":
        cx.check(type(q.image) is type(p.image), "kind of image")
        if hasattr(p.image, "bytes"):
            cx.check(cx.same_except(q.image.bytes, orig, []), "the image behind the session")
        cx.check(len(q.image.files) == len(p.image.files) if hasattr(p.image, "files") else True, "files of the image")
    cx.reach("restored")


def live(cx, kind):
    """The restored segments are views of the new image, not of the old."""
    from atrcopy.segments import SegmentData
    img, cls = make(cx, kind)
    p = cls(SegmentData(img))
    orig = cx.snapshot(img)
    new = img.copy()
    q = reload(cx, p, SegmentData(new))
    k = cx.choose("segment", [i for i, s in enumerate(q.segments) if len(s) and type(s).__name__ != "EmptySegment"])
    seg = q.segments[k]
    i = cx.choose("byte", sorted(set([0, len(seg) // 2, len(seg) - 1])))
    at = cx.concrete(p.segments[k].get_raw_index(i))
    v = cx.byte("v")
    seg.data[i] = v
    cx.check(cx.plain(new[at]) == v, "the byte of the new image changes")
    cx.check(cx.same_except(new, orig, [at]), "no other byte of the new image changes")
    cx.check(cx.same_except(img, orig, []), "the old image is left alone")
    if hasattr(q.image, "bytes"):
        cx.check(cx.plain(q.image.bytes[at]) == v, "the image of the session has the byte")
    cx.reach("written")


def marks(cx, kind):
    """Comments and markings put on a segment are on it after a restart."""
    from atrcopy.segments import SegmentData
    img, cls = make(cx, kind)
    p = cls(SegmentData(img))
    k = cx.choose("segment", [i for i, s in enumerate(p.segments) if len(s) and type(s).__name__ != "EmptySegment"])
    seg = p.segments[k]
    i = cx.choose("byte", sorted(set([0, len(seg) // 2, len(seg) - 1])))
    at = cx.concrete(seg.get_raw_index(i))
    seg.set_comment_at(i, "here")
    seg.set_style_ranges([(i, i + 1)], user=3)
    e = {}
    p.segments[0].serialize_session(e)
    e = saved(cx, plain(e))
    q = reload(cx, p, SegmentData(img.copy()))
    q.segments[0].restore_session(e)
    for what in ("data", "comment"):
        cx.check([tuple(x) for x in p.segments[0].get_style_ranges(**{what: True})] == [tuple(x) for x in q.segments[0].get_style_ranges(**{what: True})], "markings of the image")
    for x in p.segments[0].rawdata.extra.comments:
        cx.check(p.segments[0].rawdata.extra.comments[x] == q.segments[0].rawdata.extra.comments[x], "comments of the image")
    s = q.segments[k]
    cx.check(s.get_comment(i) == "here", "comment of a byte")
    cx.check(sorted(c for c in p.segments[0].rawdata.extra.comments) == sorted(c for c in q.segments[0].rawdata.extra.comments), "bytes with comments")
    cx.check([tuple(x) for x in s.get_style_ranges(user=3)] == [(i, i + 1)], "marking of a byte")
    whole = q.segments[0]
    a = cx.concrete(whole.get_index_from_base_index(at))
    cx.check([tuple(x) for x in whole.get_style_ranges(user=3)] == [(a, a + 1)], "marking in the image")
    cx.reach("marked")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda label, fn, cost=2, **p: out.append({"name": label, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    disks = ["frag-sd", "frag-dos33", "exe-dd", "exe-sd", "void-sd", "bad-sd", "sparta-sd", "boot-sd", "disk-sd", "kboot"]
    if T:
        disks += ["frag-dd", "frag-ed", "frag-sdx", "exe-ed", "exe-sdx", "empty-sd", "empty-dos33", "sparta-dd", "boot-dd", "disk-dd", "empty-dd", "void-dd"]
    files = ["xex-", "xex-short", "xex-run", "bin", "raw", "rom", "cart-8", "cart-16", "cart-32", "cart-5200"]
    for k in disks + files:
        add("session-" + k, "session", kind=k, cost=6 if k in disks else 2)
        add("again-" + k, "session", kind=k, twice=True, cost=6 if k in disks else 2)
        add("live-" + k, "live", kind=k, cost=8 if k in disks else 2)
        add("marks-" + k, "marks", kind=k, cost=8 if k in disks else 2)
    return out


def REACH(tier):
    return ["restored", "saved twice", "written", "marked", "error"]


BOUNDS = {
    "quick": "parsers of Atari DOS (fragmented files of arbitrary contents, files that are executables, a file without data, a file that cannot be read), DOS 3.3, SpartaDOS, boot, KBoot and unidentified disks, XEX (also cut short and with a run address), BSAVE, ROM, raw and cartridge files (four kinds); each saved once and twice; an arbitrary byte written, and a comment and a marking put, at the first, middle and last byte of every segment.",
    "thorough": "more geometries of every kind of disk.",
}
OUTSIDE = "jsonpickle itself: the harness makes each object again from its own description, plain values only"
ASSUMPTIONS = ["files on Atari disks other than the executable do not start with $FF", "disks populated by the reference writer in harness/fs.py"]
