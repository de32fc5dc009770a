"""A disk opened as segments: every area and every file is there, in place, and
the segments are live views of the image."""
from . import fs as F
from .c10 import atari_positions


def parser(cx, d):
    from atrcopy import parsers
    from atrcopy.segments import SegmentData
    d.fs.fix_count(cx, d.img)
    p = parsers.Dos33SegmentParser if d.fs.kind == "apple" else parsers.AtariDosSegmentParser
    return p(SegmentData(d.img))


def area(fs, first, n):
    out = []
    for s in range(first, first + n):
        p, k = fs.pos(s)
        out.extend(range(p, p + k))
    return out


def filepos(d, slot):
    fs = d.fs
    name, secs, data, flag = d.files[slot]
    if fs.kind == "atari":
        lens, left = [], len(data)
        for s in secs:
            lens.append(min(fs.payload, left))
            left -= lens[-1]
        return atari_positions(fs, secs, lens)
    out = []
    for s in secs[fs.nts(len(secs)):]:
        out.extend(range(s * 256, s * 256 + 256))
    return out


def expected(d):
    """(what, positions) of everything that must be shown."""
    fs = d.fs
    out = [("the whole image", list(range(fs.size)))]
    if fs.kind == "atari":
        if fs.header:
            out.append(("the header", list(range(fs.header))))
            out.append(("all sectors", list(range(fs.header, fs.size))))
        out.append(("the allocation map", area(fs, 360, 1)))
        out.append(("the directory", area(fs, 361, 8)))
    else:
        out.append(("the boot sector", area(fs, 0, 1)))
        out.append(("the allocation map", area(fs, 272, 1)))
        cat = []
        for s in range(287, 287 - getattr(fs, "ncat", 15), -1):
            cat.extend(area(fs, s, 1))
        out.append(("the catalog", cat))
    return out


def shows(cx, seg, pos):
    n = len(pos)
    if len(seg) != n or n == 0:
        return n == len(seg)
    at = sorted(set([0, 1, n // 3, n // 2, n - 2, n - 1] + list(range(0, n, max(1, n // 40)))))
    return all(cx.concrete(seg.get_raw_index(i)) == pos[i] for i in at if 0 <= i < n)


def find(cx, p, pos, what):
    for seg in p.segments:
        if shows(cx, seg, pos):
            return seg
    cx.fail("a segment shows " + what)


def areas(cx, geo, pre):
    d = F.populate(cx, geo, "empty" if pre in ("big", "void") else pre)
    if pre == "void":
        # files without any data between others
        for k, (name, n) in enumerate([("ONE.X", 5), ("VOID.Y", 0), ("TWO", 9), ("VOID2", 0)]):
            d.add(k, name, [20 + k], cx.bytelist("v%d" % k, n))
    elif pre == "big":
        # one file in all but a few sectors
        use = [s for s in d.fs.usable() if s != 99]
        n = d.fs.payload
        k = len(use) - (d.fs.nts(len(use)) if d.fs.kind == "apple" else 0)
        data = [(i * 7 + i // 251) & 127 for i in range(k * n - 3)]
        data[-2:] = cx.bytelist("e", 2)
        d.add(0, "BIG", use, data)
    first = [d.files[s][2][0] for s in d.files if d.fs.kind == "atari" and len(d.files[s][2])]
    for c in first:
        cx.assume(cx.or_(c != 255))
    p = parser(cx, d)
    before = cx.snapshot(d.img)
    for what, pos in expected(d):
        seg = find(cx, p, pos, what)
        cx.check(cx.eq(seg.data[:], before[pos[0]:pos[-1] + 1] if pos[-1] - pos[0] == len(pos) - 1 else cx.mkbytes([cx.plain(before[i]) for i in pos])), "bytes of the segment of an area", what)
    # one segment for each file, in directory order, after the directory
    at = 0
    for slot in sorted(d.files):
        pos = filepos(d, slot)
        while at < len(p.segments) and not (shows(cx, p.segments[at], pos) and (len(pos) or d.files[slot][0] in p.segments[at].name)):
            at += 1
        cx.check(at < len(p.segments), "a segment for each file, in directory order", d.files[slot][0])
        seg = p.segments[at]
        cx.check(d.files[slot][0] in seg.name, "the segment is named after the file", seg.name)
        cx.check(cx.eq(seg.tobytes(), d.contents(slot)), "bytes of the segment of a file")
        at += 1
    cx.check(cx.same_except(p.image.bytes, before, []), "the image is unchanged")
    cx.reach("areas")


def live(cx, geo, which):
    """Writing through a segment changes exactly that byte of the image."""
    d = F.populate(cx, geo, "frag")
    if d.fs.kind == "atari":
        for s in d.files:
            cx.assume(d.files[s][2][0] != 255)
    p = parser(cx, d)
    if which == "file":
        slot = cx.choose("slot", sorted(d.files))
        pos = filepos(d, slot)
        what = d.files[slot][0]
    else:
        what, pos = [e for e in expected(d) if e[0].endswith(which)][0]
        slot = None
    seg = find(cx, p, pos, what)
    before = cx.snapshot(p.image.bytes)
    n = len(pos)
    i = cx.choose("i", sorted(set([0, 1, n // 2, n - 1, min(n - 1, 124), min(n - 1, 125), min(n - 1, 126), min(n - 1, 256)])))
    v = cx.byte("v")
    seg.data[i] = v
    after = p.image.bytes
    cx.check(cx.same_except(after, before, [pos[i]]), "no other byte of the image changes")
    cx.check(cx.plain(after[pos[i]]) == v, "the byte of the image changes")
    if slot is not None:
        want = cx.lst(d.contents(slot))
        want[i] = v
        cx.check(cx.eq(p.image.find_file(d.files[slot][0]), cx.mkbytes(want)), "the file has the byte written")
        for k in d.files:
            if k != slot:
                cx.check(cx.eq(p.image.find_file(d.files[k][0]), d.contents(k)), "other files unharmed")
    cx.reach("live " + ("file" if slot is not None else "area"))


def labels(cx, geo):
    """The label of a byte of the sectors names its sector and offset."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    p = parser(cx, d)
    seg = None
    for s in p.segments:
        if hasattr(s, "num_boot_sectors") and len(s) == fs.size - getattr(fs, "header", 0):
            seg = s
    cx.check(seg is not None, "a segment shows all sectors")
    top = fs.nsec if fs.kind == "atari" else 559
    low = 1 if fs.kind == "atari" else 0
    sec = cx.choose("sector", [low, low + 1, 2, 3, 4, 5, 16, 255, 256, 360, top - 1, top])
    pos, size = fs.pos(sec)
    off = cx.int("off", 0, size - 1)
    for lower in (True, False):
        text = seg.label(pos - getattr(fs, "header", 0) + off, lower)
        fmt = "%02x" if lower else "%02X"
        want = ("s%03d:" % sec if fs.kind == "atari" else "t%02ds%02d:" % divmod(sec, 16))
        cx.check(text.startswith(want), "the label names the sector", str(text))
        cx.check(cx.any(cx.and_(off == k, text == want + fmt % k) for k in range(size)), "the label names the byte")
    cx.reach("labels")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda label, fn, cost=2, **p: out.append({"name": label, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    for geo in ["sd", "ed", "dd", "dd2", "sdx", "dos33"] + (["ddx", "edx", "dd2x"] if T else []):
        for pre in ("frag", "empty", "full:20", "big") + (() if geo == "dos33" else ("void",)):
            add("areas-%s-%s" % (geo, pre), "areas", geo=geo, pre=pre)
        for which in ("file", "map", "catalog" if geo == "dos33" else "directory", "whole image"):
            add("live-%s-%s" % (geo, which), "live", geo=geo, which=which)
        add("labels-%s" % geo, "labels", geo=geo)
    return out


def REACH(tier):
    return ["areas", "live file", "live area", "labels"]


BOUNDS = {
    "quick": "six geometries; disks empty, with 5 fragmented files of arbitrary contents, with 20 files, with files without data between others and with one file filling nearly the whole disk; arbitrary values written at boundary positions of every kind of segment; labels of 12 sectors with arbitrary offsets.",
    "thorough": "nine geometries.",
}
OUTSIDE = "the boot segments of Atari DOS disks; executables in files are not split further by the code; catalog chains with loops"
ASSUMPTIONS = ["files on Atari disks do not start with $FF (they would be probed as executables)", "disk populated by the reference writer in harness/fs.py"]
