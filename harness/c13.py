"""Apple binary (BSAVE) files."""
from .c11 import make, inside


def le(w):
    return [w & 255, (w >> 8) & 255]


def build(cx, lens, gaps, kinds, run, base=None):
    """Segments at arbitrary addresses with the given distances."""
    from atrcopy.executables import get_bsave, create_executable_file_data
    from atrcopy.dos33 import Dos33BinFile
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    n = cx.choose("n", lens)
    gap = cx.choose("gap", gaps)
    offs = [0]
    for k in range(1, len(n)):
        offs.append(offs[-1] + gap[k - 1])
    lo = -min(offs)
    top = max(o + m for o, m in zip(offs, n))
    o0 = cx.int("base", lo + 3, 0x10000 - top) if base is None else base
    segs = []
    for k, m in enumerate(n):
        segs.append(make(cx, k, m, kinds[k % len(kinds)], o0 + offs[k]))
    start = min(offs)
    mem = {}
    for o, (s, d, _) in zip(offs, segs):
        for i, v in enumerate(d):
            mem[o - start + i] = v
    size = top - start
    image = [mem.get(i, 0) for i in range(size)]
    r = None
    if run == "any":
        r = cx.int("run", 0, 0xffff)
    elif run == "in":
        k = cx.choose("runseg", list(range(len(segs))))
        r = segs[k][2] + cx.int("runoff", 0, len(segs[k][1]) - 1)
    origin = o0 + start
    jump = False
    if r is not None and r != origin:
        jump = True
    want = image
    if jump:
        want = [0x4c] + le(r) + image
        origin = origin - 3
    want = le(origin) + le(len(want)) + want
    lst = [s for s, d, o in segs]
    before = [cx.snapshot(s.rawdata.data_base) for s in lst]
    try:
        data = get_bsave(lst, r)
    except errors.InvalidBinaryFile:
        cx.check(cx.and_(jump, cx.not_(inside(cx, segs, r if r is not None else 0))), "a run address inside a segment must be accepted")
        cx.reach("refused")
        return
    if jump:
        cx.check(inside(cx, segs, r), "a run address outside every segment must be refused")
        cx.reach("jump")
    cx.check(len(data) == len(want), "size of the file")
    cx.check(cx.eq(data[:], want), "bytes of the file")
    for s, b in zip(lst, before):
        cx.check(cx.same_except(s.rawdata.data_base, b, []), "the segments are left alone")
    data, ft = create_executable_file_data(cx.choose("name", ["A.BSAVE", "game.bin"]), lst, r)
    cx.check(ft == "B" and cx.eq(data[:], want), "executable file data")
    f = Dos33BinFile(SegmentData(cx.mkarray(want)))
    f.parse_segments()
    cx.check(len(f.segments) == 1 and f.segments[0].origin == origin, "load address after parsing")
    cx.check(cx.eq(f.segments[0].data[:], want[4:]), "bytes after parsing")
    cx.reach("built")


def parse(cx, sizes, kind):
    """Every byte sequence: accepted exactly if the header matches."""
    from atrcopy.dos33 import Dos33BinFile
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    n = cx.choose("size", sizes)
    b = cx.bytelist("b", n)
    if kind == "plain":
        base = cx.mkarray(b)
        raw = SegmentData(base)
        pos = list(range(n))
    else:
        x = []
        for v in reversed(b):
            x += [v, 0x55]
        base = cx.mkarray(x + [0x66])
        pos = [2 * (n - 1 - i) for i in range(n)]
        raw = SegmentData(base).get_indexed(pos)
    before = cx.snapshot(base)
    ok = n >= 4 and b[2] + 256 * b[3] == n - 4
    f = Dos33BinFile(raw)
    try:
        f.parse_segments()
    except errors.InvalidBinaryFile:
        cx.check(cx.not_(ok), "a well-formed file must be accepted")
        cx.check(cx.same_except(base, before, []), "data unchanged")
        cx.reach("not bsave")
        return
    cx.check(ok, "a file whose header does not match must be refused")
    cx.check(len(f.segments) == 1, "one segment")
    s = f.segments[0]
    cx.check(s.origin == b[0] + 256 * b[1], "load address")
    cx.check(len(s) == n - 4, "length")
    if n > 4:
        cx.check(cx.eq(s.data[:], b[4:]), "bytes")
        cx.check(s.get_raw_index(0) == pos[4] and s.get_raw_index(n - 5) == pos[n - 1], "place in the file")
    cx.check(cx.same_except(base, before, []), "data unchanged")
    cx.reach("bsave")


def saver(cx, lens, kinds):
    from atrcopy.segments import BSAVESaver, SegmentSaver
    n = cx.choose("n", lens)
    s, d, o = make(cx, 0, n, cx.choose("kind", kinds))
    got = BSAVESaver.encode_data(s, None)
    cx.check(cx.eq(got, le(o) + le(n) + d), "exported binary")
    cx.check(cx.eq(SegmentSaver.encode_data(s, None), d), "exported raw data")
    cx.reach("saver")


def long(cx, sizes):
    """Sizes that need both bytes of the length word in full."""
    from atrcopy.segments import BSAVESaver, SegmentData, DefaultSegment
    from atrcopy.executables import get_bsave
    from atrcopy.dos33 import Dos33BinFile
    n = cx.choose("n", sizes)
    o = cx.int("origin", 0, 0x10000 - n)
    d = [(i * 11 + (i >> 8)) & 255 for i in range(n)]
    for i in (0, 255, n // 2, n - 1):
        d[i] = cx.byte("d%d" % i)
    s = DefaultSegment(SegmentData(cx.mkarray(d)), o)
    want = le(o) + le(n) + d
    cx.check(cx.eq(BSAVESaver.encode_data(s, None), want), "exported long binary")
    data = get_bsave([s], None)
    cx.check(cx.eq(data[:], want), "bytes of the long file")
    f = Dos33BinFile(SegmentData(cx.mkarray(want)))
    f.parse_segments()
    cx.check(len(f.segments) == 1 and f.segments[0].origin == o, "load address of the long file")
    cx.check(cx.eq(f.segments[0].data[:], d), "bytes after parsing the long file")
    cx.reach("long")


def image(cx, names):
    """Through a DOS 3.3 disk image."""
    from . import fs as F
    d = F.populate(cx, "dos33", "empty")
    im = d.done()
    s = make(cx, 0, 300, "plain", 0x6000)
    t = make(cx, 1, 4, "indexed", 0x6200)
    name = cx.choose("name", names)
    data, ft = im.create_executable_file_image(name, [s[0], t[0]], 0x6010)
    body = [0x4c, 0x10, 0x60] + s[1] + [0] * (0x200 - 300) + t[1]
    want = le(0x5ffd) + le(len(body)) + body
    cx.check(ft == "B" and cx.eq(data[:], want), "binary for an Apple disk")
    im.write_file("GAME", ft, data)
    got = im.find_file("GAME")
    cx.check(cx.eq(got[:len(want)], want), "binary read back from the disk")
    f = im.find_dirent("GAME")
    cx.check(f.file_type == "B" and f.get_binary_start_address(im) == 0x5ffd, "type and load address on the disk")
    seg = im.get_file_segment(f)
    cx.check(seg.origin == 0x5ffd - 4, "address of the file's data")
    cx.reach("image")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p})
    for run in ("none", "any", "in"):
        for kind in ("plain", "slice", "indexed"):
            add("one-%s-%s" % (kind, run), "build", 3, lens=[[1], [2], [3], [256], [257]] + ([[1000]] if T else []), gaps=[[]], kinds=[kind], run=run)
        add("perm-%s" % run, "build", 3, lens=[[2], [5]], gaps=[[]], kinds=["perm"], run=run)
        # distances: adjacent, gap, overlapping, out of order, same place
        add("two-%s" % run, "build", 6, lens=[[3, 2]], gaps=[[3], [4], [300], [1], [2], [0], [-1], [-2], [-3], [-260]], kinds=["plain", "indexed"], run=run)
        if T:
            add("two-long-%s" % run, "build", 6, lens=[[300, 20], [5, 256]], gaps=[[300], [299], [1000], [-1], [-5], [-256], [-257]], kinds=["slice", "plain"], run=run)
        add("three-%s" % run, "build", 8, lens=[[2, 3, 1]], gaps=[[2, 3], [5, -2], [-4, 9], [1, 1]] + ([[-3, -1], [0, 0], [300, -600]] if T else []), kinds=["indexed", "plain", "slice"], run=run)
    add("parse", "parse", 4, sizes=list(range(0, 12)) + [256, 260, 261, 300], kind="plain")
    add("parse-indexed", "parse", 4, sizes=list(range(0, 8)) + [260], kind="indexed")
    add("saver", "saver", 2, lens=[1, 2, 255, 256, 300], kinds=["plain", "slice", "indexed", "perm"])
    add("long", "long", 4, sizes=[4097, 32767, 32768, 40000, 65535])
    add("image", "image", 3, names=["A.BSAVE", "FOO.OBJ", "NOEXT"])
    return out


def REACH(tier):
    return ["built", "refused", "jump", "bsave", "not bsave", "saver", "image", "long"]


BOUNDS = {
    "quick": "1 segment of 5 lengths up to 257; 2 segments at 10 distances (adjacent, gapped, overlapping, out of order); 3 segments at 4 distance pairs; every base address, content and run address; parsing: every byte sequence of 0 to 11, 256, 260, 261 and 300 bytes; single segments of 4097 to 65535 bytes (four arbitrary bytes).",
    "thorough": "more lengths (up to 1000) and distances.",
}
OUTSIDE = "memory images of 64 KiB or more and load addresses below 3 with a jump (not representable in the format)"
ASSUMPTIONS = ["where segments overlap, the later one in the list wins"]
