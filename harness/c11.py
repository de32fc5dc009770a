"""Atari executables built from segments."""


def le(w):
    return [w & 255, (w >> 8) & 255]


def make(cx, k, n, kind, origin=None):
    """A segment of n arbitrary bytes: (segment, bytes, origin)."""
    from atrcopy.segments import SegmentData, DefaultSegment, ObjSegment
    data = cx.bytelist("d%d_" % k, n)
    if origin is None:
        origin = cx.int("origin%d" % k, 0, 0x10000 - n)
    if kind == "plain":
        raw = SegmentData(cx.mkarray(data))
    elif kind == "slice":
        raw = SegmentData(cx.mkarray([7, 8] + data + [9]))[2:2 + n]
    elif kind == "perm":
        # all bytes of an array, in another order
        pos = [i for i in range(1, n, 2)] + [i for i in range(0, n, 2)]
        b = [None] * n
        for x, i in zip(data, pos):
            b[i] = x
        raw = SegmentData(cx.mkarray(b)).get_indexed(pos)
    else:
        # every second byte of a bigger array, backwards
        b = []
        for x in reversed(data):
            b += [99, x]
        raw = SegmentData(cx.mkarray(b)).get_indexed(list(range(2 * n - 1, 0, -2)))
    if k % 2:
        s = ObjSegment(raw, 0, 0, origin, 0, "seg%d" % k)
    else:
        s = DefaultSegment(raw, origin)
    return s, data, origin


def expected(cx, segs, run):
    out = [255, 255]
    runad = False
    for s, d, o in segs:
        if o == 0x2e0:
            runad = True
    if not runad:
        a = run if run is not None else segs[0][2]
        out += le(0x2e0) + le(0x2e1) + le(a)
    for s, d, o in segs:
        out += le(o) + le(o + len(d) - 1) + d
    return out, runad


def inside(cx, segs, run):
    return cx.any(cx.and_(run >= o, run < o + len(d)) for s, d, o in segs)


def build(cx, lens, kinds, run, origins=None, parse=1):
    from atrcopy.executables import get_xex, create_executable_file_data
    from atrcopy.ataridos import AtariDosFile, RunAddressSegment
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    n = cx.choose("n", lens)
    segs = [make(cx, k, m, kinds[k % len(kinds)], origins[k] if origins else None) for k, m in enumerate(n)]
    r = None
    if run == "any":
        r = cx.int("run", 0, 0xffff)
    elif run == "in":
        k = cx.choose("runseg", list(range(len(segs))))
        r = segs[k][2] + cx.int("runoff", 0, len(segs[k][1]) - 1)
    lst = [s for s, d, o in segs]
    before = [cx.snapshot(s.rawdata.data_base) for s in lst]
    want, runad = expected(cx, segs, r)
    try:
        main, subs = get_xex(lst, r)
    except errors.InvalidBinaryFile:
        cx.check(cx.and_(r is not None, not runad, cx.not_(inside(cx, segs, r if r is not None else 0))), "a run address inside a segment must be accepted")
        cx.reach("refused")
        return
    if r is not None and not runad:
        cx.check(inside(cx, segs, r), "a run address outside every segment must be refused")
    cx.check(len(main) == len(want), "length of the executable")
    cx.check(cx.eq(main.data[:], want), "bytes of the executable")
    cx.check(len(lst) == len(segs), "the list of segments is left alone")
    for s, b in zip(lst, before):
        cx.check(cx.same_except(s.rawdata.data_base, b, []), "the segments are left alone")
    # the returned parts are views of the executable
    at = 2
    cx.check(len(subs) == len(segs) + (0 if runad else 1), "one part per block")
    for s in subs:
        cx.check(cx.eq(s.data[:], want[at:at + len(s)]), "bytes of each part")
        cx.check(s.get_raw_index(0) == at, "position of each part")
        at += len(s)
    for s, (_, d, o) in zip(subs[0 if runad else 1:], segs):
        cx.check(cx.and_(s.origin == o, len(s) == len(d) + 4), "address of each part")
    data, ftype = create_executable_file_data(cx.choose("name", ["GAME.XEX", "xex"]), lst, r)
    cx.check(ftype == "XEX" and cx.eq(data[:], want), "executable file data")
    cx.reach("built")
    if not parse:
        return
    if any(o == 0xffff for s, d, o in segs):
        return
    f = AtariDosFile(SegmentData(cx.mkarray(want)))
    f.parse_segments()
    exp = ([] if runad else [(want[6:8], 0x2e0)]) + [(d, o) for s, d, o in segs]
    cx.check(len(f.segments) == len(exp), "number of blocks after parsing")
    for s, (d, o) in zip(f.segments, exp):
        cx.check(cx.and_(s.origin == o, cx.eq(s.data[:], d)), "parsing gives back the segments")
    if not runad:
        cx.check(f.segments[0].run_address() == (r if r is not None else segs[0][2]), "run address after parsing")
    cx.reach("parsed")


def comments(cx, n, kind):
    """Comments and styles go with the bytes."""
    from atrcopy.executables import get_xex
    a = make(cx, 0, n, kind, 0x2000)
    b = make(cx, 1, n, "plain", 0x3000)
    i = cx.concrete(cx.int("i", 0, n - 1))
    j = cx.concrete(cx.int("j", 0, n - 1))
    a[0].set_comment([(i, i + 1)], "first")
    b[0].set_comment([(j, j + 1)], "second")
    b[0].set_style_ranges([(0, 1)], data=True)
    main, subs = get_xex([a[0], b[0]])
    got = main.get_sorted_comments()
    # 2 signature, 6 run address, then 4 for each block header
    cx.check(got == [[2 + 6 + 4 + i, "first"], [2 + 6 + 4 + n + 4 + j, "second"]], "comments at their bytes")
    st = cx.lst(main.style[:])
    want = [1, 1] + [1] * 4 + [0] * 2 + [1] * 4 + [0x40 if k == i else 0 for k in range(n)] + [1] * 4 + [(0x40 if k == j else 0) | (1 if k == 0 else 0) for k in range(n)]
    cx.check(cx.eq(st, want), "styles at their bytes")
    cx.reach("comments")


def filetype(cx):
    from atrcopy.executables import create_executable_file_data
    from atrcopy import errors
    s, d, o = make(cx, 0, 3, "plain")
    name = cx.choose("name", ["a.txt", "xex.b", "", "obj", "A.COM", "bin.x", "AUTORUN.SYS"])
    try:
        create_executable_file_data(name, [s], None)
        cx.fail("unknown file types must be refused")
    except errors.UnsupportedContainer:
        cx.check(not name.lower().endswith(("xex", "bin", "bsave")), "known types are accepted")
        cx.reach("unknown type")


def image(cx, names):
    """Through a disk image: unknown extensions get the image's own format,
    and the file stored is the executable."""
    from . import fs as F
    d = F.populate(cx, "sd", "empty")
    im = d.done()
    s = make(cx, 0, 5, "plain", 0x2000)
    t = make(cx, 1, 4, "indexed", 0x2000 + 5)
    name = cx.choose("name", names)
    data, ft = im.create_executable_file_image(name, [s[0], t[0]], 0x2000)
    want, _ = expected(cx, [s, t], 0x2000)
    cx.check(ft == "XEX" and cx.eq(data[:], want), "executable for an Atari disk")
    im.write_file("RUN.XEX", ft, data)
    cx.check(cx.eq(im.find_file("RUN.XEX"), want), "executable read back from the disk")
    cx.reach("image")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p})
    one = [[n] for n in ([1, 2, 3, 4, 255, 256, 257] if not T else list(range(1, 18)) + [255, 256, 257, 1000, 4096])]
    two = [[1, 1], [2, 3], [3, 1]] + ([[4, 4], [2, 2], [1, 300], [256, 255]] if T else [[256, 2]])
    three = [[2, 1, 3]] + ([[1, 1, 1], [3, 2, 2], [1, 128, 2]] if T else [])
    for run in ("none", "any", "in"):
        for kind in ("plain", "slice", "indexed"):
            add("one-%s-%s" % (kind, run), "build", 3, lens=one, kinds=[kind], run=run)
        add("perm-%s" % run, "build", 5, lens=[[1], [2], [5], [3, 2], [2, 1, 3]], kinds=["perm", "plain"], run=run)
        add("two-%s" % run, "build", 5, lens=two, kinds=["plain", "indexed"], run=run)
        add("two-b-%s" % run, "build", 5, lens=two, kinds=["slice", "plain"], run=run)
        add("three-%s" % run, "build", 8, lens=three, kinds=["indexed", "plain", "slice"], run=run)
    add("runad", "build", 3, lens=[[2, 2], [3, 4]], kinds=["plain"], run="any", origins=[0x2000, 0x2e0])
    add("runad-first", "build", 3, lens=[[2, 2], [3, 4]], kinds=["plain"], run="any", origins=[0x2e0, 0x2000])
    add("top", "build", 3, lens=[[1], [2], [256]], kinds=["plain"], run="in")
    for k in ("plain", "slice", "indexed"):
        add("comments-%s" % k, "comments", n=4 if not T else 8, kind=k)
    add("filetype", "filetype")
    add("image", "image", names=["A.XEX", "FOO.OBJ", "NOEXT"])
    return out


def REACH(tier):
    return ["built", "parsed", "refused", "comments", "unknown type", "image"]


BOUNDS = {
    "quick": "1 segment of 7 lengths from 1 to 257, 2 segments (4 length pairs), 3 segments; every origin 0 to 65536-length, every content, every run address 0 to 65535; segments as whole arrays, slices or non-contiguous selections (of some or of all bytes); comments at every position of 4-byte segments.",
    "thorough": "1 segment of lengths 1-17 and up to 4096, 2 segments (7 pairs), 3 segments (4 triples).",
}
OUTSIDE = "empty segments and segments that extend past $ffff (not representable in the format); re-parsing when an origin is $ffff (its bytes are the signature)"
ASSUMPTIONS = ["a segment supplies the run address exactly when it starts at $02e0"]
