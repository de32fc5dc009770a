"""Interleaving segments of one file."""
from . import c16

at, put, check_view, check_index = c16.at, c16.put, c16.check_view, c16.check_index


def part(cx, raw, n, k, kind, ln):
    """One segment of the file: (segment, its positions)."""
    from atrcopy.segments import DefaultSegment
    if kind == "b":
        return DefaultSegment(raw, 0x100 * k), list(range(n))
    if kind in ("s", "o"):
        a = cx.concrete(cx.int("a%d" % k, 0, n - ln))
        seg, pos = DefaultSegment(raw[a:a + ln], 0x100 * k), list(range(a, a + ln))
        if kind == "s":
            return seg, pos
        sel = [cx.int("q%d_%d" % (k, i), 0, ln - 1) for i in range(ln)]
        return DefaultSegment(seg.rawdata.get_indexed(sel)), [at(cx, pos, i) for i in sel]
    sel = [cx.int("p%d_%d" % (k, i), 0, n - 1) for i in range(ln)]
    return DefaultSegment(raw.get_indexed(sel), 0x100 * k), sel


def expected(parts, factor):
    size = min(len(p) for p in parts)
    size -= size % factor
    out = []
    for i in range(0, size, factor):
        for p in parts:
            out.extend(p[i:i + factor])
    return out


def inter(cx, n, parts, factors, again=False):
    from atrcopy.segments import interleave_segments, interleave_indexes
    cx.gather(64)
    raw, d, s = c16.base(cx, n)
    segs, poss = [], []
    for k, (kind, ln) in enumerate(parts):
        a, p = part(cx, raw, n, k, kind, ln)
        segs.append(a)
        poss.append(p)
    f = cx.choose("factor", factors)
    want = expected(poss, f)
    new = interleave_segments(segs, f)
    cx.check(len(new) == len(want), "length")
    cx.check(cx.eq(cx.lst(interleave_indexes(segs, f)), want), "positions computed")
    check_view(cx, new.rawdata, want, d, s, "interleaved ")
    if again:
        g = cx.choose("factor2", [1, 2, 3])
        new2 = interleave_segments([new, segs[0]], g)
        want2 = expected([want, poss[0]], g)
        check_view(cx, new2.rawdata, want2, d, s, "interleaved twice ")
        new, want = new2, want2
    if not want:
        cx.reach("nothing fits")
        return
    check_index(cx, new.rawdata, want, n, "interleaved ")
    j = cx.int("j", 0, len(want) - 1)
    v, w = cx.byte("v"), cx.byte("w")
    new[j] = v
    new.style[j] = w
    d, s = put(cx, d, at(cx, want, j), v), put(cx, s, at(cx, want, j), w)
    check_view(cx, raw, list(range(n)), d, s, "the file after a change ")
    for k, (a, p) in enumerate(zip(segs, poss)):
        check_view(cx, a.rawdata, p, d, s, "segment %d after a change " % k)
    t = cx.int("t", 0, n - 1)
    raw.data[t] = w
    d = put(cx, d, t, w)
    check_view(cx, new.rawdata, want, d, s, "interleaved after a change of the file ")
    cx.check(new.rawdata.extra is raw.extra, "comments stay those of the file")
    cx.reach("interleaved")


def other(cx, n, kinds):
    """Segments of different files, or of copies, are refused."""
    from atrcopy.segments import SegmentData, DefaultSegment, interleave_segments
    cx.gather(64)
    raw, d, s = c16.base(cx, n)
    same = cx.choose("same", ["data", "style", "copy", "equal"])
    d2 = cx.mkarray(cx.bytelist("c", n))
    if same == "copy":
        raw2 = raw.copy()
    elif same == "equal":
        raw2 = SegmentData(cx.mkarray(d), cx.mkarray(s))
    elif same == "style":
        raw2 = SegmentData(d2, cx.mkarray(s))
    else:
        raw2 = SegmentData(d2, cx.mkarray(cx.bytelist("e", n)))
    segs = []
    where = cx.choose("odd", list(range(len(kinds))))
    for k, kind in enumerate(kinds):
        segs.append(part(cx, raw2 if k == where else raw, n, k, kind, 2)[0])
    try:
        interleave_segments(segs, cx.choose("factor", [1, 2]))
    except ValueError:
        check_view(cx, raw, list(range(n)), d, s, "the file after a refusal ")
        cx.reach("refused")
        return
    cx.fail("segments of different files must be refused")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    lens = [(2, 2), (3, 2), (1, 3), (4, 4), (5, 3), (0, 2), (2, 0), (4, 6)]
    if T:
        lens += [(6, 6), (2, 5), (6, 4), (3, 3)]
    for a, b in lens:
        for ka, kb in (("s", "s"), ("s", "i"), ("i", "i"), ("i", "s")):
            if not T and ka == "i" and (a, b) not in ((2, 2), (3, 2), (4, 4), (0, 2), (1, 3)):
                continue
            add("%s%d-%s%d" % (ka, a, kb, b), "inter", 3, n=8, parts=[(ka, a), (kb, b)], factors=[1, 2, 3, 5])
    add("base-s4", "inter", 3, n=6, parts=[("b", 6), ("s", 4)], factors=[1, 2, 3, 4])
    add("o2-s3", "inter", 9, n=5, parts=[("o", 2), ("s", 3)], factors=[1, 2, 3])
    add("s8-s8", "inter", 4, n=10, parts=[("s", 8), ("s", 8)], factors=[1, 2, 3, 4, 5, 8])
    add("one", "inter", 2, n=6, parts=[("i", 4)], factors=[1, 2, 3])
    add("empty-mid", "inter", 2, n=6, parts=[("s", 3), ("s", 0), ("i", 2)], factors=[1, 2])
    for k, p in enumerate([[("s", 3), ("i", 2), ("s", 4)], [("i", 2), ("i", 2), ("i", 3)], [("s", 4), ("s", 4), ("s", 4)], [("s", 2)] * 4]):
        add("many%d" % k, "inter", 6, n=5 if not T else 6, parts=p, factors=[1, 2, 3] if k == 2 else [1, 2])
    add("again-s", "inter", 5, n=6, parts=[("s", 4), ("s", 4)], factors=[1, 2, 4], again=True)
    add("again-i", "inter", 8, n=5, parts=[("i", 2), ("s", 3)], factors=[1, 2], again=True)
    for k in ["ss", "si", "is", "ii", "sss"] + (["sis", "iii"] if T else []):
        add("other-%s" % k, "other", 2, n=3, kinds=k)
    return out


def REACH(tier):
    return ["interleaved", "nothing fits", "refused"]


BOUNDS = {
    "quick": "one to four segments of 0 to 8 bytes of a file of 5 to 10 bytes with arbitrary content and styles, each any range, any selection of positions or a selection of a range; factors 1 to 8; interleaving an interleaved segment again; one write through the result or the file at any position.",
    "thorough": "more length pairs (up to 6) for ranges and selections.",
}
OUTSIDE = "factor 0 and negative factors; an empty list of segments"
ASSUMPTIONS = ["the base array owns its memory, as arrays read from files do"]
