"""Saving the description of a segment, restoring it, growing the container."""
from . import c16

at, put, chain, check_view, check_index = c16.at, c16.put, c16.chain, c16.check_view, c16.check_index


def saved(cx, v, where="state"):
    """What a JSON file gives back for v; anything else cannot be saved."""
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, dict):
        for k in v:
            cx.check(isinstance(k, str), "keys of the saved description are text", where)
        return {k: saved(cx, x, "%s.%s" % (where, k)) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [saved(cx, x, where) for x in v]
    cx.fail("the saved description holds only plain values", "%s: %s" % (where, type(v).__name__))


def restore(cx, seg, raw):
    state = seg.__getstate__()
    cx.check(isinstance(state, dict), "description is a dictionary")
    new = seg.__class__.__new__(seg.__class__)
    new.__setstate__(saved(cx, state))
    new.reconstruct_raw(raw)
    return new


def build(cx, kind, r, kw):
    from atrcopy import segments as S
    from atrcopy import ataridos as A
    if kind == "default":
        seg = S.DefaultSegment(r, kw["origin"], name=kw["name"], verbose_name=kw["vname"], error=kw["error"], memory_map=kw["mm"])
        extra = {}
    elif kind in ("obj", "xex", "run", "segmented"):
        cls = {"obj": S.ObjSegment, "xex": A.XexSegment, "run": A.RunAddressSegment, "segmented": S.SegmentedFileSegment}[kind]
        ms, ds = cx.int("ms", 0, 70000), cx.int("ds", 0, 70000)
        seg = cls(r, ms, ds, kw["origin"], name=kw["name"], error=kw["error"], verbose_name=kw["vname"], memory_map=kw["mm"])
        extra = {"metadata_start": ms, "data_start": ds}
    else:
        cls = {"sectors": S.RawSectorsSegment, "tracks": S.RawTrackSectorSegment}[kind]
        fs, ns, bs, nb, ss = cx.int("fs", 0, 2000), cx.int("ns", 0, 2000), cx.int("bs", 0, 512), cx.int("nb", 0, 3), cx.int("ss", 1, 512)
        seg = cls(r, fs, ns, len(r), bs, nb, ss, name=kw["name"], error=kw["error"], verbose_name=kw["vname"], memory_map=kw["mm"])
        extra = {"first_sector": fs, "num_sectors": ns, "boot_sector_size": bs, "num_boot_sectors": nb, "page_size": ss}
        seg.origin = kw["origin"]
    return seg, extra


def common(cx):
    kw = {"origin": cx.int("origin", 0, 0xffff), "name": cx.text("name", 3), "vname": cx.text("vname", 2),
          "error": cx.choose("error", [None, "broken"])}
    k = cx.choose("map", [0, 1, 2])
    kw["mm"] = {0: None, 1: {0x2000: cx.int("mapv", 0, 0xffff)}, 2: dict([(7, "a"), (0, "b")] + [(300 + 3 * i, "m%d" % i) for i in range(30)])}[k]
    return kw


def same_attributes(cx, a, b, extra, kw):
    cx.check(type(a) is type(b), "kind of segment")
    for k in ["origin", "name", "verbose_name", "error", "uuid", "map_width", "can_resize", "page_size", "memory_map"] + list(extra):
        if hasattr(a, k) and not hasattr(b, k):
            cx.fail("attribute lost", k)
            return
    cx.check(b.origin == kw["origin"], "origin")
    cx.check(cx.eq(b.name, kw["name"]), "name")
    cx.check(cx.eq(b.verbose_name, kw["vname"]), "long name")
    cx.check(b.error == kw["error"], "error text")
    cx.check(b.uuid == a.uuid, "identity")
    cx.check(b.map_width == kw["width"], "map width")
    cx.check(b.can_resize == kw["can"], "whether it may be resized")
    if "page_size" not in extra:
        cx.check(b.page_size == kw["page"], "page size")
    for k, v in extra.items():
        cx.check(getattr(b, k) == v, "attribute " + k)
    mm = kw["mm"] or {}
    cx.check(sorted(b.memory_map) == sorted(mm), "labels of the memory map")
    for k in mm:
        cx.check(b.memory_map[k] == mm[k], "memory map")


def roundtrip(cx, n, kinds, m, cls, again=False, fresh=False):
    from atrcopy.segments import SegmentData
    raw, d, s, views = chain(cx, n, kinds, m)
    r, pos = views[-1]
    if not pos and cls != "default":
        return
    kw = common(cx)
    seg, extra = build(cx, cls, r, kw)
    kw["width"], kw["page"], kw["can"] = cx.int("width", 1, 300), cx.int("page", 0, 300) - 1, cx.bool("can")
    seg.map_width = kw["width"]
    seg.can_resize = kw["can"]
    if "page_size" not in extra:
        seg.page_size = kw["page"]
    where = raw
    if fresh:
        # the same file loaded again
        where = SegmentData(cx.mkarray(d), cx.mkarray(s))
    new = restore(cx, seg, where)
    same_attributes(cx, seg, new, extra, kw)
    cx.check(len(new) == len(pos), "length")
    check_view(cx, new.rawdata, pos, d, s, "restored ")
    check_index(cx, new.rawdata, pos, n, "restored ")
    if again:
        new = restore(cx, new, where)
        same_attributes(cx, seg, new, extra, kw)
        check_view(cx, new.rawdata, pos, d, s, "restored twice ")
    if not pos:
        cx.reach("empty restored")
        return
    # still a live view on the file
    v, w = cx.byte("v"), cx.byte("w")
    j = cx.int("j", 0, len(pos) - 1)
    new[j] = v
    new.style[j] = w
    d2, s2 = put(cx, d, at(cx, pos, j), v), put(cx, s, at(cx, pos, j), w)
    check_view(cx, where, list(range(n)), d2, s2, "the file after a change ")
    if not fresh:
        for k, (q, p) in enumerate(views):
            check_view(cx, q, p, d2, s2, "other view %d after a change " % k)
    check_view(cx, new.rawdata, pos, d2, s2, "restored after a change ")
    cx.reach("restored")


def empty(cx, n):
    """An empty segment and an empty selection stay empty."""
    from atrcopy.segments import EmptySegment, DefaultSegment
    raw, d, s = c16.base(cx, n)
    for seg in (EmptySegment(raw, name="none", error="bad"), DefaultSegment(raw.get_indexed([]), 0x300, name="none", error="bad"),
                DefaultSegment(raw[2:2], 0x300, name="none", error="bad")):
        new = restore(cx, seg, raw)
        cx.check(len(new) == 0 and len(new.data[:]) == 0, "an empty segment stays empty")
        cx.check(new.name == "none" and new.error == "bad" and new.origin == seg.origin, "attributes of an empty segment")
    cx.reach("empty restored")


def whole(cx, lens):
    """All segments of an executable, saved and restored with their parser."""
    from atrcopy.segments import SegmentData
    from atrcopy.parsers import XexSegmentParser
    b = [255, 255]
    for k, n in enumerate(lens):
        start = 0x2000 + 0x100 * k
        b += [start & 255, start >> 8, (start + n - 1) & 255, (start + n - 1) >> 8] + cx.bytelist("x%d" % k, n)
    a = cx.mkarray(b)
    p = XexSegmentParser(SegmentData(a))
    state = p.__getstate__()
    segs = state["segments"]
    q = p.__class__.__new__(p.__class__)
    fresh = SegmentData(cx.mkarray(b))
    new = []
    for x in segs:
        y = x.__class__.__new__(x.__class__)
        y.__setstate__(saved(cx, x.__getstate__()))
        new.append(y)
    q.__setstate__({"segments": new, "strict": saved(cx, state["strict"])})
    q.reconstruct_segments(fresh)
    cx.check(len(q.segments) == len(p.segments), "number of segments")
    cx.check(q.strict == p.strict, "strictness")
    cx.check(type(q.image) is type(p.image), "kind of image")
    for x, y in zip(p.segments, q.segments):
        cx.check(type(x) is type(y) and x.name == y.name and x.origin == y.origin and x.uuid == y.uuid, "segment attributes")
        cx.check(cx.eq(x.data[:], y.data[:]), "segment bytes")
        if len(x):
            cx.check(x.rawdata.get_raw_index(0) == y.rawdata.get_raw_index(0), "segment position")
    i = cx.int("i", 0, len(b) - 1)
    v = cx.byte("v")
    cx.gather(len(b) + 64)
    fresh.data[i] = v
    after = put(cx, b, i, v)
    for y in q.segments:
        if len(y):
            o = y.rawdata.get_raw_index(0)
            cx.check(cx.eq(y.data[:], after[o:o + len(y)]), "restored segments share the file")
    cx.reach("parser restored")


def grow(cx, n, kinds, m, twice=False, zeros=True):
    from atrcopy.segments import DefaultSegment
    raw, d, s, views = chain(cx, n, kinds, m)
    top = DefaultSegment(raw, cx.int("origin", 0, 0xffff), name="top")
    raw.extra.comments[1] = "note"
    kids = [(DefaultSegment(r, 0x4000), pos) for r, pos in views[1:]]
    for c, pos in kids:
        if pos:
            try:
                c.can_resize = True
                c.resize(n + 1)
            except ValueError:
                pass
            else:
                cx.fail("only the container can be resized")
    try:
        top.resize(n + 1)
    except ValueError:
        pass
    else:
        cx.fail("resizing must be allowed for this segment")
    top.can_resize = True
    size = n
    for rnd in range(2 if twice else 1):
        new = size + cx.choose("more%d" % rnd, [1, 2, 3] if not twice else [1, 2])
        got = top.resize(new, zeros) if not zeros else top.resize(new)
        cx.check(cx.eq(list(got), [size, new]), "sizes reported")
        cx.check(len(top) == new and len(top.rawdata) == new and len(top.data) == new and len(top.style) == new, "new size")
        cx.check(cx.eq(top.data[:size], d) and cx.eq(top.style[:size], s), "existing bytes are kept")
        if zeros:
            cx.check(cx.eq(top.data[size:], [0] * (new - size)) and cx.eq(top.style[size:], [0] * (new - size)), "new bytes are zero")
        d = d + cx.lst(top.data[size:])
        s = s + cx.lst(top.style[size:])
        size = new
        for c, pos in kids:
            if pos:
                c.replace_data(top)
        for k, (c, pos) in enumerate(kids):
            if pos:
                check_view(cx, c.rawdata, pos, d, s, "rebound %d " % k)
                cx.check(cx.eq(c.data[:], [at(cx, d, p) for p in pos]), "bytes of a rebound segment")
                cx.check(c.origin == 0x4000, "origin of a rebound segment")
        cx.check(top.rawdata.extra.comments == {1: "note"}, "comments are kept")
        v, w = cx.byte("v%d" % rnd), cx.byte("w%d" % rnd)
        for c, pos in kids[-1:]:
            if pos:
                check_index(cx, c.rawdata, pos, size, "rebound%d " % rnd)
                j = cx.int("j%d" % rnd, 0, len(pos) - 1)
                c[j] = v
                c.style[j] = w
                d, s = put(cx, d, at(cx, pos, j), v), put(cx, s, at(cx, pos, j), w)
        t = cx.int("t%d" % rnd, 0, size - 1)
        top[t] = w
        d = put(cx, d, t, w)
        check_view(cx, top.rawdata, list(range(size)), d, s, "container after a change ")
        for k, (c, pos) in enumerate(kids):
            if pos:
                check_view(cx, c.rawdata, pos, d, s, "rebound %d after a change " % k)
                cx.check(cx.eq(c.data[:], [at(cx, d, p) for p in pos]), "bytes of a rebound segment after a change")
    cx.reach("grown")


def far(cx, size, start, w, kinds, bigger):
    """Selections far inside a big file: saved and restored, or bound again
    after the file has grown."""
    from atrcopy.segments import SegmentData, DefaultSegment
    cx.gather(64)
    d = [(i * 7 + (i >> 8)) & 255 for i in range(size)]
    win = cx.bytelist("b", w)
    d[start:start + w] = win
    raw = SegmentData(cx.mkarray(d))
    if kinds[0] == "s":
        r = raw[start:start + w]
        want = list(range(start, start + w))
        if len(kinds) > 1:
            sel = [4, cx.int("p", 0, w - 1), 1]
            r = r.get_indexed(sel)
            want = [start + i for i in sel]
    else:
        want = [start + 4, cx.int("p", start, start + w - 1), start + 1]
        r = raw.get_indexed(want)
        if len(kinds) > 1:
            sel = [2, cx.int("q", 0, 2)]
            r = r.get_indexed(sel)
            want = [at(cx, want, i) for i in sel]
    seg = DefaultSegment(r, 0x4000)
    if bigger:
        top = DefaultSegment(raw, 0, name="top")
        top.can_resize = True
        top.resize(size + bigger)
        seg.replace_data(top)
        whole = top
    else:
        whole = SegmentData(cx.mkarray(d))
        seg = restore(cx, seg, whole)
    cx.check(len(seg) == len(want), "length")
    cx.check(cx.eq(seg.data[:], [at(cx, win, p - start) for p in want]), "bytes far inside the file")
    for k in range(len(want)):
        cx.check(seg.rawdata.get_raw_index(k) == want[k], "position far inside the file")
    j, v = cx.int("j", 0, len(want) - 1), cx.byte("v")
    seg[j] = v
    cx.check(whole.data[at(cx, want, j)] == v, "written far inside the file")
    cx.reach("far")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 20000})
    n = 6 if T else 4
    for k in ["", "s", "i", "ss", "si", "is", "ii"] + (["sis", "iis", "isi", "iii"] if T else ["sis"]):
        nn = 4 if k.count("s") > 1 else n
        add("save-%s" % (k or "base"), "roundtrip", 6 + 4 * len(k), n=nn, kinds=k, m=2, cls="default", again=True)
        add("load-%s" % (k or "base"), "roundtrip", 6, n=nn, kinds=k, m=2, cls="default", fresh=True)
        add("grow-%s" % (k or "base"), "grow", 6, n=nn, kinds=k, m=2)
        if len(k) < 2 or T:
            add("grow2-%s" % (k or "base"), "grow", 20, n=3, kinds=k, m=2 if T else 1, twice=True)
            add("keep-%s" % (k or "base"), "grow", 8, n=3, kinds=k, m=2, zeros=False)
    for c in ("obj", "xex", "run", "segmented", "sectors", "tracks"):
        for k in (["s", "i", "si"] if T else ["s", "i"]):
            add("class-%s-%s" % (c, k), "roundtrip", 5, n=4, kinds=k, m=2, cls=c)
    add("wide", "roundtrip", 20, n=16 if T else 10, kinds="i", m=4 if T else 3, cls="default", fresh=True)
    add("empty", "empty", n=5)
    for size, start in ((600, 254), (70000, 65530), (140000, 131070)):
        for k in ("s", "i", "si", "ii"):
            add("far-%d-%s" % (start, k), "far", 3, size=size, start=start, w=6, kinds=k, bigger=0)
            add("bigger-%d-%s" % (start, k), "far", 3, size=size, start=start, w=6, kinds=k, bigger=128)
    for l in ([[1], [2, 3], [4, 1, 2]] if T else [[2], [2, 3]]):
        add("parser-%s" % "-".join(map(str, l)), "whole", lens=l)
    return out


def REACH(tier):
    return ["far", "restored", "empty restored", "parser restored", "grown"]


BOUNDS = {
    "quick": "base of 4 bytes (10 for one selection of 3; 3 when grown twice), every content and style; views of up to three nested ranges or selections of 2 positions; origin, name characters, page size, map width, sector numbers and offsets arbitrary; ranges, selections and nested selections in windows of 6 bytes at 254, 65530 and 131070 in bigger files, restored or bound again after growth by 128 bytes; growth by 1 to 3 bytes, once or twice, followed by one write through a child and one through the container at any position.",
    "thorough": "base of 6 bytes (16 for one selection of 4), all nestings up to three for every operation.",
}
OUTSIDE = "the JSON text itself (the saved description is checked to hold only plain values and passed on as such); descriptions written by older versions; shrinking a container; resizing a container that was itself restored from a description"
ASSUMPTIONS = ["the base array owns its memory, as arrays read from files do"]
