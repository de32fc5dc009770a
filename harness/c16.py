"""Views of segment data: ranges, selections, selections of selections."""


def at(cx, lst, i):
    """lst[i] for an arbitrary i within the list."""
    r = lst[-1]
    for k in range(len(lst) - 2, -1, -1):
        r = cx.ite(i == k, lst[k], r)
    return r


def put(cx, lst, i, v):
    """lst with position i replaced."""
    return [cx.ite(i == k, v, x) for k, x in enumerate(lst)]


def base(cx, n):
    from atrcopy.segments import SegmentData
    d = cx.bytelist("b", n)
    s = cx.bytelist("s", n)
    return SegmentData(cx.mkarray(d), cx.mkarray(s)), d, s


def sub(cx, raw, pos, kind, k, m, via="raw"):
    """One selection step: (new rawdata, its positions in the base)."""
    from atrcopy.segments import DefaultSegment
    n = len(pos)
    if kind == "s":
        a = cx.concrete(cx.int("a%d" % k, 0, n))
        b = cx.concrete(cx.int("b%d" % k, a, n))
        if b < a:
            b = a
        return raw[a:b], pos[a:b]
    if n == 0:
        m = 0
    sel = [cx.int("p%d_%d" % (k, i), 0, n - 1) for i in range(m)]
    if via == "subset":
        seg = DefaultSegment(raw).create_subset(sel, "sub")
        cx.check(seg.name == "sub" and seg.verbose_name == "sub", "name of the subset")
        return seg.rawdata, [at(cx, pos, i) for i in sel]
    return raw.get_indexed(sel), [at(cx, pos, i) for i in sel]


def check_view(cx, raw, pos, d, s, tag):
    cx.check(len(raw) == len(pos), tag + "length")
    if not pos:
        return
    cx.check(cx.eq(raw.data[:], [at(cx, d, p) for p in pos]), tag + "bytes")
    cx.check(cx.eq(raw.style[:], [at(cx, s, p) for p in pos]), tag + "styles")


def check_index(cx, raw, pos, n, tag):
    """Index conversions of a view, both ways."""
    from atrcopy.segments import DefaultSegment
    if not pos:
        return
    i = cx.int(tag + "i", 0, len(pos) - 1)
    org = cx.int(tag + "org", 0, 0xffff)
    seg = DefaultSegment(raw, org)
    cx.check(raw.get_raw_index(i) == at(cx, pos, i), tag + "position in the file")
    cx.check(seg.get_raw_index_from_address(org + i) == at(cx, pos, i), tag + "position in the file from the address")
    if hasattr(seg, "is_valid_index"):
        w = cx.int(tag + "w", -3, len(pos) + 3)
        cx.check(bool(seg.is_valid_index(w)) == bool(cx.and_(w >= 0, w < len(pos))), tag + "valid positions")
    cx.check(cx.eq(cx.lst(raw.get_indexes_from_base()), pos), tag + "all positions in the file")
    p = cx.int(tag + "p", 0, n - 1)
    try:
        j = seg.get_index_from_base_index(p)
    except IndexError:
        cx.check(cx.all(q != p for q in pos), tag + "a position in the view must be found")
        cx.reach("not in view")
        return
    cx.check(cx.and_(j >= 0, j < len(pos)), tag + "range of the reverse index")
    cx.check(at(cx, pos, j) == p, tag + "position in the view")
    cx.reach("in view")


def chain(cx, n, kinds, m, via="raw"):
    cx.gather(64)
    raw, d, s = base(cx, n)
    views = [(raw, list(range(n)))]
    for k, kind in enumerate(kinds):
        r, pos = views[-1]
        views.append(sub(cx, r, pos, kind, k, m, via))
    return raw, d, s, views


def look(cx, n, kinds, m, via="raw"):
    raw, d, s, views = chain(cx, n, kinds, m, via)
    for k, (r, pos) in enumerate(views):
        check_view(cx, r, pos, d, s, "view %d " % k)
    check_index(cx, views[-1][0], views[-1][1], n, "last ")
    check_index(cx, views[len(views) // 2][0], views[len(views) // 2][1], n, "middle ")
    cx.check(cx.eq(raw.data[:], d) and cx.eq(raw.style[:], s), "looking changes nothing")
    cx.reach("looked")


def write(cx, n, kinds, m, how):
    from atrcopy.segments import DefaultSegment
    raw, d, s, views = chain(cx, n, kinds, m)
    w = cx.choose("through", list(range(len(views))))
    r, pos = views[w]
    if not pos:
        return
    v = cx.byte("v")
    seg = DefaultSegment(r, 0x2000)
    before = seg.search_copy
    cx.check(cx.eq(before, [at(cx, d, p) for p in pos]), "search copy")
    if how == "one":
        j = cx.int("j", 0, len(pos) - 1)
        seg[j] = v
        d = put(cx, d, at(cx, pos, j), v)
    elif how == "slice":
        a = cx.concrete(cx.int("wa", 0, len(pos)))
        b = cx.concrete(cx.int("wb", a, len(pos)))
        vals = cx.bytelist("w", b - a) if b > a else []
        seg[a:b] = cx.mkarray(vals)
        for i, x in enumerate(vals):
            d = put(cx, d, pos[a + i], x)
    elif how == "fill":
        seg.data[:] = v
        for p in pos:
            d = put(cx, d, p, v)
    elif how == "list":
        j = [cx.int("j%d" % i, 0, len(pos) - 1) for i in range(2)]
        from atrcopy.utils import to_numpy_list
        vals = cx.bytelist("w", 2)
        seg[to_numpy_list(j)] = cx.mkarray(vals)
        for i, x in zip(j, vals):
            d = put(cx, d, at(cx, pos, i), x)
    elif how == "style":
        j = cx.int("j", 0, len(pos) - 1)
        seg.style[j] = v
        s = put(cx, s, at(cx, pos, j), v)
    elif how == "style-and":
        seg.style &= v
        for p in pos:
            s = [cx.ite(p == k, x & v, x) for k, x in enumerate(s)]
    for k, (r, pos) in enumerate(views):
        check_view(cx, r, pos, d, s, "view %d after the change " % k)
    if how != "fill" and not how.startswith("style"):
        cx.check(cx.eq(seg.search_copy, [at(cx, d, p) for p in views[w][1]]), "search copy after the change")
    cx.reach("written")


def copies(cx, n, kinds, m):
    raw, d, s, views = chain(cx, n, kinds, m)
    r, pos = views[-1]
    c = r.copy()
    check_view(cx, c, pos, d, s, "copy ")
    if not pos:
        return
    i = cx.int("ci", 0, len(pos) - 1)
    cx.check(c.get_raw_index(i) == at(cx, pos, i), "position in the copied file")
    v, w = cx.byte("v"), cx.byte("w")
    j = cx.int("j", 0, len(pos) - 1)
    c.data[j] = v
    c.style[j] = w
    for k, (q, p) in enumerate(views):
        check_view(cx, q, p, d, s, "original view %d " % k)
    d2, s2 = put(cx, d, at(cx, pos, j), v), put(cx, s, at(cx, pos, j), w)
    check_view(cx, c, pos, d2, s2, "changed copy ")
    r.data[:] = w
    raw.data[:] = v
    raw.style[:] = v
    check_view(cx, c, pos, d2, s2, "copy after the original changed ")
    c.extra.comments[0] = "x"
    cx.check(not raw.extra.comments, "comments of the copy are its own")
    cx.reach("copied")


def bounds(cx, n, kinds, m):
    """Positions beyond the view are refused when selecting."""
    raw, d, s, views = chain(cx, n, kinds, m)
    r, pos = views[-1]
    sel = [cx.int("q%d" % i, 0, 2 * n) for i in range(2)]
    bad = cx.any(i >= len(pos) for i in sel)
    try:
        t = r.get_indexed(sel)
    except IndexError:
        cx.check(bad, "valid positions must be accepted")
        cx.reach("out of range")
        return
    cx.check(cx.not_(bad), "positions outside the view must be refused")
    check_view(cx, t, [at(cx, pos, i) for i in sel], d, s, "selection ")
    cx.reach("in range")


def parallel(cx, n, kinds, m):
    """The same selection over another file of the same size."""
    from atrcopy.segments import SegmentData, DefaultSegment
    raw, d, s, views = chain(cx, n, kinds, m)
    r, pos = views[-1]
    d2 = cx.bytelist("e", n)
    s2 = cx.bytelist("f", n)
    other = DefaultSegment(SegmentData(cx.mkarray(d2), cx.mkarray(s2)))
    p = other.get_parallel_raw_data(DefaultSegment(r))
    check_view(cx, p, pos, d2, s2, "parallel ")
    cx.reach("parallel")


def far(cx, size, start, w, kinds):
    """Selections that lie far inside a big file."""
    from atrcopy.segments import SegmentData, DefaultSegment
    cx.gather(64)
    d = [(i * 7 + (i >> 8)) & 255 for i in range(size)]
    win = cx.bytelist("b", w)
    d[start:start + w] = win
    raw = SegmentData(cx.mkarray(d))
    r, pos = raw, None
    if kinds[0] == "s":
        r, pos = raw[start:start + w], list(range(start, start + w))
        sel = [4, cx.int("p", 0, w - 1), 1]
        want = [start + i for i in sel]
    else:
        sel = [start + 4, cx.int("p", start, start + w - 1), start + 1]
        want = sel
    v = r.get_indexed(sel)
    cx.check(cx.eq(v.data[:], [at(cx, win, p - start) for p in want]), "bytes far inside the file")
    for k in range(3):
        cx.check(v.get_raw_index(k) == want[k], "position far inside the file")
    if len(kinds) > 1:
        j = cx.int("j", 0, 1)
        u = v.get_indexed([j, 2])
        cx.check(cx.eq(u.data[:], [at(cx, win, at(cx, want, j) - start), at(cx, win, want[2] - start)]), "selection of a far selection")
        u.data[0] = 77
        cx.check(raw.data[at(cx, want, j)] == 77, "written far inside the file")
    cx.reach("far")


def wideview(cx, size, start, w, kind):
    """Positions far inside a big view."""
    from atrcopy.segments import SegmentData, DefaultSegment
    cx.gather(64)
    d = [(i * 7 + (i >> 8)) & 255 for i in range(size)]
    win = cx.bytelist("b", w)
    d[start:start + w] = win
    raw = SegmentData(cx.mkarray(d))
    p = cx.int("p", start, start + w - 1)
    if kind == "whole":
        r, j = raw, p
    elif kind == "range":
        r, j = raw[3:size - 2], p - 3
    else:
        # all bytes but the first three, backwards
        r, j = raw.get_indexed(list(range(size - 1, 2, -1))), size - 1 - p
    seg = DefaultSegment(r, 0)
    cx.check(seg.get_raw_index(j) == p and r.get_raw_index(j) == p, "position far inside a view")
    cx.check(seg.get_index_from_base_index(p) == j, "place of a far position in the view")
    cx.check(seg[j] == at(cx, win, p - start), "byte far inside a view")
    if kind != "whole":
        try:
            seg.get_index_from_base_index(2)
            cx.fail("a position outside the view must be refused")
        except IndexError:
            pass
    v = r.get_indexed([j, 0])
    cx.check(cx.eq(v.data[:], [at(cx, win, p - start), d[{"whole": 0, "range": 3}.get(kind, size - 1)]]), "selection far inside a view")
    cx.check(v.get_raw_index(0) == p, "position of a selection")
    x = cx.byte("x")
    seg[j] = x
    cx.check(raw.data[p] == x, "written far inside a view")
    cx.reach("wide view")


def names(cx, kind):
    """The label of a byte is its address in hexadecimal."""
    from atrcopy.segments import DefaultSegment
    raw, d, s = base(cx, 4)
    r, pos = (raw, list(range(4))) if kind == "base" else sub(cx, raw, list(range(4)), kind, 0, 2, "raw")
    org = cx.int("org", 0, 0xfff0)
    seg = DefaultSegment(r, org)
    i = cx.int("i", 0, len(pos) - 1)
    for lower in (True, False):
        t = seg.label(i, lower)
        cx.check(len(t) == 4, "four digits")
        v = 0
        for c in t:
            c = ord(c)
            ten = 97 if lower else 65
            ok = cx.or_(cx.and_(c >= 48, c <= 57), cx.and_(c >= ten, c < ten + 6))
            cx.check(ok, "hexadecimal digits")
            v = v * 16 + cx.ite(c <= 57, c - 48, c - ten + 10)
        cx.check(v == org + i, "the label is the address")
    cx.reach("labels")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 20000})
    n = 8 if T else 5
    shapes = ["", "s", "i", "ss", "si", "is", "ii", "sis", "ssi", "iis", "isi", "iii"]
    for k in shapes:
        ns = k.count("s")
        nn = n if ns < 2 else (n if T else 4)
        add("look-%s" % (k or "base"), "look", 2 + 2 * len(k), n=nn, kinds=k, m=3 if ns < 2 else 2)
        for how in ("one", "slice", "fill", "list", "style", "style-and"):
            if not T and len(k) > 2 and how not in ("one", "style"):
                continue
            add("write-%s-%s" % (k or "base", how), "write", 2 + 3 * len(k), n=4 if ns >= 2 or (how == "slice" and ns) else nn, kinds=k, m=2, how=how)
        if len(k) < 3 or T:
            add("copy-%s" % (k or "base"), "copies", 3, n=nn if ns < 2 else 4, kinds=k, m=2)
            add("bounds-%s" % (k or "base"), "bounds", 3, n=4, kinds=k, m=2)
            add("parallel-%s" % (k or "base"), "parallel", 2, n=nn if ns < 2 else 4, kinds=k, m=3)
    for k in ("i", "si", "ii"):
        add("subset-%s" % k, "look", 4, n=n, kinds=k, m=3, via="subset")
    for k in ("base", "s"):
        add("label-%s" % k, "names", 2, kind=k)
    add("wide", "look", 4, n=20 if T else 16, kinds="i", m=5)
    for size, start in ((600, 300), (70000, 65530), (140000, 131070)):
        for k in ("s", "i", "si", "ii"):
            add("far-%d-%s" % (start, k), "far", 2, size=size, start=start, w=6, kinds=k)
    for size, start in ((600, 300), (70000, 65533), (140000, 131070)):
        for k in ("whole", "range", "back"):
            add("view-%d-%s" % (start, k), "wideview", 3, size=size, start=start, w=6, kind=k)
    add("wide2", "look", 4, n=8 if T else 7, kinds="ii", m=3)
    return out


def REACH(tier):
    return ["looked", "written", "copied", "in view", "not in view", "in range", "out of range", "parallel", "far", "wide view", "labels"]


BOUNDS = {
    "quick": "base of 5 bytes (4 when two ranges are nested), every content and style; up to three nested steps, each any range or any list of 2 or 3 positions (repetitions included); one write of every value at every position, range, list of two or whole view, through any of the nested views; a base of 16 bytes with selections of 5; selections of 3 positions (one arbitrary) and selections of them in windows of 6 bytes at 300, 65530 and 131070 in bigger files, also seen through views of up to 140000 bytes; every segment origin.",
    "thorough": "base of 8 bytes, all write forms for three nested steps, a base of 20 bytes with selections of 5.",
}
OUTSIDE = "ranges with a step other than 1 and negative positions; a segment made from an array that is itself a view of a bigger array and has no style array of its own; the search copy of one view after a change through another view"
ASSUMPTIONS = ["the base array owns its memory, as arrays read from files do"]
