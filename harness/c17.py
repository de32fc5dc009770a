"""Styles, comments and saved sessions."""

# the style byte: user style in the low three bits, the rest one bit each
BITS = {"diff": 0x10, "match": 0x20, "comment": 0x40, "selected": 0x80, "data": 0x01}

KW = [{"match": True}, {"comment": True}, {"selected": True}, {"data": True}, {"diff": True}, {"user": 1}, {"user": 2}, {"user": 5}, {"user": 7},
      {"match": True, "selected": True}, {"comment": True, "user": 3}, {"data": True, "comment": True}, {"match": True, "comment": True, "selected": True, "diff": True, "user": 4}]


def bits(kw):
    b = 0
    for k, v in kw.items():
        b |= v if k == "user" else BITS[k]
    return b


def mask(kw):
    """Bits cleared: any user style clears the whole user field."""
    b = bits(kw)
    return b | 7 if kw.get("user") else b


def view(cx, n, kind, d=None):
    """(segment over the whole, segment of the view, positions, styles)"""
    from atrcopy.segments import SegmentData, DefaultSegment
    s = cx.bytelist("s", n)
    raw = SegmentData(cx.mkarray(d or cx.bytelist("b", n)), cx.mkarray(s))
    if kind == "base":
        r, pos = raw, list(range(n))
    elif kind == "slice":
        r, pos = raw[1:n - 1], list(range(1, n - 1))
    elif kind == "indexed":
        pos = [n - 1] + list(range(0, n - 2, 2)) + [1]
        r = raw.get_indexed(pos)
    else:  # a range of a selection of a range
        p = list(range(1, n))
        q = list(reversed(p))[::2]
        r = raw[1:n].get_indexed([x - 1 for x in q])[1:]
        pos = q[1:]
    return DefaultSegment(raw, 0), DefaultSegment(r, 0x100), pos, s


def styles(cx, n, kind, op, kws):
    whole, seg, pos, s = view(cx, n, kind)
    kw = kws[0] if len(kws) == 1 else cx.choose("kw", kws)
    m = len(pos)
    a, b = cx.int("start", 0, m), cx.int("end", 0, m + 1)
    before = cx.snapshot(whole.data)
    (seg.set_style_ranges if op == "set" else seg.clear_style_ranges)([[a, b]], **kw)
    want = list(s)
    for i, p in enumerate(pos):
        inr = cx.or_(cx.and_(i >= a, i < b), cx.and_(i >= b, i < a))
        want[p] = cx.ite(inr, s[p] | bits(kw) if op == "set" else s[p] & (255 - mask(kw)), s[p])
    cx.check(cx.eq(whole.style[:], want), "styles after %s" % op)
    cx.check(cx.eq(seg.style[:], [want[p] for p in pos]), "styles seen through the view")
    cx.check(cx.same_except(whole.data, before, []), "the bytes stay as they are")
    cx.reach(op)


def several(cx, n, kind):
    """Several ranges in one call, then clearing everywhere."""
    whole, seg, pos, s = view(cx, n, kind)
    kw = cx.choose("kw", [KW[0], KW[6], KW[10]])
    rs = cx.choose("ranges", [[], [[0, 1], [2, 3]], [[0, 2], [1, 3]], [[2, 0], [1, 1]], [[0, 3], [1, 2]]])
    seg.set_style_ranges(rs, **kw)
    want = list(s)
    for i, p in enumerate(pos):
        if any(min(r) <= i < max(r) for r in rs):
            want[p] = s[p] | bits(kw)
    cx.check(cx.eq(whole.style[:], want), "styles after setting ranges")
    k2 = cx.choose("kw2", KW[:4] + [KW[7], KW[9]])
    seg.clear_style_bits(**k2)
    for p in pos:
        want[p] = want[p] & (255 - mask(k2))
    cx.check(cx.eq(whole.style[:], want), "styles after clearing everywhere in the view")
    idx = [0, len(pos) - 1]
    k3 = cx.choose("kw3", [KW[2], KW[8]])
    seg.set_style_at_indexes(idx, **k3)
    for i in idx:
        want[pos[i]] = want[pos[i]] | bits(k3)
    cx.check(cx.eq(whole.style[:], want), "styles at positions")
    cx.check(cx.eq(seg.get_style_at_indexes(idx), [want[pos[i]] for i in idx]), "styles read at positions")
    cx.reach("several")


def runs(cx, rs, marked, tag):
    """rs are exactly the maximal runs of marked (list of conditions)."""
    n = len(marked)
    last = -1
    cover = set()
    for a, b in rs:
        a, b = cx.concrete(a), cx.concrete(b)
        if not (last < a < b <= n):
            cx.fail(tag + "order of the ranges")
            return []
        last = b
        cover |= set(range(a, b))
    for i in range(n):
        cx.check(marked[i] if i in cover else cx.not_(marked[i]), tag + "membership of a byte")
    return sorted(cover)


def ranges(cx, n, kind, kws):
    whole, seg, pos, s = view(cx, n, kind)
    kw = cx.choose("kw", kws)
    b = bits(kw)
    rs = seg.get_style_ranges(**kw)
    runs(cx, rs, [(s[p] & b) == b for p in pos], "ranges: ")
    cx.check(cx.eq(whole.style[:], s), "styles unchanged")
    cx.reach("ranges")


def find(cx, n, kind):
    whole, seg, pos, s = view(cx, n, kind)
    kw = cx.choose("kw", [{"match": True}, {"user": 3}])
    b = bits(kw)
    i = cx.int("index", 0, len(pos))
    nx, pv = seg.find_next(i, **kw), seg.find_previous(i, **kw)
    mk = [(s[p] & b) == b for p in pos]
    starts = [cx.and_(mk[k], True if k == 0 else cx.not_(mk[k - 1])) for k in range(len(pos))]
    if nx is None or pv is None:
        cx.check(nx is None and pv is None and cx.not_(cx.any(mk)), "nothing found although there is something")
        cx.reach("nothing")
        return
    nx, pv = cx.concrete(nx), cx.concrete(pv)
    cx.check(starts[nx] and starts[pv], "start of a range")
    after = [cx.and_(starts[k], k > i) for k in range(len(pos))]
    cx.check(cx.ite(cx.any(after), 1, 0) == cx.ite(nx > i, 1, 0), "next wraps only if there is no later one")
    for k in range(nx):
        cx.check(cx.implies(starts[k], cx.or_(k <= i, False) if nx > 0 and cx_gt(cx, nx, i) else False), "next is the first one")
    before = [cx.and_(starts[k], k < i) for k in range(len(pos))]
    cx.check(cx.ite(cx.any(before), 1, 0) == cx.ite(pv < i, 1, 0), "previous wraps only if there is no earlier one")
    for k in range(pv + 1, len(pos)):
        cx.check(cx.implies(starts[k], k >= i if cx_gt(cx, i, pv) else False), "previous is the last one")
    cx.reach("found")


def cx_gt(cx, a, b):
    return bool(a > b)


def entire(cx, n, kind, comments):
    """The partition of the segment by style, split at comments."""
    whole, seg, pos, s = view(cx, n, kind)
    kw = cx.choose("kw", [{"user": 7}, {"data": True}, {"match": True, "user": 1}])
    b = bits(kw)
    at = cx.choose("comments", comments)
    for p in at:
        whole.set_comment_at(p, "c%d" % p)
    split = cx.choose("split", [None, [0, 1], [1]])
    out = seg.get_entire_style_ranges(split, **kw)
    end = 0
    for k, ((x, y), v) in enumerate(out):
        x, y = cx.concrete(x), cx.concrete(y)
        if x != end or y <= x:
            cx.fail("the ranges must cover the segment in order")
            return
        cx.check(cx.all((s[pos[i]] & b) == v for i in range(x, y)), "style of a range")
        if k:
            ok = s[pos[x]] & b != s[pos[x - 1]] & b
            if pos[x] in at:
                ok = cx.or_(ok, cx.any((s[pos[x]] & b) == t for t in (split or [])))
            cx.check(ok, "ranges are split only at a change of style or at a comment of a requested style")
        end = y
    cx.check(end == len(pos), "the ranges must cover the whole segment")
    cx.check(cx.eq(whole.style[:], s), "styles unchanged")
    cx.reach("partition")


def check_comments(cx, whole, views, model, tag):
    n = len(whole)
    cx.check(whole.get_sorted_comments() == [[k, model[k]] for k in sorted(model)], tag + "sorted comments")
    for seg, pos in views:
        for i, p in enumerate(pos):
            cx.check(seg.get_comment(i) == model.get(p, ""), tag + "comment at a byte")
        got = dict(seg.iter_comments_in_segment())
        cx.check(got == {i: model[p] for i, p in enumerate(pos) if p in model}, tag + "comments in the segment")
        if len(pos) > 2:
            cx.check(seg.get_comments_in_range(1, 3) == {i: model[p] for i, p in enumerate(pos) if p in model and 1 <= i < 3}, tag + "comments in a range")
            cx.check(seg.get_first_comment([[2, 3], [1, 2]]) == model.get(pos[1], ""), tag + "first comment")
            cx.check(seg.get_first_comment([[3, 2], [3, 3]]) == model.get(pos[2], ""), tag + "first comment of a reversed range")


OPS = ["set", "at", "clear", "remove", "many"]


def comments(cx, n, kind, ops, prior):
    whole, seg, pos, s = view(cx, n, kind)
    model = {}
    for p in prior:
        whole.set_comment_at(p, "old%d" % p)
        model[p] = "old%d" % p
    want = list(s)
    m = len(pos)
    for k, op in enumerate(ops):
        if op == "set":
            a, b = cx.concrete(cx.int("a%d" % k, 0, m - 1)), cx.concrete(cx.int("b%d" % k, 0, m - 1))
            seg.set_comment([[a, b]], "new%d" % k)
            model[pos[min(a, b)]] = "new%d" % k
            for i in range(min(a, b), max(a, b)):
                want[pos[i]] = want[pos[i]] | 0x40
        elif op == "at":
            i = cx.concrete(cx.int("i%d" % k, 0, m - 1))
            seg.set_comment_at(i, "at%d" % k)
            model[pos[i]] = "at%d" % k
        elif op == "clear":
            a, b = cx.concrete(cx.int("a%d" % k, 0, m)), cx.concrete(cx.int("b%d" % k, 0, m))
            seg.clear_comment([[a, b]])
            for i in range(min(a, b), max(a, b)):
                want[pos[i]] = want[pos[i]] & 0xbf
                model.pop(pos[i], None)
        elif op == "remove":
            i = cx.concrete(cx.int("i%d" % k, 0, m - 1))
            seg.remove_comment(i)
            model.pop(pos[i], None)
        elif op == "removes":
            i, j = cx.concrete(cx.int("i%d" % k, 0, m - 1)), cx.concrete(cx.int("j%d" % k, 0, m - 1))
            seg.remove_comments_at_indexes([i, j])
            model.pop(pos[i], None)
            model.pop(pos[j], None)
        else:
            idx = [0, m - 1]
            seg.set_comments_at_indexes([], idx, ["many", ""])
            model[pos[0]] = "many"
            model.pop(pos[m - 1], None)
    check_comments(cx, whole, [(whole, list(range(n))), (seg, pos)], model, "")
    cx.check(cx.eq(whole.style[:], want), "comment marks")
    cx.reach("comments")


def undo(cx, n, kind, prior):
    """Saved comments come back after any change in the range."""
    whole, seg, pos, s = view(cx, n, kind)
    model = {}
    for p in prior:
        whole.set_comment_at(p, "old%d" % p)
        model[p] = "old%d" % p
    m = len(pos)
    a, b = cx.concrete(cx.int("a", 0, m)), cx.concrete(cx.int("b", 0, m))
    saved = seg.get_comment_restore_data([[a, b]])
    op = cx.choose("op", ["clear", "set", "style"])
    if op == "clear":
        seg.clear_comment([[a, b]])
    elif op == "set":
        if a == b:
            return
        seg.set_comment([[a, b]], "changed")
    else:
        seg.set_style_ranges([[a, b]], comment=True, match=True)
    seg.restore_comments(saved)
    check_comments(cx, whole, [(whole, list(range(n))), (seg, pos)], model, "restored: ")
    cx.check(cx.eq(whole.style[:], s), "restored styles")
    # the marked positions with their texts
    idx = list(range(m)) if a >= b else list(range(m - 1, -1, -2))
    has, texts = seg.get_comments_at_indexes(idx)
    has = [cx.concrete(x) for x in has]
    for k, i in enumerate(idx):
        c = (s[pos[i]] & 0x40) != 0
        cx.check(c if k in has else cx.not_(c), "marked positions")
    cx.check(list(texts) == [model.get(pos[idx[k]]) for k in has], "texts at marked positions")
    cx.reach("undo")


def fixup(cx, n, kind):
    whole, seg, pos, s = view(cx, n, kind)
    at = cx.choose("comments", [[], [0], [1, 3], [n - 1, 0]])
    for p in at:
        whole.set_comment_at(p, "x")
    seg.fixup_comments()
    cx.check(cx.eq(whole.style[:], [(s[p] | 0x40) if p in at else (s[p] & 0xbf) for p in range(n)]), "comment marks match the texts")
    cx.reach("fixup")


def userdata(cx, n, kind):
    whole, seg, pos, s = view(cx, n, kind)
    m = len(pos)
    model = {}
    for k in range(2):
        a, b = cx.concrete(cx.int("a%d" % k, 0, m)), cx.concrete(cx.int("b%d" % k, 0, m))
        seg.set_user_data([[a, b]], 2, 10 + k)
        for i in range(min(a, b), max(a, b)):
            model[pos[i]] = 10 + k
    for i in range(m):
        cx.check(seg.get_user_data(i, 2) == model.get(pos[i], 0), "user data")
        cx.check(seg.get_user_data(i, 1) == 0, "other user data")
    out = seg.get_sorted_user_data(2)
    got = {}
    last = None
    for (x, y), v in out:
        for i in range(x, y):
            got[i] = v
        if last is not None:
            cx.check(x > last[0] or (x == last[0] and v != last[1]), "user data ranges are maximal and in order")
        last = (y, v)
    cx.check(got == model, "user data ranges")
    cx.check(cx.eq(whole.style[:], s), "styles unchanged")
    cx.reach("user data")


def session(cx, n, free, comments):
    """free: bits of each style byte that are arbitrary."""
    import json
    from atrcopy.segments import SegmentData, DefaultSegment
    d = cx.bytelist("b", n)
    s = [cx.byte("s%d" % i) & f for i, f in zip(range(n), free)]
    seg = DefaultSegment(SegmentData(cx.mkarray(d), cx.mkarray(s)), 0)
    at = cx.choose("comments", comments)
    for p in at:
        seg.set_comment_at(p, "text %d" % p)
    e = {}
    seg.serialize_session(e)
    e = json.loads(json.dumps(cx.deepfork(e)))
    new = DefaultSegment(SegmentData(cx.mkarray(d)), 0)
    new.restore_session(e)
    # selections, matches and differences are not part of a session
    cx.check(cx.eq(new.style[:], [x & 0x47 for x in s]), "restored markings")
    cx.check(new.get_sorted_comments() == [[p, "text %d" % p] for p in sorted(at)], "restored comments")
    cx.check(cx.eq(seg.style[:], s), "saving changes nothing")
    cx.reach("session")


def compare(cx, n, k1, k2):
    from atrcopy.segments import SegmentData, DefaultSegment
    d = cx.bytelist("d", n)
    whole, seg, pos, s = view(cx, n, k1, d)
    e = cx.bytelist("e", len(pos))
    raw = SegmentData(cx.mkarray(e))
    if k2 == "indexed":
        raw = SegmentData(cx.mkarray(list(reversed(e)))).get_indexed(list(range(len(e) - 1, -1, -1)))
    seg.compare_segment(DefaultSegment(raw))
    want = list(s)
    for i, p in enumerate(pos):
        want[p] = cx.ite(d[p] != e[i], s[p] | 0x10, s[p] & 0xef)
    cx.check(cx.eq(whole.style[:], want), "differences are marked")
    cx.reach("compared")


def rect(cx, n, width):
    """Rectangular selections given from the upper left to the lower right."""
    from atrcopy.segments import SegmentData, DefaultSegment
    s = cx.bytelist("s", n)
    seg = DefaultSegment(SegmentData(cx.mkarray(cx.bytelist("b", n)), cx.mkarray(s)))
    rows = (n + width - 1) // width
    r1 = cx.concrete(cx.int("r1", 0, rows - 1))
    r2 = cx.concrete(cx.int("r2", r1, rows - 1))
    c1 = cx.concrete(cx.int("c1", 0, width - 2))
    c2 = cx.concrete(cx.int("c2", c1 + 1, width - 1))
    seg.set_style_ranges_rect([(r1 * width + c1, r2 * width + c2)], width, selected=True)
    want = [x | 0x80 if r1 <= i // width <= r2 and c1 <= i % width < c2 else x for i, x in enumerate(s)]
    cx.check(cx.eq(seg.style[:], want), "rectangle")
    # a selection of rows and columns as a range of bytes
    ends = seg.rects_to_ranges([((r1, c1), (r2 + 1, c2))], width) if hasattr(seg, "rects_to_ranges") else [(r1 * width + c1, r2 * width + c2)]
    cx.check(len(ends) == 1 and ends[0][0] == r1 * width + c1 and ends[0][1] == r2 * width + c2, "rectangle as a range")
    cx.reach("rectangle")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 20000})
    n = 8 if T else 6
    kinds = ["base", "slice", "indexed", "nested"]
    for k in kinds:
        for op in ("set", "clear"):
            for j in range(0, len(KW), 5):
                add("%s-%s-%d" % (op, k, j), "styles", 3, n=n + 4 if k == "nested" else n, kind=k, op=op, kws=KW[j:j + 5])
        add("several-%s" % k, "several", 3, n=n + 2, kind=k)
        add("ranges-%s" % k, "ranges", 5, n=n + 6 if k == "nested" else n, kind=k, kws=[KW[0], KW[3], KW[8], KW[11], KW[12]])
        add("find-%s" % k, "find", 5, n=n + 4 if k == "nested" else n - 1, kind=k)
        add("entire-%s" % k, "entire", 6, n=9 if k == "nested" else 4, kind=k, comments=[[], [1], [0, 2], [1, 2]] + ([[0, 1, 2, 3], [3]] if T else []))
        nn = 9 if k == "nested" else 5
        for ops in ([["set"], ["at", "clear"], ["clear", "set"], ["many", "remove"], ["set", "remove"], ["at", "removes"]] + ([["set", "set"], ["set", "clear"], ["clear", "clear"], ["at", "set", "clear"]] if T else [])):
            add("comment-%s-%s" % (k, "-".join(ops)), "comments", 4, n=nn, kind=k, ops=ops, prior=[1, 3] if k != "nested" else [2, 6])
        add("undo-%s" % k, "undo", 5, n=nn if k == "nested" else 4, kind=k, prior=[0, 2] if k != "nested" else [2, 4])
        add("fixup-%s" % k, "fixup", 2, n=5, kind=k)
        add("userdata-%s" % k, "userdata", 4, n=6 if k == "nested" else 4, kind=k)
        for k2 in ("plain", "indexed"):
            add("compare-%s-%s" % (k, k2), "compare", 3, n=5, k1=k, k2=k2)
    add("session-2", "session", 6, n=2, free=[255, 255], comments=[[], [1]])
    add("session-3a", "session", 6, n=3, free=[0xc1, 0x47, 0x46], comments=[[], [1, 0]])
    add("session-5", "session", 6, n=5, free=[0x41, 0x05, 0x40, 0x02, 0xb3], comments=[[4, 2]])
    if T:
        add("session-3", "session", 9, n=3, free=[255, 255, 255], comments=[[0, 2]])
        add("session-8", "session", 9, n=8, free=[0x40] * 4 + [0x04, 0x06, 0x41, 0x41], comments=[[0, 7]])
    for w in (2, 3, 4):
        add("rect-%d" % w, "rect", 2, n=3 * w - 1, width=w)
    return out


def REACH(tier):
    return ["set", "clear", "several", "ranges", "found", "nothing", "partition", "comments", "undo", "fixup", "user data", "session", "compared", "rectangle"]


BOUNDS = {
    "quick": "bases of 4 to 8 bytes with arbitrary style bytes, seen whole, as a range, as a selection and as a range of a selection of a range; 13 style combinations; every range (empty, reversed, beyond the end); sequences of up to 2 comment operations on top of existing comments; sessions of 2 bytes with every style and of 3 and 5 bytes with partly fixed styles.",
    "thorough": "bases of 8 to 10 bytes, sequences of up to 3 comment operations, sessions of 3 bytes with every style.",
}
OUTSIDE = "rectangular selections made in other directions than upper left to lower right; deprecated session entries (display list ranges, user ranges 1); sessions saved from a segment that is not the whole file (comments are kept by file position)"
ASSUMPTIONS = ["user styles are a 3-bit field into which setting ors: overlapping user styles combine", "a comment belongs to the first byte of the range it is set on"]
