"""Parsing Atari executables: every byte of the file is accounted for."""


def reference(cx, b):
    """Independent parser.  None if not an executable, otherwise a list of
    (kind, position, origin, length)."""
    n = len(b)
    word = lambda i: b[i] + 256 * b[i + 1]
    if n < 2 or not word(0) == 0xffff:
        return None
    out = []
    i = 2
    while i < n:
        left = n - i
        if left == 1:
            out.append(("short", i, 0, 1))
            break
        if word(i) == 0xffff:
            i += 2
            continue
        if left < 4:
            out.append(("short", i, 0, left))
            break
        start, end = word(i), word(i + 2)
        if end < start:
            return None
        m = end - start + 1
        if m > left - 4:
            out.append(("part", i + 4, start, left - 4))
            break
        m = cx.concrete(m)
        out.append(("run" if start == 0x2e0 and m > 1 else "block", i + 4, start, m))
        i += 4 + m
    return out


def check(cx, b, kind):
    from atrcopy.ataridos import AtariDosFile
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    n = len(b)
    if kind == "plain":
        base = cx.mkarray(b)
        raw = SegmentData(base)
        pos = list(range(n))
    else:
        # stored backwards in every second byte of something bigger
        x = []
        for v in reversed(b):
            x += [v, 0x55]
        base = cx.mkarray(x + [0x66])
        pos = [2 * (n - 1 - i) for i in range(n)]
        raw = SegmentData(base).get_indexed(pos)
    before = cx.snapshot(base)
    want = reference(cx, b)
    f = AtariDosFile(raw)
    try:
        f.parse_segments()
    except errors.InvalidBinaryFile:
        cx.check(want is None, "an executable must be recognised")
        cx.check(cx.same_except(base, before, []), "data unchanged")
        cx.reach("refused")
        return
    cx.check(want is not None, "not an executable")
    cx.check(len(f.segments) == len(want), "number of blocks")
    for s, (k, at, origin, m) in zip(f.segments, want):
        cx.check(len(s) == m, "length of a block")
        cx.check(s.origin == origin, "address of a block")
        if m:
            cx.check(cx.eq(s.data[:], b[at:at + m]), "bytes of a block")
            cx.check(s.get_raw_index(0) == pos[at] and s.get_raw_index(m - 1) == pos[at + m - 1], "place of a block in the file")
        incomplete = s.name in ("Incomplete Data", "Short Segment Header")
        cx.check(incomplete == (k in ("short", "part")), "exactly a truncated last block is marked incomplete")
        cx.check(hasattr(s, "run_address") == (k == "run"), "exactly a block at $02e0 has a run address")
        if k == "run":
            cx.check(s.run_address() == b[at] + 256 * b[at + 1], "run address")
            cx.reach("run address")
        cx.reach(k)
    cx.check(cx.same_except(base, before, []), "data unchanged")
    cx.reach("parsed")


def anything(cx, n, kind):
    check(cx, cx.bytelist("b", n), kind)


def signed(cx, n, kind, sigs=1):
    check(cx, [255, 255] * sigs + cx.bytelist("b", n), kind)


def blocks(cx, lens, kind, tail):
    """Blocks at arbitrary addresses with arbitrary contents; the last one may
    declare any length."""
    b = [255, 255]
    for k, m in enumerate(lens):
        o = cx.int("o%d" % k, 0, 0x10000 - m)
        if cx.choose("sig%d" % k, [0, 1]):
            b += [255, 255]
        e = o + m - 1
        b += [o & 255, o >> 8, e & 255, e >> 8] + cx.bytelist("d%d_" % k, m)
    if tail == "any":
        b += cx.bytelist("t", 4) + [1, 2, 3, 4, 5]
    check(cx, b, kind)


def size(cx, m, top):
    """A block that declares any length, on a file of a fixed size."""
    o = cx.int("o", 0, 0xffff)
    e = cx.int("e", 0, 0xffff)
    cx.assume(cx.and_(e - o >= m - 3, e - o <= top))
    b = [255, 255, o & 255, o >> 8, e & 255, e >> 8] + cx.bytelist("d", m)
    check(cx, b, "plain")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p})
    for n in range(0, 15 if not T else 19):
        add("any-%d" % n, "anything", n, n=n, kind="plain")
    for n in range(1, 13 if not T else 17):
        add("sig-%d" % n, "signed", n, n=n, kind="indexed")
    for n in range(1, 7):
        add("sig2-%d" % n, "signed", n, n=n, kind="plain", sigs=2)
    for lens in [[1], [2], [3], [256], [300]] + ([[1000], [5000]] if T else []):
        add("block-%s" % lens[0], "blocks", 4, lens=lens, kind="plain", tail="any")
    for lens in [[2, 3], [2, 256]] + ([[1, 1, 1], [2, 2, 2], [128, 129, 1]] if T else []):
        add("blocks-" + "-".join(map(str, lens)), "blocks", 8, lens=lens, kind="indexed", tail="none")
    for m in [1, 2, 255, 256, 257]:
        add("size-%d" % m, "size", 4, m=m, top=m + 3)
    add("size-big", "size", 4, m=600, top=0xffff)
    return out


def REACH(tier):
    return ["parsed", "refused", "short", "part", "block", "run", "run address"]


BOUNDS = {
    "quick": "every byte sequence of up to 14 bytes; every sequence of up to 12 bytes after the signature, stored non-contiguously; files of one or two blocks of 1 to 300 bytes at every address, with optional repeated signature and an arbitrary further block header; declared lengths around and beyond the file size.",
    "thorough": "every byte sequence of up to 18 bytes, 16 after the signature; up to three blocks; blocks of up to 5000 bytes.",
}
OUTSIDE = "longer files with more than three blocks"
ASSUMPTIONS = []
