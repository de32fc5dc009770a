"""Atari boot disks made from segments."""
from .c11 import make, inside, expected, le


def check_disk(cx, image, exe, tag=""):
    """The bytes of the disk and what reading it back gives."""
    from atrcopy.kboot import KBootImage
    from atrcopy.segments import SegmentData
    n = len(exe)
    pad = (128 - n % 128) % 128
    total = 384 + n + pad
    b = image.bytes
    cx.check(len(b) == 16 + total, tag + "size of the image")
    p = total // 16
    cx.check(cx.eq(b[0:16], le(0x296) + le(p & 0xffff) + le(128) + le(p >> 16) + [0] * 8), tag + "ATR header")
    cx.check(cx.eq(b[25:28], le(n) + [0]), tag + "length recorded in the loader")
    cx.check(cx.eq(b[16 + 384:16 + 384 + n], exe), tag + "executable behind the boot sectors")
    if pad:
        cx.check(cx.eq(b[16 + 384 + n:], [0] * pad), tag + "padding")
    again = KBootImage(SegmentData(cx.mkarray(cx.lst(b))))
    # (an image object fresh from create_boot_image has not been parsed)
    for im, t in ((again, ""),):
        cx.check(len(im.files) == 1, tag + t + "one file")
        f = im.files[0]
        cx.check(f.is_sane and f.in_use and im.all_sane, tag + t + "recognised")
        cx.check(f.exe_size == n, tag + t + "length of the file")
        name = cx.plain(f.filename)
        got = im.find_file(name)
        cx.check(len(got) == n, tag + t + "size read back")
        cx.check(cx.eq(got, exe), tag + t + "bytes read back")
        seg = im.get_file_segment(f)
        cx.check(cx.eq(seg.data[:], exe), tag + t + "file segment")
        cx.check(seg.get_raw_index(0) == 400, tag + t + "place of the file")


def boot(cx, lens, kinds, run, origins=None):
    from atrcopy.kboot import KBootImage
    from atrcopy import errors
    n = cx.choose("n", lens)
    segs = [make(cx, k, m, kinds[k % len(kinds)], origins[k] if origins else None) for k, m in enumerate(n)]
    r = None
    if run == "any":
        r = cx.int("run", 0, 0xffff)
    elif run == "in":
        k = cx.choose("runseg", list(range(len(segs))))
        r = segs[k][2] + cx.int("runoff", 0, len(segs[k][1]) - 1)
    want, runad = expected(cx, segs, r)
    lst = [s for s, d, o in segs]
    before = [cx.snapshot(s.rawdata.data_base) for s in lst]
    try:
        image = KBootImage.create_boot_image(lst, r)
    except errors.InvalidBinaryFile:
        big = len(want) > 0xffff
        cx.check(cx.or_(big, cx.and_(not runad, r is not None, cx.not_(inside(cx, segs, r if r is not None else 0)))), "refused without reason")
        cx.reach("too large" if big else "refused")
        return
    cx.check(len(want) <= 0xffff, "an executable that cannot be recorded must be refused")
    if r is not None and not runad:
        cx.check(inside(cx, segs, r), "a run address outside every segment must be refused")
    check_disk(cx, image, want)
    for s, b in zip(lst, before):
        cx.check(cx.same_except(s.rawdata.data_base, b, []), "the segments are left alone")
    cx.reach("own run address" if runad else "booted")


def header(cx, sizes, user):
    """add_xexboot_header for arbitrary data, with the built-in or own boot code."""
    from atrcopy.kboot import add_xexboot_header, KBootImage, xexboot_header
    from atrcopy.ataridos import add_atr_header
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    n = cx.choose("size", sizes)
    e = cx.bytelist("e", n) if n < 2000 else [cx.byte("e0")] * 2 + [7] * (n - 4) + [cx.byte("e1")] * 2
    kw = {}
    code = list(xexboot_header)
    if user:
        m = cx.choose("codesize", [16, 384])
        code = cx.bytelist("code", m)
        # the boot code's own 24-bit count has its high byte zero
        code[11] = 0
        kw["bootcode"] = cx.mkarray(code)
    data = cx.mkarray(e)
    before = cx.snapshot(data)
    try:
        payload = add_xexboot_header(data, **kw)
    except errors.InvalidBinaryFile:
        cx.check(n > 0xffff, "refused without reason")
        cx.reach("header too large")
        return
    cx.check(n <= 0xffff, "an executable that cannot be recorded must be refused")
    cx.check(cx.same_except(data, before, []), "the executable is left alone")
    if user:
        want = code + [0] * (384 - len(code))
        want[9:11] = le(n)
        cx.check(cx.eq(payload[0:384], want), "user boot code")
        cx.reach("user code")
    else:
        # the loader itself must be unchanged up to the text lines
        cx.check(cx.eq(payload[0:9], code[0:9]), "loader before the count")
        cx.check(cx.eq(payload[11:227], code[11:227]), "loader code")
    image = KBootImage(SegmentData(add_atr_header(payload)))
    check_disk(cx, image, e)
    cx.reach("header")


def detect(cx, sizes):
    """Images whose recorded length does not match their size are refused."""
    from atrcopy.kboot import KBootImage
    from atrcopy.segments import SegmentData
    from atrcopy import errors
    body = cx.choose("body", sizes)
    total = 384 + body
    b = [0] * total
    for i in (0, 1, 2, 3, 4, 5, 9, 10, 11):
        b[i] = cx.byte("b%d" % i)
    fill = cx.byte("fill")
    for i in range(384, total):
        b[i] = fill
    count = b[9] + 256 * b[10] + 65536 * b[11]
    p = total // 16
    base = cx.mkarray(le(0x296) + le(p) + le(128) + le(0) + [0] * 8 + b)
    before = cx.snapshot(base)
    ok = cx.and_(count <= body, count >= body - 128)
    try:
        im = KBootImage(SegmentData(base))
    except errors.InvalidDiskImage:
        cx.check(cx.not_(ok), "a matching image must be recognised")
        cx.reach("not kboot")
        return
    cx.check(ok, "an image with another length must be refused")
    n = cx.concrete(count)
    got = im.find_file(cx.plain(im.files[0].filename))
    cx.check(cx.eq(got, b[384:384 + n]), "bytes of the file")
    cx.check(cx.same_except(base, before, []), "data unchanged")
    cx.reach("kboot")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p})
    near = [1, 2, 115, 116, 117, 118, 243, 244, 245, 300]
    for run in ("none", "any", "in"):
        for kind in ("plain", "slice", "indexed"):
            add("one-%s-%s" % (kind, run), "boot", 3, lens=[[k] for k in (near if kind == "plain" else [1, 116, 117])] + ([[1000], [4000]] if T else []), kinds=[kind], run=run)
        add("perm-%s" % run, "boot", 4, lens=[[5], [3, 2]], kinds=["perm", "plain"], run=run)
        add("two-%s" % run, "boot", 4, lens=[[3, 2], [100, 12], [100, 13], [50, 200]], kinds=["plain", "indexed"], run=run)
        add("three-%s" % run, "boot", 4, lens=[[2, 3, 1], [40, 40, 24], [40, 40, 25]] + ([[300, 200, 500]] if T else []), kinds=["indexed", "plain", "slice"], run=run)
    add("runad", "boot", 2, lens=[[2, 3]], kinds=["plain"], run="none", origins=[0x2e0, 0x3000])
    add("runad-given", "boot", 2, lens=[[3, 2]], kinds=["plain"], run="any", origins=[0x3000, 0x2e0])
    add("big", "big", 4, lens=[[65523], [65524], [40000, 25519], [40000, 25520], [32768, 32768, 2]])
    add("header", "header", 4, sizes=[1, 2, 127, 128, 129, 255, 256, 257, 1000] + ([5000] if T else []), user=0)
    add("header-big", "header", 4, sizes=[65407, 65408, 65409, 65535, 65536, 65537, 70000], user=0)
    add("header-user", "header", 3, sizes=[1, 128, 129], user=1)
    add("detect", "detect", 4, sizes=[128, 256, 384] + ([1024] if T else []))
    return out


def big(cx, lens):
    """Executables around the 64 KiB limit (contents mostly fixed)."""
    from atrcopy.kboot import KBootImage
    from atrcopy.segments import SegmentData, DefaultSegment
    from atrcopy import errors
    n = cx.choose("n", lens)
    segs = []
    for k, m in enumerate(n):
        d = [cx.byte("a%d" % k)] + [k + 1] * (m - 2) + [cx.byte("b%d" % k)]
        o = cx.int("o%d" % k, 0, 0x10000 - m)
        cx.assume(o != 0x2e0)
        segs.append((DefaultSegment(SegmentData(cx.mkarray(d)), o), d, o))
    want, runad = expected(cx, segs, None)
    try:
        image = KBootImage.create_boot_image([s for s, d, o in segs])
    except errors.InvalidBinaryFile:
        cx.check(len(want) > 0xffff, "refused without reason")
        cx.reach("too large")
        return
    cx.check(len(want) <= 0xffff, "an executable that cannot be recorded must be refused")
    check_disk(cx, image, want)
    cx.reach("largest")


def REACH(tier):
    return ["booted", "refused", "own run address", "too large", "largest", "header", "header too large", "user code", "kboot", "not kboot"]


BOUNDS = {
    "quick": "1 to 3 segments (contiguous, slices, non-contiguous) of total lengths on both sides of the 128-byte sector boundaries, every content, origin (0..$FFFF) and run address; executables of 65407..70000 bytes with arbitrary first and last bytes of each segment; add_xexboot_header for 9 sizes up to 1000 and around 64 KiB; recognition of images of 128, 256 and 384 payload bytes with every boot header and length field.",
    "thorough": "adds segments of 1000 and 4000 bytes, a 5000-byte executable, and recognition with 1024 payload bytes.",
}
OUTSIDE = "the 6502 loader code itself (kept as opaque bytes, except its count field); title and author text; writing further files to a boot disk"
ASSUMPTIONS = ["the executable built from the segments is that of C11"]
