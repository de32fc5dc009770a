"""Apple II boot disks made from segments."""
from . import a2
from .c11 import make


def content(cx, k, n):
    """n bytes: all arbitrary if short, else an arbitrary byte per page."""
    if n <= 600:
        return cx.bytelist("d%d_" % k, n)
    d = [(k * 16 + 5) & 255] * n
    for i in list(range(0, n, 256)) + [n - 1]:
        d[i] = cx.byte("d%d_%d" % (k, i))
    return d


def check_boot(cx, segs, r):
    """segs: (segment, bytes, origin); r: run address or None."""
    from atrcopy.standard_delivery import StandardDeliveryImage
    from atrcopy import errors
    lst = [s for s, d, o in segs]
    befores = [cx.snapshot(s.rawdata.data_base) for s in lst]
    o = [cx.concrete(x) for _, _, x in segs]
    mem, pages = {}, set()
    nsec = 1
    for (s, d, _), a in zip(segs, o):
        # $2001 and $4001 mean $2000 and $4000 without showing the screen
        a = a - 1 if a in (0x2001, 0x4001) else a
        for i, v in enumerate(d):
            mem[a + i] = v
        ps = set(range(a >> 8, (a + len(d) + 255) >> 8))
        nsec += len(ps)
        pages |= ps
    bad = 0 in pages or 8 in pages or max(pages) >= 0xc0
    try:
        im = StandardDeliveryImage.create_boot_image(lst, r)
    except (errors.AtrError, ValueError):
        # the loader has room for 121 list bytes and the disk for 560 sectors;
        # a list cannot be longer than one byte per sector and two per segment
        cx.check(bad or nsec > 560 or 2 * len(segs) + 2 + nsec > 121, "refused without reason")
        cx.reach("refused" if bad else "too many")
        return
    b = im.bytes
    cx.check(len(b) == 143360, "size of the disk")
    cx.check(nsec <= 560, "segments that do not fit must be refused")
    m = a2.Machine(lambda t, s: cx.lst(b[(t * 16 + s) * 256:(t * 16 + s + 1) * 256]), [x if isinstance(x, int) else x for x in cx.lst(b[0:256])])
    try:
        lo, hi = m.run()
    except (a2.Stuck, IndexError) as e:
        cx.fail("the loader fails: %s" % e)
        return
    if r is None:
        r = segs[0][2]
    cx.check(cx.and_(lo == (r & 255), hi == ((r >> 8) & 255)), "run address")
    cx.check(cx.lst(sorted(m.pages)) == cx.lst(sorted(pages)), "pages loaded")
    got, want = [], []
    for a in sorted(mem):
        got.append(m.pages[a >> 8][a & 255])
        want.append(mem[a])
    cx.check(cx.eq(got, want), "memory after loading")
    for s, f in zip(lst, befores):
        cx.check(cx.same_except(s.rawdata.data_base, f, []), "the segments are left alone")
    cx.reach("booted")


def boot(cx, layout, run, kinds=("plain",)):
    """layout: list of lists of (origin, size)."""
    lay = cx.choose("layout", layout)
    segs = []
    for k, (o, n) in enumerate(lay):
        kind = kinds[k % len(kinds)]
        if n <= 600:
            s, d, _ = make(cx, k, n, kind, o)
        else:
            from atrcopy.segments import SegmentData, DefaultSegment
            d = content(cx, k, n)
            s = DefaultSegment(SegmentData(cx.mkarray(d)), o)
        segs.append((s, d, o))
    check_boot(cx, segs, cx.int("run", 0, 0xffff) if run else None)


def where(cx, pages, offs, lens, run=True):
    """One segment anywhere."""
    n = cx.choose("n", lens)
    p = cx.int("page", *pages)
    o = p * 256 + (cx.choose("off", offs) if isinstance(offs, list) else cx.int("off", *offs))
    cx.assume(o + n <= 0x10000)
    s, d, _ = make(cx, 0, n, "plain", o)
    check_boot(cx, [(s, d, o)], cx.int("run", 0, 0xffff) if run else None)


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 9000, "fuel": 40000000})
    step = 16 if T else 32
    for lo in range(0, 256, step):
        add("pages-%02x" % lo, "where", 6, pages=[lo, lo + step - 1], offs=[0, 1, 255] if T else [0, 255], lens=[1, 257] if not T else [1, 2, 256, 257])
        add("edge-%02x" % lo, "where", 6, pages=[lo, lo + step - 1], offs=[1], lens=[256])
    for p in (0x07, 0x20, 0x40, 0x60, 0xbf):
        add("offset-%02x" % p, "where", 6, pages=[p, p], offs=(0, 255), lens=[2] + ([255, 256, 300] if T else []))
    runs = [2, 3, 4, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 96, 100]
    for start in (0x0900, 0x2000, 0x2001, 0x4000, 0x6000) + ((0x2100, 0x3f00, 0x4001, 0x5fff) if T else ()):
        add("length-%04x" % start, "boot", 5, layout=[[(start, 256 * k)] for k in runs if (start >> 8) + k <= 0xc0] + [[(start + 7, 256 * k - 9)] for k in (2, 3, 32, 33, 35)], run=1)
    add("hgr", "boot", 6, run=1, layout=[[(0x2000, 0x2000), (0x2000, 0x2000)], [(0x2000, 0x2000), (0x4000, 0x2000), (0x2000, 0x2000)], [(0x2001, 0x2000), (0x2000, 0x2000)], [(0x4000, 0x2000), (0x2000, 0x2000), (0x6000, 300)],
                                        [(0x2000, 0x1f00), (0x2000, 0x2000)], [(0x1f00, 0x2100)], [(0x2000, 0x1f01)], [(0x2000, 0x1ff8), (0x6000, 5), (0x4001, 0x1ff8)]])
    add("two", "boot", 4, run=1, kinds=["plain", "indexed"], layout=[
        [(0x6000, 10), (0x600a, 10)], [(0x6000, 10), (0x6014, 10)], [(0x6020, 10), (0x6000, 10)], [(0x6000, 10), (0x6005, 10)], [(0x6005, 10), (0x6000, 10)],
        [(0x6000, 300), (0x612c, 300)], [(0x6100, 300), (0x60f0, 20)], [(0x6000, 100), (0x8000, 100)], [(0x8000, 100), (0x6000, 300)], [(0x60ff, 2), (0x6100, 1)], [(0x6100, 256), (0x60ff, 2)], [(0x07f0, 16), (0x0900, 1)]])
    add("three", "boot", 4, run=1, kinds=["slice", "plain", "indexed"], layout=[
        [(0x6000, 10), (0x6020, 10), (0x6010, 10)], [(0x6000, 600), (0x7000, 10), (0x6100, 256)], [(0x2000, 10), (0x4000, 10), (0x2020, 10)], [(0xbf00, 256), (0x0200, 100), (0x0900, 300)], [(0x2001, 10), (0x4001, 10), (0x2100, 5)]])
    add("perm", "boot", 3, run=1, kinds=["perm", "plain"], layout=[[(0x6000, 10)], [(0x6005, 10), (0x6100, 3)]])
    add("norun", "boot", 3, run=0, layout=[[(0x6123, 10)], [(0x8000, 300), (0x6000, 10)], [(0x2001, 10)], [(0x0300, 10), (0x1000, 10)]])
    add("bad", "boot", 2, run=1, layout=[[(0x0000, 1)], [(0x00ff, 2)], [(0x0800, 1)], [(0x07ff, 2)], [(0x0700, 0x300)], [(0xc000, 1)], [(0xbfff, 2)], [(0xd100, 256)], [(0xe500, 256)], [(0x6000, 5), (0xc054, 2)], [(0xff00, 256)]])
    full = [(0x0900, 0xb700)] * 3
    add("full", "boot", 9, run=1, layout=[full, full + [(0x6000, 0xa00)], full + [(0x6000, 0xa01)], full + [(0x6000, 0x2000)]])
    add("list", "boot", 9, run=1, layout=[[(0x900 + 512 * k, 2) for k in range(m)] for m in (40, 55)] + [[(0x900 + 768 * (k % 60), 2) for k in range(m)] for m in (100, 119, 120, 121)] + [[(0x900 + 1024 * (k % 40), 600) for k in range(m)] for m in (30, 59, 60, 61)])
    return out


def REACH(tier):
    return ["booted", "refused", "too many"]


BOUNDS = {
    "quick": "one segment in every page 0..255 at offsets 0 and 255 with 1 or 257 bytes and at offset 1 with 256; every offset in 5 pages; sizes of 2..100 pages around the 32-page run limit from 5 start addresses; 2 and 3 segments sharing, adjoining or overlapping pages; hi-res screen sequences; disks of 550 to 580 sectors and lists of up to 121 entries. Every content (segments above 600 bytes: an arbitrary byte per page) and every run address.",
    "thorough": "every page with 3 offsets and 4 lengths, every offset in 5 pages with 4 lengths, 9 start addresses.",
}
OUTSIDE = "pages 1 and 3, which the boot ROM itself uses while loading; what the screen shows while loading; assembly of the loader"
ASSUMPTIONS = ["the boot ROM's read routine and two monitor routines behave as documented (modelled in harness/a2.py, which runs the 6502 code found in the boot sector)",
               "where segments overlap, the later one in the list wins", "origins $2001 and $4001 stand for $2000 and $4000 without display (a convention of the tool)"]
