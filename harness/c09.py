"""Damaged images: every operation ends, in success or one of the package's
own errors."""
from . import fs as F


def cls_of(name):
    from atrcopy import ataridos, dos33, kboot, spartados
    for m in (ataridos, dos33, kboot, spartados):
        if hasattr(m, name):
            return getattr(m, name)


def probe(cx, name, img, segments=True, reads=True, twice=False):
    """Open, list, read everything, enumerate segments."""
    from atrcopy import errors
    from atrcopy.segments import SegmentData
    before = cx.snapshot(img)
    size = len(img)
    try:
        image = cls_of(name)(SegmentData(img))
    except errors.AtrError:
        cx.reach("refused")
        cx.check(cx.same_except(img, before, []), "opening leaves the image alone")
        return None
    cx.reach("opened")
    str(image)
    for f in image.files:
        str(f)
        if reads:
            try:
                seg = image.get_file_segment(f)
                n = len(seg)
                data = image.get_file(f)
                cx.check(len(data) == n, "length of the data")
                if n:
                    for i in (0, n - 1):
                        r = seg.get_raw_index(i)
                        cx.check(cx.and_(r >= 0, r < size), "bytes come from inside the image")
                cx.reach("read")
            except errors.AtrError:
                cx.reach("read refused")
    if segments:
        try:
            image.parse_segments()
            for s in image.segments:
                str(s)
            cx.reach("segments")
        except errors.AtrError:
            cx.reach("segments refused")
    cx.check(cx.same_except(image.bytes, before, []), "reading leaves the image alone")
    return image


def blank(cx, geo, files=True):
    d = F.Disk(cx, geo)
    fs = d.fs
    if files:
        if fs.kind == "atari":
            d.add(0, "A.B", [4, 5, 6], [1] * (2 * fs.payload + 9))
            d.add(1, "B", [fs.nsec if fs.nsec <= 720 else 700], [2, 3])
        else:
            d.add(0, "A", [48, 49, 50], [1] * 300)
            d.add(1, "B", [559, 558], [2, 3])
    fs.fix_count(cx, d.img)
    return d, fs, d.img


# ---------------------------------------------------------------- Atari DOS
def atr_header(cx, geo, classes, secsizes):
    d, fs, img = blank(cx, geo)
    c = cx.choose("class", classes)
    ss = cx.choose("secsize", secsizes)
    b = cx.bytelist("h", 16)
    if ss is not None:
        b[4], b[5] = ss & 255, ss >> 8
    img[0:16] = cx.mkarray(b)
    probe(cx, c, img, reads=False)


def atari_vtoc(cx, geo):
    d, fs, img = blank(cx, geo)
    p, n = fs.pos(360)
    img[p:p + 20] = cx.mkarray(cx.bytelist("v", 20))
    probe(cx, "AtariDosDiskImage", img, reads=False)


def atari_entry(cx, geo, slot, starts):
    """A directory entry with arbitrary flags, count and name, and one of
    several starting sectors."""
    d, fs, img = blank(cx, geo)
    e = cx.bytelist("e", 5) + F.asc("NAME   BEXT")
    st = cx.choose("start", starts)
    e[3], e[4] = st & 255, st >> 8
    p = fs.slot_pos(slot)
    img[p:p + 16] = cx.mkarray(e)
    probe(cx, "AtariDosDiskImage", img)


def atari_start(cx, geo):
    d, fs, img = blank(cx, geo)
    p = fs.slot_pos(1)
    img[p + 3:p + 5] = cx.mkarray(cx.bytelist("s", 2))
    probe(cx, "AtariDosDiskImage", img, reads=False, segments=False)


def atari_links(cx, geo, secs, flag, free=0, some=0):
    """Arbitrary links in some sectors of a chain, others fixed."""
    d, fs, img = blank(cx, geo)
    fs.put_entry(cx, img, 0, flag, cx.int("count", 0, 720), secs[0], F.asc("A"), [])
    for k, s in enumerate(secs):
        p, n = fs.pos(s)
        if k and some:
            nxt = cx.int("next%d" % s, 0, 1023)
            cx.assume(cx.any(nxt == v for v in [0, 4, 5, 6, 720, 721]))
            hi, lo = nxt >> 8, nxt & 255
        else:
            hi = cx.byte("hi%d" % s)
            lo = cx.byte("lo%d" % s)
        if not free:
            # the file number is the right one, so that the chain is followed
            cx.assume((hi >> 2) == 0)
        if flag == 0x46:
            cx.assume(hi < 4)
        img[p + n - 3] = hi
        img[p + n - 2] = lo
        img[p + n - 1] = 10 + k
    probe(cx, "AtariDosDiskImage", img, segments=False)


def atari_counts(cx, geo, secs, flag):
    """Arbitrary byte counts."""
    d, fs, img = blank(cx, geo, False)
    s = cx.choose("sector", secs)
    p, n = fs.pos(s)
    fs.put_entry(cx, img, 0, flag, cx.int("size", 0, 720), s, F.asc("A"), [])
    img[p + n - 3:p + n] = cx.mkarray([0, 0, cx.byte("count")])
    probe(cx, "AtariDosDiskImage", img)


def boot_disk(cx, geo, cls, nsecs):
    d, fs, img = blank(cx, geo)
    p, n = fs.pos(1)
    b = cx.bytelist("b", 6)
    k = cx.choose("n", nsecs)
    if k is not None:
        b[1] = k
    if p == 0:
        cx.assume(cx.not_(cx.and_(b[0] == 0x96, b[1] == 2)))
    img[p:p + 6] = cx.mkarray(b)
    probe(cx, cls, img)


def small(cx, classes, sizes, header):
    """Images of unusual, mostly tiny, sizes with arbitrary beginnings."""
    import numpy as np
    c = cx.choose("class", classes)
    n = cx.choose("size", sizes)
    img = np.zeros(n, dtype=np.uint8)
    h = cx.bytelist("h", min(n, 34))
    if header and n >= 8:
        h[0:8] = [0x96, 2, 0, 0, cx.choose("ss", [0, 1, 2, 128, 256]), cx.choose("sh", [0, 1]), 0, 0]
    elif n >= 2:
        cx.assume(cx.not_(cx.and_(h[0] == 0x96, h[1] == 2)))
    if c == "SpartaDosDiskImage" and n > 17:
        # sector numbers of the root directory and the bitmap, sector size
        o = 16 if header else 0
        for k, vals in ((9, [0, 1, 3, 255] if header else [0, 2, 3, 255]), (10, [0, 255]), (15, [0, 1, 255]), (16, [4]), (17, [0]), (31, [0, 1, 0x80, 0xff])):
            if k + o < len(h):
                h[k + o] = cx.choose("sp%d" % k, vals)
    img[0:len(h)] = cx.mkarray(h)
    probe(cx, c, img)


def kboot(cx, size, secsize):
    import numpy as np
    img = np.zeros(size, dtype=np.uint8)
    img[0:16] = cx.mkarray([0x96, 2, 0, 0, secsize & 255, secsize >> 8] + [0] * 10)
    img[16 + 9:16 + 12] = cx.mkarray(cx.bytelist("n", 3))
    image = probe(cx, "KBootImage", img, reads=False)
    if image is not None:
        f = image.files[0]
        n = f.exe_size
        cx.check(cx.and_(f.exe_start >= 0, f.exe_start + n <= size), "executable lies inside the image")


# ------------------------------------------------------------------ DOS 3.3
def dos_vtoc(cx, fields):
    d, fs, img = blank(cx, "dos33")
    v = 272 * 256
    for k in fields:
        img[v + k] = cx.choose("v1", [0, 17, 34, 35, 128]) if k == 1 else cx.byte("v%x" % k)
    probe(cx, "Dos33DiskImage", img)


def dos_tracks(cx, where):
    """VTOC that claims more sectors than there are, and a link to one."""
    d, fs, img = blank(cx, "dos33")
    v = 272 * 256
    img[v + 0x34] = cx.choose("tracks", [35, 36, 50, 255])
    img[v + 0x35] = cx.choose("sectors", [13, 16, 32, 255])
    at = {"vtoc": v + 1, "catalog": 287 * 256 + 1, "entry": fs.slot_pos(1), "link": 48 * 256 + 1, "pair": 48 * 256 + 12}[where]
    img[at] = cx.choose("t", [34, 35, 36, 254])
    img[at + 1] = cx.choose("s", [0, 15, 16])
    probe(cx, "Dos33DiskImage", img)


def dos_boot(cx):
    d, fs, img = blank(cx, "dos33")
    img[0:4] = cx.mkarray(cx.bytelist("b", 4))
    img[(272 + 14) * 256 + 2] = cx.byte("swap")
    c = cx.choose("class", ["Dos33DiskImage", "ProdosDiskImage"])
    probe(cx, c, img, reads=False)


def dos_catalog(cx, secs, sectors):
    """Arbitrary links between catalog sectors."""
    d, fs, img = blank(cx, "dos33")
    for s in secs:
        img[s * 256 + 1] = cx.choose("t%d" % s, [0, 3, 16, 17, 18, 34, 35, 255])
        img[s * 256 + 2] = cx.int("s%d" % s, 0, sectors)
    probe(cx, "Dos33DiskImage", img, reads=False)


def dos_entry(cx, tracks, sectors):
    d, fs, img = blank(cx, "dos33")
    e = cx.bytelist("e", 3) + [c | 0x80 for c in F.asc("SOME NAME" + " " * 21)] + [0, 0]
    e[0] = cx.choose("track", tracks)
    e[1] = cx.choose("sector", sectors)
    e[2] = cx.choose("type", [0x84, 0x7f])
    n = cx.choose("count", [0, 1, 3, 561])
    e[33], e[34] = n & 255, n >> 8
    p = fs.slot_pos(1)
    img[p:p + 35] = cx.mkarray(e)
    probe(cx, "Dos33DiskImage", img)


def dos_tslist(cx, counts, tracks):
    """Arbitrary link and first entries of a track/sector list."""
    d, fs, img = blank(cx, "dos33")
    p = 48 * 256
    n = cx.choose("count", counts)
    e = fs.slot_pos(0)
    img[e + 33:e + 35] = cx.mkarray([n & 255, n >> 8])
    which = cx.choose("which", [1, 12, 14])
    img[p + which] = cx.choose("t", tracks)
    img[p + which + 1] = cx.int("s", 0, 31) if len(tracks) > 6 else cx.choose("s", [0, 1, 15, 16])
    probe(cx, "Dos33DiskImage", img, segments=False)


def dos_tsloop(cx, secs):
    """Track/sector lists that may link to each other in any way."""
    d, fs, img = blank(cx, "dos33", False)
    for s in secs:
        p = s * 256
        img[p + 1] = cx.choose("t%d" % s, sorted(set(x // 16 for x in secs)) + [0, 35])
        img[p + 2] = cx.int("s%d" % s, 0, 3)
        img[p + 12] = 20
    fs.put_entry(cx, img, 0, secs[0] // 16, secs[0] % 16, 4, F.asc("LOOP"), 250)
    probe(cx, "Dos33DiskImage", img)


# ----------------------------------------------------------------- SpartaDOS
def sparta_disk(cx):
    import numpy as np
    img = np.zeros(16 + 92160, dtype=np.uint8)
    img[0:16] = cx.mkarray([0x96, 2, 0x80, 0x16, 0x80] + [0] * 11)
    boot = [0, 3, 0, 0x30, 0, 0x30, 0x4c, 0x80, 0x30, 5, 0, 0xd0, 2, 0xbb, 2, 1, 4, 0, 9, 0, 9, 0] + F.asc("VOLUME  ") + [40, 0x80, 0x20]
    img[16:16 + len(boot)] = cx.mkarray(boot)

    def sec(s):
        return 16 + (s - 1) * 128
    m = sec(5)
    img[m + 4] = 6
    dd = [0x28, 0, 0, 69, 0, 0] + F.asc("MAIN       ") + [1, 1, 90, 12, 0, 0]
    d1 = [0x08, 7, 0, 130, 0, 0] + F.asc("FILE    TXT") + [1, 1, 90, 12, 0, 0]
    d2 = [0x08, 10, 0, 5, 0, 0] + F.asc("B       C  ") + [1, 1, 90, 12, 0, 0]
    img[sec(6):sec(6) + 69] = cx.mkarray(dd + d1 + d2)
    img[sec(7) + 4] = 8
    img[sec(7) + 6] = 9
    img[sec(10) + 4] = 11
    img[sec(8):sec(8) + 128] = 65
    img[sec(9):sec(9) + 2] = 66
    img[sec(11):sec(11) + 5] = 67
    return img, sec


def sparta_boot(cx, fields, fixed=()):
    img, sec = sparta_disk(cx)
    for k, v in fixed:
        img[16 + k] = v
    for k in fields:
        img[16 + k] = cx.byte("b%d" % k)
    probe(cx, "SpartaDosDiskImage", img)


def sparta_map(cx, sector, offs, hi):
    """Arbitrary entries of a sector map (links included)."""
    img, sec = sparta_disk(cx)
    for o in offs:
        img[sec(sector) + o] = cx.byte("lo%d" % o)
        img[sec(sector) + o + 1] = cx.choose("hi%d" % o, hi)
    probe(cx, "SpartaDosDiskImage", img)


def sparta_entry(cx, index, lens, starts):
    img, sec = sparta_disk(cx)
    e = cx.bytelist("e", 6) + F.asc("NAME    XYZ") + cx.bytelist("t", 6)
    n = cx.choose("len", lens)
    e[3:6] = [n & 255, (n >> 8) & 255, n >> 16]
    s = cx.choose("start", starts)
    e[1:3] = [s & 255, s >> 8]
    p = sec(6) + 23 * index
    img[p:p + 23] = cx.mkarray(e)
    probe(cx, "SpartaDosDiskImage", img)


def unusual(cx, cls, size, secsizes):
    """Sound disks except for the sector size their ATR header declares."""
    import numpy as np
    ss = cx.choose("secsize", secsizes)
    img = np.zeros(16 + size, dtype=np.uint8)
    img[0:16] = cx.mkarray([0x96, 2, (size // 16) & 255, (size // 16) >> 8 & 255, ss & 255, ss >> 8, size >> 20] + [0] * 9)
    nsec = size // ss if ss else 0
    at = lambda n: 16 + (n - 1) * ss
    if cls == "SpartaDosDiskImage":
        boot = [0, 3, 0, 0x30, 0, 0x30, 0x4c, 0x80, 0x30, 5, 0, nsec & 255, nsec >> 8, 9, 0, 1, 4, 0, 9, 0, 9, 0] + F.asc("VOLUME  ") + [40, cx.choose("ssb", [0, 1, 0x80]), 0x20]
        img[16:16 + len(boot)] = cx.mkarray(boot)
        if ss >= 128:
            img[at(5):at(5) + 8] = cx.mkarray([0, 0, 0, 0, 6, 0, 0, cx.choose("m", [0, 255])])
            dd = [0x28, 0, 0, 46, 0, 0] + F.asc("MAIN       ") + [1, 1, 90, 12, 0, 0]
            d1 = [0x08, 7, 0] + [cx.byte("n"), 1, 0] + F.asc("FILE    TXT") + [1, 1, 90, 12, 0, 0]
            img[at(6):at(6) + 46] = cx.mkarray(dd + d1)
            img[at(7) + 4] = cx.choose("first", [0, 8, 255])
    elif cls == "AtariDosDiskImage":
        if ss >= 128 and nsec > 368:
            img[at(360)] = cx.byte("code")
            img[at(361):at(361) + 16] = cx.mkarray([0x42, 1, 0, 4, 0] + F.asc("NAME    XYZ"))
            img[at(4) + ss - 3:at(5)] = cx.mkarray([0, 0, cx.choose("n", [0, 1, 125, 126, 253, 254, 255])])
    else:
        img[16:16 + 34] = cx.mkarray([cx.choose("n", [0, 1, 3, 255]) if i == 1 else cx.byte("b%d" % i) if i < 4 or i in (10, 11) else 0 for i in range(34)])
    probe(cx, cls, img, reads=cls in ("AtariDosDiskImage", "SpartaDosDiskImage"))
    cx.reach("unusual")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "fuel": 200000})
    atari = ["AtariDosDiskImage", "SpartaDosDiskImage", "KBootImage", "BootDiskImage", "AtariDiskImage"]
    for geo in ["sd", "dd", "ed"] + (["dd2"] if T else []):
        add("header-%s" % geo, "atr_header", 4, geo=geo, classes=atari,
            secsizes=[0, 127, 128, 256, 65535] if geo == "ed" else [None])
    odd = [0, 1, 127, 128, 129, 130, 131, 255, 256, 257, 384, 512, 513, 1023, 1024, 4096, 65535]
    for c in atari:
        size = 16384 if c in ("SpartaDosDiskImage", "KBootImage") else 122880
        add("unusual-%s" % c, "unusual", 6, cls=c, size=size, secsizes=odd if T else odd[:14])
    add("unusual-ed", "unusual", 6, cls="AtariDosDiskImage", size=133120, secsizes=odd if T else odd[3:9])
    for geo in ["sd", "dd", "ed", "sdx"] + (["ddx", "edx", "dd2", "dd2x"] if T else []):
        last = F.make(geo).nsec
        add("vtoc-%s" % geo, "atari_vtoc", 5, geo=geo)
        for slot in ([0, 1, 2, 63] if T else [0, 2] if geo == "sd" else [1]):
            add("entry%d-%s" % (slot, geo), "atari_entry", 4, geo=geo, slot=slot, starts=[0, 1, 4, 6, 360, last, last + 1, 65535])
        add("start-%s" % geo, "atari_start", geo=geo)
        add("counts-%s" % geo, "atari_counts", 8, geo=geo, secs=[1, 4, last - 1, last] if T else [4, last], flag=0x42)
        add("counts-mydos-%s" % geo, "atari_counts", 8, geo=geo, secs=[last], flag=0x46)
        if geo == "sd" or T:
            add("links-%s" % geo, "atari_links", 9, geo=geo, secs=[4, 5], flag=0x42, some=not T)
            add("links-free-%s" % geo, "atari_links", 9, geo=geo, secs=[4], flag=0x42, free=1)
            add("links-mydos-%s" % geo, "atari_links", 9, geo=geo, secs=[4, 5], flag=0x46, some=not T)
    for geo in ["sd", "ed", "ddx"]:
        for c in ["BootDiskImage", "AtariDiskImage"]:
            add("boot-%s-%s" % (c, geo), "boot_disk", 5, geo=geo, cls=c, nsecs=[None] if T else [0, 1, 2, 3, 4, 100, 255])
    for h in (0, 1):
        for k in range(5):
            add("small-%d-%s" % (h, atari[k]), "small", 8, classes=[atari[k]], sizes=[0, 1, 2, 8, 15, 16, 17, 20, 22, 30, 128, 144, 400, 401, 528], header=h)
    add("small-apple", "small", 2, classes=["Dos33DiskImage", "ProdosDiskImage"], sizes=[0, 1, 256, 143359, 143361], header=0)
    for size in [16 + 384 + 128, 16 + 384 + 1000, 16 + 70000] + ([92176] if T else []):
        add("kboot-%d" % size, "kboot", 3, size=size, secsize=128)
    add("dos-vtoc-cat", "dos_vtoc", 6, fields=[1, 2])
    add("dos-vtoc-size", "dos_vtoc", 6, fields=[3, 0x27, 0x30, 0x31, 0x36, 0x37])
    add("dos-vtoc-tracks", "dos_vtoc", 6, fields=[0x34, 0x35])
    for w in ["vtoc", "catalog", "entry", "link", "pair"]:
        add("dos-tracks-%s" % w, "dos_tracks", 6, where=w)
    add("dos-boot", "dos_boot", 2)
    add("dos-catalog-1", "dos_catalog", 6, secs=[287], sectors=31)
    add("dos-catalog-2", "dos_catalog", 8, secs=[286, 281], sectors=15 if T else 3)
    for t in [[0, 1], [17, 34], [35, 128], [254, 255]]:
        add("dos-entry-%d" % t[0], "dos_entry", 8, tracks=t, sectors=list(range(17)) + [255] if T else [0, 3, 15, 16])
    add("dos-ts", "dos_tslist", 20, counts=[0, 1, 2, 3, 4, 130] if T else [0, 3, 130], tracks=list(range(36)) + [255] if T else [0, 3, 34, 35])
    add("dos-tsloop", "dos_tsloop", 20, secs=[321, 322, 49] if T else [321, 49])
    add("sparta-boot-a", "sparta_boot", 6, fields=[0, 1, 2, 3, 4, 5])
    for n in [0, 1, 3, 255] if T else [1, 255]:
        add("sparta-boot-bitmap-%d" % n, "sparta_boot", 6, fields=[16, 17], fixed=[[15, n]])
    add("sparta-boot-b", "sparta_boot", 6, fields=[9, 10, 11, 12, 13, 14])
    add("sparta-boot-c", "sparta_boot", 6, fields=[18, 19, 20, 21, 30, 31, 32])
    for s in (5, 7):
        add("sparta-map%d-link" % s, "sparta_map", 6, sector=s, offs=[0], hi=[0, 1, 2, 3, 255])
        add("sparta-map%d-data" % s, "sparta_map", 6, sector=s, offs=[4], hi=[0, 1, 2, 3, 255])
    for i in (0, 1, 2):
        add("sparta-entry%d" % i, "sparta_entry", 6, index=i, lens=[0, 1, 22, 23, 24, 69, 70, 128, 129, 70000, 0xffffff], starts=[0, 5, 7, 12, 720, 721, 65535])
    return out


def REACH(tier):
    return ["opened", "refused", "read", "read refused", "segments", "segments refused", "unusual"]


BOUNDS = {
    "quick": "one damaged structure at a time on an otherwise sound disk: all 2^128 ATR headers (sector size field from 8 values on enhanced density); first 20 bytes of the Atari VTOC; whole directory entries (starting sector from 8 values, or arbitrary); arbitrary links in two chained sectors; arbitrary byte counts; boot records; images of 0 to 528 bytes with arbitrary first 34 bytes; DOS 3.3 VTOC fields, catalog links, catalog entries, track/sector lists and their links; SpartaDOS boot record fields, sector maps, directory entries; KBoot length field; disks of all these kinds with 14 declared sector sizes, usual or not.",
    "thorough": "as quick, more geometries, boot sector counts arbitrary, wider link ranges.",
}
OUTSIDE = "several damaged structures at once beyond those listed; damaged cartridge and executable files (C12, C20); compressed containers (C24)"
ASSUMPTIONS = ["termination: no loop runs more than 200000 iterations, and the replay of any longer run does not end within 20 s"]
