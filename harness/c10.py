"""Reading files laid out by an independent writer of the disk formats."""
from . import fs as F


def same_segment(cx, image, dirent, img, positions, data):
    """The file's segment consists of exactly those positions of the image."""
    from atrcopy import errors
    seg = image.get_file_segment(dirent)
    cx.check(len(seg) == len(data), "length of the file segment")
    if not data:
        return
    cx.check(cx.eq(seg.data[:], data), "bytes of the file segment")
    n = len(positions)
    for i in sorted(set([0, 1, n // 2, n - 1])):
        if 0 <= i < n:
            cx.check(seg.get_raw_index(i) == positions[i], "segment position in the image")


def atari_positions(fs, secs, lens):
    out = []
    for s, k in zip(secs, lens):
        p, _ = fs.pos(s)
        out.extend(range(p, p + k))
    return out


def mydos_links(cx, fs, img, secs):
    for k, s in enumerate(secs):
        p, n = fs.pos(s)
        nxt = secs[k + 1] if k + 1 < len(secs) else 0
        img[p + n - 3] = nxt >> 8
        img[p + n - 2] = nxt & 255


def check_read(cx, d, slot, name, secs, lens, data):
    fs, img = d.fs, d.img
    image = d.done()
    before = cx.snapshot(img)
    got = image.find_file(name)
    cx.check(len(got) == len(data), "length of the file")
    cx.check(cx.eq(got, data), "contents of the file")
    dirent = image.find_dirent(name)
    cx.check(cx.eq(image.get_file(dirent), data), "contents by directory entry")
    pos = atari_positions(fs, secs, lens) if fs.kind == "atari" else [p for s in secs for p in range(s * 256, s * 256 + 256)]
    same_segment(cx, image, dirent, img, pos, data)
    cx.check(cx.same_except(image.bytes, before, []), "reading changes nothing")
    return image


def atari_counts(cx, geo, secs, at, others, flag, slot, lo=0, hi=255):
    """A chain in which one sector declares any number of bytes."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    lens = [min(o, fs.payload) for o in others]
    k = cx.concrete(cx.int("count", max(lo, 0), min(hi, fs.payload)))
    lens.insert(at, k)
    data = cx.bytelist("d", sum(lens))
    d.add(slot, "DATA.BIN", secs, data, lens=lens, flag=flag)
    if flag & 4:
        mydos_links(cx, fs, d.img, secs)
    for k in range(slot):
        d.add_deleted(k, "OLD%d" % k)
    check_read(cx, d, slot, "DATA.BIN", secs, lens, data)
    cx.reach("mydos" if flag & 4 else "dos2")


def atari_order(cx, geo, pool, n, flag, slot):
    """Every order of n different sectors from a pool."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    pool = [s for s in pool if s <= fs.nsec]
    secs = []
    for k in range(n):
        secs.append(cx.choose("s%d" % k, [s for s in pool if s not in secs]))
    lens = [fs.payload if k < n - 1 else 17 for k in range(n)]
    data = cx.bytelist("d", sum(lens))
    big = [s for s in secs if s > 719]
    for s in pool:
        if s not in secs:
            p, m = fs.pos(s)
            d.img[p:p + m] = 0xaa
    base = [s for s in secs]
    d.fs.set_bit, keep = (lambda *a: None) if big else d.fs.set_bit, None
    d.add(slot, "DATA.BIN", base, data, lens=lens, flag=flag)
    if flag & 4:
        mydos_links(cx, fs, d.img, secs)
    for k in range(slot):
        d.add_deleted(k, "OLD%d" % k)
    check_read(cx, d, slot, "DATA.BIN", secs, lens, data)
    cx.reach("order")


def atari_long(cx, geo, n, step, last, flag):
    """A long chain, not in sector order, with arbitrary contents."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    u = fs.usable()
    secs = [u[(5 + k * step) % len(u)] for k in range(n)]
    assert len(set(secs)) == n
    lens = [fs.payload] * (n - 1) + [last]
    m = sum(lens)
    sym = set(list(range(0, m, 97)) + [0, m - 1] + [k * fs.payload for k in range(n)])
    data = [cx.byte("d%d" % i) if i in sym and i < m else (i * 7) & 255 for i in range(m)]
    d.add(0, "LONG", secs, data, lens=lens, flag=flag)
    if flag & 4:
        mydos_links(cx, fs, d.img, secs)
    check_read(cx, d, 0, "LONG", secs, lens, data)
    cx.reach("long")


def atari_fileno(cx, geo, slot, n, which):
    """A sector owned by another file is an error; one of the same file is not."""
    from atrcopy import errors
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    secs = [10, 300, 7][:n]
    data = cx.bytelist("d", 40)
    lens = [20, 10, 10][:n]
    d.add(slot, "DATA", secs, data[:sum(lens)], lens=lens)
    for k in range(slot):
        d.add_deleted(k, "OLD%d" % k)
    fno = cx.int("fileno", 0, 63)
    p, m = fs.pos(secs[which])
    nxt = secs[which + 1] if which + 1 < n else 0
    d.img[p + m - 3] = (fno << 2) | (nxt >> 8)
    image = d.done()
    try:
        got = image.find_file("DATA")
        cx.check(fno == slot, "a sector of another file must not be read")
        cx.check(cx.eq(got, data[:sum(lens)]), "contents")
        cx.reach("own sector")
    except errors.FileNumberMismatchError164:
        cx.check(fno != slot, "a sector of this file must be read")
        cx.reach("foreign sector")


def atari_toomany(cx, geo, flag, n, which):
    """A sector that claims more bytes than it can hold is an error."""
    from atrcopy import errors
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    secs = [10, 300, 7][:n]
    lens = [20, 10, 10][:n]
    data = cx.bytelist("d", 40)[:sum(lens)]
    d.add(0, "DATA", secs, data, lens=lens, flag=flag)
    if flag & 4:
        mydos_links(cx, fs, d.img, secs)
    p, m = fs.pos(secs[which])
    count = cx.int("count", fs.payload - 1, 255)
    d.img[p + m - 1] = count
    image = d.done()
    try:
        got = image.find_file("DATA")
    except errors.AtrError:
        cx.check(count > fs.payload, "a sector that is not overfull is read")
        cx.reach("overfull sector")
        return
    cx.check(count <= fs.payload, "a byte count beyond the sector's data is an error")
    cx.check(len(got) == sum(lens) - lens[which] + count, "exactly the bytes each sector declares")


def atari_flags(cx, geo, slot, mydos):
    """Flags other than MyDOS and in-use do not affect what is read; MyDOS
    files use the link's two full bytes and have no file number."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    flag = cx.byte("flag")
    cx.assume((flag & 0x44) == 0x40 | mydos)
    secs, lens = [4, 515, 5], [fs.payload, 1, 60]
    data = cx.bytelist("d", sum(lens))
    for k in range(slot):
        d.add_deleted(k, "OLD%d" % k)
    d.add(slot, "DATA.X", secs, data, lens=lens)
    d.img[fs.slot_pos(slot)] = flag
    if mydos:
        mydos_links(cx, fs, d.img, secs)
    check_read(cx, d, slot, "DATA.X", secs, lens, data)
    cx.reach("flags")


def atari_two(cx, geo):
    """Two files with interleaved sectors."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    a = cx.bytelist("a", 2 * fs.payload + 5)
    b = cx.bytelist("b", fs.payload + 50)
    d.add(0, "A", [4, 6, 8], a)
    d.add(1, "B", [5, 7], b)
    d.add(2, "C", [9], [], lens=[0])
    image = check_read(cx, d, 0, "A", [4, 6, 8], [fs.payload, fs.payload, 5], a)
    cx.check(cx.eq(image.find_file("B"), b), "second file")
    cx.check(len(image.find_file("C")) == 0, "empty file")
    image.parse_segments()
    segs = [s for s in image.segments if s.name and (s.name.startswith("A 3s@4") or s.name.startswith("B 2s@5"))]
    cx.check(len(segs) == 2, "file segments listed")
    for s, want in zip(segs, (a, b)):
        cx.check(cx.eq(s.data[:], want), "bytes of listed file segment")
    cx.reach("two files")


def dos_order(cx, pool, n):
    d = F.populate(cx, "dos33", "empty")
    secs = []
    for k in range(n):
        secs.append(cx.choose("s%d" % k, [s for s in pool if s not in secs]))
    for s in pool:
        d.img[s * 256:s * 256 + 256] = 0xaa
    data = cx.bytelist("d", 256 * (n - 1))
    d.add(0, "DATA", secs, data)
    check_read(cx, d, 0, "DATA", secs[1:], None, data)
    cx.reach("dos order")


def dos_long(cx, n, types, step):
    """n data sectors, one or more track/sector lists."""
    d = F.populate(cx, "dos33", "empty")
    fs = d.fs
    u = [s for s in fs.usable()]
    nts = (n + 121) // 122
    secs = [u[(5 + k * step) % len(u)] for k in range(n + nts)]
    assert len(set(secs)) == n + nts
    m = 256 * n
    sym = set(list(range(0, m, 256)) + [m - 1])
    data = [cx.byte("d%d" % i) if i in sym else (i * 7) & 255 for i in range(m)]
    typ = cx.choose("type", types)
    d.add(0, "LONG FILE", secs, data, flag=typ)
    # the volume and reserved bytes of the lists mean nothing
    for k in range(nts):
        p = secs[k] * 256
        d.img[p] = cx.byte("r%d" % k)
        d.img[p + 3:p + 5] = cx.mkarray(cx.bytelist("q%d" % k, 2))
        d.img[p + 7:p + 12] = cx.mkarray(cx.bytelist("x%d" % k, 5))
    check_read(cx, d, 0, "LONG FILE", secs[nts:], None, data)
    cx.reach("dos long")


def dos_unused(cx):
    """Entries after the recorded number of sectors are not read."""
    d = F.populate(cx, "dos33", "empty")
    data = cx.bytelist("d", 512)
    d.add(0, "A", [60, 70, 50], data)
    p = 60 * 256
    t = cx.choose("t", [0, 3, 5, 17, 34])
    s = cx.int("s", 0, 15)
    d.img[p + 16] = t
    d.img[p + 17] = s
    check_read(cx, d, 0, "A", [70, 50], None, data)
    cx.reach("dos unused")


def dos_two(cx, locked):
    d = F.populate(cx, "dos33", "frag")
    image = d.done()
    for k in d.files:
        cx.check(cx.eq(image.find_file(d.files[k][0]), d.contents(k)), "every file")
    f = image.find_dirent("LOCKED BINARY")
    c = d.files[3][2]
    cx.check(f.get_binary_start_address(image) == c[0] + 256 * c[1], "start address of a binary file")
    image.parse_segments()
    segs = [s for s in image.segments if s.name and s.name.endswith(" HELLO")]
    cx.check(len(segs) >= 1 and cx.eq(segs[0].data[:], d.contents(0)), "bytes of listed file segment")
    cx.reach("dos files")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p})
    geos = ["sd", "ed", "dd", "sdx", "ddx"] if not T else [g for g in F.AtariFS.GEO if g != "big"]
    add("order-mydos-big", "atari_order", 5, geo="big", pool=[4, 719, 1040, 1300, 2047, 2048, 2600], n=3, flag=0x46, slot=1)
    add("long-mydos-big", "atari_long", 4, geo="big", n=60 if not T else 400, step=13, last=0, flag=0x46)
    for geo in geos:
        last = F.make(geo).nsec
        for flag, name in ((0x42, "dos2"), (0x46, "mydos")):
            for slot in ((0, 63) if geo == "sd" or T else (5,)):
                if flag == 0x46 and slot == 63 and not T:
                    continue
                for at in (range(3) if geo == "sd" or T else (1,)):
                    add("count%d-%s-%d-%s" % (at, name, slot, geo), "atari_counts", 6, geo=geo, secs=[4, 257, 258], at=at,
                        others=[3, 300] if not T else [300, 300], flag=flag, slot=slot)
            top = min(last, 1023) if flag == 0x42 else last
            add("order-%s-%s" % (name, geo), "atari_order", 5, geo=geo, pool=[4, 255, 256, 512, 719, top - 1, top] if geo in ("sd", "ed") or T else [4, 256, top],
                n=3, flag=flag, slot=1)
        add("long-dos2-%s" % geo, "atari_long", 4, geo=geo, n=60 if not T else 400, step=7, last=9, flag=0x42)
        add("long-mydos-%s" % geo, "atari_long", 4, geo=geo, n=60 if not T else 400, step=13, last=0, flag=0x46)
        for slot, n, which in ((0, 1, 0), (3, 3, 0), (3, 3, 1), (63, 3, 2)):
            add("fileno-%d-%d-%s" % (slot, which, geo), "atari_fileno", geo=geo, slot=slot, n=n, which=which)
        for slot, my in ((0, 0), (0, 4), (5, 0), (5, 4)):
            if geo in ("sd", "dd") or slot or T:
                add("flags-%d-%s-%s" % (slot, "mydos" if my else "dos2", geo), "atari_flags", 3, geo=geo, slot=slot, mydos=my)
        for flag, name in ((0x42, "dos2"), (0x46, "mydos")):
            for n, which in ((1, 0), (3, 0), (3, 1), (3, 2)):
                if n == 1 or geo in ("sd", "dd") or T:
                    add("overfull-%s-%d-%d-%s" % (name, n, which, geo), "atari_toomany", geo=geo, flag=flag, n=n, which=which)
        add("two-%s" % geo, "atari_two", 3, geo=geo)
    add("dos-order", "dos_order", 8, pool=[48, 255, 256, 271, 288, 559] if not T else [48, 63, 64, 255, 256, 271, 288, 400, 559], n=3)
    for n in ([1, 2, 121, 122, 123, 245] if not T else [1, 2, 3, 60, 121, 122, 123, 243, 244, 245, 367, 400]):
        add("dos-long-%d" % n, "dos_long", 8, n=n, types=[0, 4, 0x84] if n == 2 else [4], step=17)
    add("dos-unused", "dos_unused", 3)
    add("dos-two", "dos_two", 3, locked=1)
    return out


def REACH(tier):
    return ["dos2", "mydos", "order", "long", "own sector", "foreign sector", "overfull sector", "flags", "two files", "dos order", "dos long", "dos unused", "dos files"]


BOUNDS = {
    "quick": "Atari: chains of 3 sectors in every order over 5 to 7 boundary sectors, one sector's byte count arbitrary (0 to the sector's capacity), contents arbitrary; arbitrary file number in one sector; every byte count from one below the capacity to 255 in one sector; arbitrary directory flags with both link formats; MyDOS links up to sector 2600; chains of 60 sectors. DOS 3.3: every order of a list and two data sectors over 6 sectors; 1 to 245 data sectors with arbitrary reserved bytes.",
    "thorough": "as quick on all 8 Atari geometries, chains of 400 sectors, DOS 3.3 pools of 9 sectors and up to 400 data sectors.",
}
OUTSIDE = "DOS 3.3 sparse files (0,0 entries inside the list); MyDOS subdirectories; chains with several arbitrary byte counts at once"
ASSUMPTIONS = []
