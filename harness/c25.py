"""SpartaDOS disks, built by hand from the format description."""
import numpy as np

from . import fs as F


class Sparta:
    def __init__(self, cx, geo, version=0x20, root=5):
        self.cx = cx
        self.g = F.AtariFS(geo)
        self.ss = self.g.ss
        # 256 byte sectors: the three boot sectors are 128 bytes
        self.img = np.zeros(self.g.size, dtype=np.uint8)
        n = np.arange(self.g.size)
        self.img[self.g.header:] = ((n * 7 + (n >> 7) * 13) & 255)[self.g.header:]
        if self.g.header:
            par = self.g.image_size // 16
            self.img[0:8] = [0x96, 2, par & 255, (par >> 8) & 255, self.ss & 255, self.ss >> 8, par >> 16, 0]
            self.img[8:16] = 0
        self.root = root
        ns = self.g.nsec
        boot = [0, 3, 0, 0x30, 0, 0x30, 0x4c, 0x80, 0x30, root & 255, root >> 8, ns & 255, ns >> 8, 0xbb, 2, 1, 4, 0, 9, 0, 9, 0] + F.asc("VOLUME  ")
        boot += [40, 0x80 if self.ss == 128 else 0, version]
        h = self.g.header
        self.img[h:h + len(boot)] = cx.mkarray(boot)

    def put(self, sec, data, at=0):
        p, n = self.g.pos(sec)
        self.img[p + at:p + at + len(data)] = self.cx.mkarray(data)

    def get(self, sec):
        p, n = self.g.pos(sec)
        return self.cx.lst(self.img[p:p + n])

    def map(self, maps, sectors):
        """Store a sector map in the given map sectors."""
        per = (self.ss - 4) // 2
        for k, m in enumerate(maps):
            part = sectors[per * k:per * k + per]
            nxt = maps[k + 1] if k + 1 < len(maps) else 0
            prv = maps[k - 1] if k else 0
            b = [nxt & 255, nxt >> 8, prv & 255, prv >> 8]
            for s in part:
                b += [s & 255, s >> 8]
            self.put(m, b + [0] * (self.ss - len(b)))

    def entry(self, status, start, length, name, ext, stamp=(1, 2, 90, 3, 4, 5)):
        return [status, start & 255, start >> 8, length & 255, (length >> 8) & 255, length >> 16] + pad(name, 8) + pad(ext, 3) + list(stamp)

    def directory(self, entries, maps, sectors, length=None):
        """Root directory; the first entry describes the directory itself."""
        length = 23 * (len(entries) + 1) if length is None else length
        raw = self.entry(0x28, 0, length, F.asc("MAIN"), [])
        for e in entries:
            raw += e
        self.map(maps, sectors)
        for k, s in enumerate(sectors):
            self.put(s, raw[k * self.ss:(k + 1) * self.ss])

    def open(self):
        from atrcopy.spartados import SpartaDosDiskImage
        from atrcopy.segments import SegmentData
        return SpartaDosDiskImage(SegmentData(self.img))

    def data(self, sectors, length):
        out = []
        for s in sectors:
            if length <= len(out):
                break
            out += self.get(s)
        return out[:length]


def pad(l, n):
    return list(l) + [32] * (n - len(l))


def text(cx, base, ext):
    """Name as listed, trailing blanks dropped."""
    b = list(base)
    while b and b[-1] == 32:
        b = b[:-1]
    e = list(ext)
    while e and e[-1] == 32:
        e = e[:-1]
    return b + ([46] + e if e else [])


def lengths(cx, geo, lo, hi, order, nmap=1, how="find", junk=False):
    """A file of every length in a range, sectors in any order."""
    d = Sparta(cx, geo)
    n = cx.int("len", lo, hi)
    need = (hi + d.ss - 1) // d.ss
    pool = list(range(30, 30 + need))
    if order == "any":
        k = cx.choose("order", [[1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0]])
        pool = [30 + i for i in k][:need] + pool[3:]
    elif order == "back":
        pool = pool[::-1]
    elif order == "far":
        pool = [d.g.nsec - 1 - 3 * i for i in range(need)]
    per = (d.ss - 4) // 2
    nm = max(1, (need + per - 1) // per)
    maps = [7, 12, 9, 14][:nm]
    d.map(maps, pool)
    if junk:
        # what follows the sectors of the file in the map means nothing
        d.put(maps[-1], cx.bytelist("junk", 4) + [255, 255, 1, 255], 4 + 2 * (len(pool) - per * (nm - 1)))
    # the first and last bytes of a sector are arbitrary
    for i, s in enumerate((pool[:1] + pool[-1:]) if pool else []):
        d.put(s, cx.bytelist("f%d" % i, 3))
        d.put(s, cx.bytelist("g%d" % i, 3), d.ss - 3)
    d.directory([d.entry(0x08, maps[0], n, F.asc("FILE"), F.asc("TXT"))], [d.root], [6])
    before = cx.snapshot(d.img)
    image = d.open()
    cx.check(len(image.files) == 1, "one file is listed")
    f = image.files[0]
    cx.check(cx.eq(f.filename, "FILE.TXT"), "name")
    cx.check(f.length == n, "length")
    n = cx.concrete(n)
    want = d.data(pool, n)
    got = image.find_file("FILE.TXT") if how == "find" else image.get_file(f)
    cx.check(len(got) == n, "exactly the recorded length")
    cx.check(cx.eq(got, want), "bytes of the sectors of the map in order")
    cx.check(cx.same_except(d.img, before, []), "the image is left alone")
    cx.reach("read")


def attributes(cx, geo, entry, other):
    """An entry with arbitrary status, name, length and time stamp."""
    d = Sparta(cx, geo)
    st = cx.byte("status")
    base = [cx.int("b%d" % i, 32, 126) for i in (0, 1)]
    cx.assume(base[0] != 32)
    ext = [cx.int("x0", 32, 126)]
    ln = cx.bytelist("len", 3)
    # a status of 0 ends the directory
    if entry < 2:
        cx.assume(st != 0)
    es = [d.entry(0x08, 10, 5, F.asc("ONE"), F.asc("A")), d.entry(0x09, 11, 6, F.asc("TWO"), []), d.entry(0x28, 12, 46, F.asc("SUB"), [])]
    e = d.entry(st, 13, 0, base, ext, cx.bytelist("stamp", 6))
    e[3:6] = ln
    es[entry:entry] = [e]
    for m, s in ((10, 40), (11, 41), (12, 42), (13, 43)):
        d.map([m], [s])
    d.directory(es, [d.root], [6] if 23 * 5 <= d.ss else [6, 8])
    image = d.open()
    in_use = (st & 8) != 0
    deleted = (st & 16) != 0
    names = [F.asc("ONE.A"), F.asc("TWO"), F.asc("SUB")]
    me = None
    if in_use and not deleted:
        is_dir = (st & 32) != 0
        want = text(cx, base, [] if is_dir else ext)
        names[entry:entry] = [want]
        me = entry
        cx.reach("in use")
    elif not in_use:
        cx.reach("not in use")
    else:
        # in use and deleted at once: no defined meaning
        names[entry:entry] = [None]
        if len(image.files) == 3:
            del names[entry]
    cx.check(len(image.files) == len(names), "exactly the files in use are listed")
    for f, w in zip(image.files, names):
        if w is not None:
            cx.check(cx.eq(cx.lst(f.filename), w), "names in order")
    rest = [f for k, f in enumerate(image.files) if k != me and names[k] is not None]
    for f, (l, lock, sub) in zip(rest, ((5, False, False), (6, True, False), (46, False, True))):
        cx.check(cx.and_(f.length == l, cx.iff(f.locked, lock), cx.iff(f.is_dir, sub)), "attributes of the other files")
    if me is not None:
        f = image.files[me]
        cx.check(f.length == ln[0] + 256 * ln[1] + 65536 * ln[2], "length")
        cx.check(cx.iff(f.locked, (st & 1) != 0), "lock state")
        cx.check(cx.iff(f.is_dir, is_dir), "directory state")


def directory(cx, geo, count, secs, free, gap):
    """A directory over several sectors, entries across sector boundaries."""
    d = Sparta(cx, geo, root=secs[0])
    es, want = [], []
    for k in range(count):
        st = 0x08
        if k in free:
            st = cx.choose("st%d" % k, [0x08, 0x09, 0x10])
        name = F.asc("F%d" % k)
        if k in gap:
            name = [cx.int("n%d.%d" % (k, i), 65, 90) for i in range(8)]
        es.append(d.entry(st, 100 + k, k + 1, name, F.asc("DAT")))
        d.map([100 + k], [200 + k])
        if st & 8:
            want.append((text(cx, name, F.asc("DAT")), k, st & 1))
    d.directory(es, [secs[0]], secs[1:])
    image = d.open()
    cx.check(len(image.files) == len(want), "exactly the files in use are listed")
    for f, (nm, k, lock) in zip(image.files, want):
        cx.check(cx.eq(cx.lst(f.filename), nm), "names in order")
        cx.check(cx.and_(f.length == k + 1, cx.iff(f.locked, lock == 1)), "attributes")
        cx.check(cx.eq(image.get_file(f), d.data([200 + k], k + 1)), "contents")
    cx.reach("long directory")


def maps(cx, geo):
    """Every order of the sectors in a map."""
    d = Sparta(cx, geo)
    secs = [cx.choose("s%d" % i, [20, 21, 300, d.g.nsec]) for i in range(3)]
    cx.assume(len(set(secs)) == 3)
    for s in (20, 21, 300, d.g.nsec):
        d.put(s, cx.bytelist("d%d" % s, 4))
    n = cx.choose("len", [d.ss * 2 + 1, d.ss * 3, d.ss * 2, d.ss + 3])
    d.map([7], secs)
    d.directory([d.entry(0x08, 7, n, F.asc("FILE"), F.asc("TXT"))], [d.root], [6])
    image = d.open()
    got = image.find_file("FILE.TXT")
    cx.check(cx.eq(got, d.data(secs, n)), "bytes of the sectors of the map in order")
    cx.reach("any order")


def several(cx, geo, version):
    """Two files, each with its own map; same start bytes, subset lengths."""
    d = Sparta(cx, geo, version)
    d.map([10], [20, 22])
    d.map([11], [21, 23])
    for s in (20, 21, 22, 23):
        d.put(s, cx.bytelist("d%d" % s, 3))
    n = [cx.choose("n%d" % k, [0, 1, d.ss - 1, d.ss, d.ss + 1, 2 * d.ss]) for k in (0, 1)]
    d.directory([d.entry(0x08, 10, n[0], F.asc("A"), []), d.entry(0x10, 12, 9, F.asc("OLD"), []), d.entry(0x09, 11, n[1], F.asc("B"), F.asc("X"))], [d.root], [6])
    image = d.open()
    cx.check([f.filename for f in image.files] == ["A", "B.X"], "listing")
    order = cx.choose("order", [["A", "B.X"], ["B.X", "A", "A"]])
    for name in order:
        k = 0 if name == "A" else 1
        got = image.find_file(name)
        cx.check(len(got) == n[k], "exactly the recorded length")
        cx.check(cx.eq(got, d.data([20, 22] if k == 0 else [21, 23], n[k])), "contents")
    for s, nm in zip(image.get_file_segments(), ["A", "B.X"]):
        k = 0 if nm == "A" else 1
        cx.check(len(s) == n[k] and cx.eq(s[:], d.data([20, 22] if k == 0 else [21, 23], n[k])), "file segments")
    cx.reach("several")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda label, fn, cost=2, **p: out.append({"name": label, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    for geo in ("sd", "dd") + (("ed", "sdx", "dd2") if T else ()):
        ss = 256 if geo.startswith("dd") else 128
        per = (ss - 4) // 2
        for lo, hi in ((0, 40), (ss - 3, ss + 3), (2 * ss - 2, 2 * ss + 2)):
            add("lengths-%s-%d" % (geo, lo), "lengths", geo=geo, lo=lo, hi=hi, order="far", cost=4)
        add("lengths-%s-junk" % geo, "lengths", geo=geo, lo=2 * ss - 1, hi=2 * ss, order="", junk=True)
        add("lengths-%s-junk1" % geo, "lengths", geo=geo, lo=ss - 3, hi=ss, order="far", how="get", junk=True)
        add("lengths-%s-3" % geo, "lengths", geo=geo, lo=2 * ss - 1, hi=3 * ss, order="any", cost=20) if T else \
            add("lengths-%s-3" % geo, "lengths", geo=geo, lo=3 * ss - 1, hi=3 * ss, order="any")
        # the end of the first and of the second map sector
        for k in (1, 2) + ((3,) if T else ()):
            if per * k + 40 > (700 if geo != "ed" else 1000):
                continue
            add("lengths-%s-map%d" % (geo, k), "lengths", geo=geo, lo=per * k * ss - 2, hi=per * k * ss + 3, order="", cost=10)
            add("lengths-%s-map%d-back" % (geo, k), "lengths", geo=geo, lo=(per * k + 1) * ss - 1, hi=(per * k + 1) * ss, order="back", how="get", cost=10)
        for e in (0, 1, 2):
            add("attributes-%s-%d" % (geo, e), "attributes", geo=geo, entry=e, other=0, cost=10)
        n = 12 if ss == 128 else 24
        add("directory-%s" % geo, "directory", geo=geo, count=n, secs=[5, 6, 30, 8], free=[1, n - 2], gap=[4, 5, 10], cost=10)
        add("directory2-%s" % geo, "directory", geo=geo, count=n, secs=[9, 40, 16, 17], free=[0, 5], gap=[n - 1], cost=10)
        add("maps-%s" % geo, "maps", geo=geo, cost=6)
        for v in (0x11, 0x20, 0x21):
            add("several-%s-%02x" % (geo, v), "several", geo=geo, version=v, cost=4)
    return out


def REACH(tier):
    return ["read", "in use", "not in use", "long directory", "any order", "several"]


BOUNDS = {
    "quick": "128 and 256 byte sectors; one directory entry with an arbitrary status byte, 2+1 arbitrary name characters, arbitrary 24-bit length and time stamp among three others; every length from 0 to 40 and around each multiple of the sector size and each end of a map sector (up to three linked map sectors, about 250 sectors); directories of up to 24 entries over three scattered sectors; every order of three sectors in a map; arbitrary and impossible map entries after those of the file.",
    "thorough": "also enhanced density and images without a header; every length over one whole sector with any order of three sectors; four linked map sectors.",
}
OUTSIDE = "512 byte sectors; sparse files (map entries of 0 inside the length); entries marked in use and deleted at once; files inside subdirectories, which the code does not list; the hidden and archived attributes, which the code reads from the wrong bits and shows nowhere"
ASSUMPTIONS = ["no entry in use follows an entry with status 0"]
