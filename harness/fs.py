"""Independent reference model of the two writable disk formats, written from
the format descriptions (Atari DOS 2 and Apple DOS 3.3), not from the code
under test.  Images are byte arrays; the arrays may hold symbolic bytes."""
import numpy as np


def bits_of(cx, byte):
    """Most significant bit first."""
    return [(byte >> (7 - i)) & 1 for i in range(8)]


class AtariFS:
    kind = "atari"
    map_sectors = 720
    nslots = 64

    GEO = {
        # name: header, image size, sector size, short boot sectors
        "sd": (16, 92160, 128, 0),
        "ed": (16, 133120, 128, 0),
        "dd": (16, 183936, 256, 3),
        "dd2": (16, 184320, 256, 0),
        "sdx": (0, 92160, 128, 0),
        "edx": (0, 133120, 128, 0),
        "ddx": (0, 183936, 256, 3),
        "dd2x": (0, 184320, 256, 0),
        # MyDOS disk with sector numbers that need more than 11 bits
        "big": (16, 128 * 2600, 128, 0),
    }

    def __init__(self, geo):
        self.geo = geo
        self.header, self.image_size, self.ss, self.nboot = self.GEO[geo]
        self.size = self.header + self.image_size
        self.payload = self.ss - 3
        self.nsec = (self.image_size - 128 * self.nboot) // self.ss + self.nboot

    def pos(self, sec):
        """(offset, size) of sector sec (1-based)."""
        assert 1 <= sec <= self.nsec
        if sec <= self.nboot:
            return self.header + (sec - 1) * 128, 128
        return self.header + self.nboot * 128 + (sec - 1 - self.nboot) * self.ss, self.ss

    def usable(self):
        return [s for s in range(4, 720) if not 360 <= s <= 368]

    def system_sectors(self):
        return [1, 2, 3] + list(range(360, 369))

    def blank(self, cx, fill=0):
        img = np.zeros(self.size, dtype=np.uint8)
        if fill:
            img[self.header:] = fill
        if self.header:
            par = self.image_size // 16
            img[0:8] = [0x96, 0x02, par & 255, (par >> 8) & 255, self.ss & 255, self.ss >> 8, par >> 16, 0]
            img[8:16] = 0
        for s in range(361, 369):
            p, n = self.pos(s)
            img[p:p + n] = 0
        p, n = self.pos(360)
        img[p:p + n] = 0
        # bytes of the map sector that mean nothing
        img[p + 5:p + 10] = 0x35
        img[p + 100:p + n] = 0x9a
        img[p] = 2
        total = 707
        img[p + 1] = total & 255
        img[p + 2] = total >> 8
        used = set(self.system_sectors()) | {0}
        for i in range(90):
            b = 0
            for k in range(8):
                if i * 8 + k not in used:
                    b |= 0x80 >> k
            img[p + 10 + i] = b
        self.fix_count(cx, img)
        return img

    # -- allocation map
    def map_pos(self):
        p, n = self.pos(360)
        return p + 10, 90

    def bitmap(self, cx, img):
        p, n = self.map_pos()
        out = []
        for b in cx.lst(img[p:p + n]):
            out.extend(bits_of(cx, b))
        return out

    def set_bit(self, cx, img, sec, bit):
        p, n = self.map_pos()
        i = p + sec // 8
        m = 0x80 >> (sec % 8)
        img[i] = (cx.plain(img[i]) & (255 - m)) | bit * m

    def free_count(self, cx, img):
        p, n = self.pos(360)
        return cx.plain(img[p + 3]) + 256 * cx.plain(img[p + 4])

    def fix_count(self, cx, img):
        n = sum(self.bitmap(cx, img))
        p, _ = self.pos(360)
        img[p + 3] = n & 255
        img[p + 4] = (n >> 8) & 255

    # -- directory
    def slot_pos(self, slot):
        p, n = self.pos(361 + slot // 8)
        return p + 16 * (slot % 8)

    slot_size = 16

    def entry_bytes(self, cx, img, slot):
        p = self.slot_pos(slot)
        return cx.lst(img[p:p + 16])

    def put_entry(self, cx, img, slot, flag, count, start, name, ext):
        p = self.slot_pos(slot)
        nm = list(name) + [32] * (8 - len(name))
        ex = list(ext) + [32] * (3 - len(ext))
        img[p:p + 16] = cx.mkarray([flag, count & 255, count >> 8, start & 255, start >> 8] + nm + ex)

    def place(self, cx, img, slot, name, ext, sectors, data, lens=None, flag=0x42, fileno=None):
        """Store a file by hand; sector k holds lens[k] bytes."""
        if fileno is None:
            fileno = slot
        if lens is None:
            lens = []
            left = len(data)
            for k in range(len(sectors)):
                lens.append(min(self.payload, left))
                left -= lens[-1]
        at = 0
        for k, s in enumerate(sectors):
            p, n = self.pos(s)
            nxt = sectors[k + 1] if k + 1 < len(sectors) else 0
            img[p:p + lens[k]] = cx.mkarray(data[at:at + lens[k]])
            at += lens[k]
            img[p + n - 3] = (fileno << 2) | (nxt >> 8)
            img[p + n - 2] = nxt & 255
            img[p + n - 1] = lens[k]
            self.set_bit(cx, img, s, 0)
        self.put_entry(cx, img, slot, flag, len(sectors), sectors[0], name, ext)

    def chain(self, cx, img, slot):
        """Sectors of the file in a slot, by following its links."""
        e = self.entry_bytes(cx, img, slot)
        s = cx.concrete(e[3] + 256 * e[4])
        out = []
        while s:
            if s in out or not 1 <= s <= self.nsec:
                return None
            out.append(s)
            p, n = self.pos(s)
            s = cx.concrete((cx.plain(img[p + n - 3]) & 3) * 256 + cx.plain(img[p + n - 2]))
        return out

    def read(self, cx, img, slot):
        """File contents per the DOS 2 format: (data, fileno_ok)."""
        ch = self.chain(cx, img, slot)
        if ch is None:
            return None, False
        data, ok = [], []
        for s in ch:
            p, n = self.pos(s)
            k = cx.concrete(cx.plain(img[p + n - 1]))
            if k > self.payload:
                return None, False
            data.extend(cx.lst(img[p:p + k]))
            ok.append((cx.plain(img[p + n - 3]) >> 2) == slot)
        return data, cx.all(ok)

    def live(self, cx, img, slot):
        e = self.entry_bytes(cx, img, slot)
        return (e[0] & 0x40) != 0

    def open(self, img):
        from atrcopy.ataridos import AtariDosDiskImage
        from atrcopy.segments import SegmentData
        return AtariDosDiskImage(SegmentData(img))

    def padded(self, cx, data):
        return list(data)

    def nsectors(self, length):
        return max(1, (length + self.payload - 1) // self.payload)

    def meta_regions(self):
        """Byte ranges a file operation may change besides allocated sectors."""
        return [self.pos(s) for s in range(360, 369)]


class AppleFS:
    kind = "apple"
    map_sectors = 560
    nslots = 105
    geo = "dos33"
    header = 0
    size = image_size = 143360
    ss = 256
    payload = 256
    nsec = 560
    slot_size = 35

    def __init__(self, geo="dos33"):
        pass

    def pos(self, sec):
        assert 0 <= sec < 560
        return sec * 256, 256

    def usable(self):
        return [s for s in range(3 * 16, 560) if s // 16 != 17]

    def system_sectors(self):
        return list(range(0, 48)) + list(range(272, 288))

    def blank(self, cx, fill=0):
        img = np.zeros(self.size, dtype=np.uint8)
        if fill:
            img[:] = fill
        img[0:4] = [1, 0xa5, 0x27, 0xc9]
        for s in range(272, 288):
            img[s * 256:s * 256 + 256] = 0
        v = 272 * 256
        # bytes of the VTOC that mean nothing
        img[v + 4:v + 0x34] = 0x6b
        for t in range(50):
            img[v + 0x3a + 4 * t:v + 0x3c + 4 * t] = 0xc3
        img[v:v + 4] = [4, 17, 15, 3]
        img[v + 6] = 254
        img[v + 0x27] = 122
        img[v + 0x30] = 17
        img[v + 0x31] = 1
        img[v + 0x34:v + 0x38] = [35, 16, 0, 1]
        for t in range(35):
            if t > 2 and t != 17:
                img[v + 0x38 + 4 * t:v + 0x38 + 4 * t + 2] = [255, 255]
        for k in range(15, 1, -1):
            p = (272 + k) * 256
            img[p + 1] = 17
            img[p + 2] = k - 1
        return img

    def map_pos(self):
        return 272 * 256 + 0x38, 140

    def bitmap(self, cx, img):
        p, n = self.map_pos()
        b = cx.lst(img[p:p + n])
        out = []
        for t in range(35):
            out.extend(reversed(bits_of(cx, b[4 * t + 1])))
            out.extend(reversed(bits_of(cx, b[4 * t])))
        return out

    def set_bit(self, cx, img, sec, bit):
        t, s = divmod(sec, 16)
        p, n = self.map_pos()
        i = p + 4 * t + (0 if s >= 8 else 1)
        m = 1 << (s % 8)
        img[i] = (cx.plain(img[i]) & (255 - m)) | bit * m

    def free_count(self, cx, img):
        return None

    def fix_count(self, cx, img):
        pass

    def slot_pos(self, slot):
        return (272 + 15 - slot // 7) * 256 + 11 + 35 * (slot % 7)

    def entry_bytes(self, cx, img, slot):
        p = self.slot_pos(slot)
        return cx.lst(img[p:p + 35])

    def put_entry(self, cx, img, slot, track, sector, typ, name, count):
        p = self.slot_pos(slot)
        nm = [c | 0x80 for c in name] + [0xa0] * (30 - len(name))
        img[p:p + 35] = cx.mkarray([track, sector, typ] + nm + [count & 255, count >> 8])

    def place(self, cx, img, slot, name, ext, sectors, data, lens=None, flag=0x04, fileno=None):
        """sectors: t/s list sectors first (one per 122 data sectors)."""
        nts = self.nts(len(sectors))
        ts, ds = sectors[:nts], sectors[nts:]
        for k, s in enumerate(ts):
            p = s * 256
            img[p:p + 256] = 0
            if k + 1 < nts:
                img[p + 1], img[p + 2] = divmod(ts[k + 1], 16)
            img[p + 5] = (122 * k) & 255
            img[p + 6] = (122 * k) >> 8
            for j, d in enumerate(ds[122 * k:122 * k + 122]):
                img[p + 12 + 2 * j] = d // 16
                img[p + 13 + 2 * j] = d % 16
        for j, d in enumerate(ds):
            part = data[256 * j:256 * j + 256]
            img[d * 256:d * 256 + 256] = 0
            img[d * 256:d * 256 + len(part)] = cx.mkarray(part)
        for s in sectors:
            self.set_bit(cx, img, s, 0)
        nm = list(name) + ([46] + list(ext) if ext else [])
        self.put_entry(cx, img, slot, ts[0] // 16, ts[0] % 16, flag, nm, len(sectors))

    def nts(self, total):
        n = 1
        while n * 122 < total - n:
            n += 1
        return n

    def chain(self, cx, img, slot):
        e = self.entry_bytes(cx, img, slot)
        count = cx.concrete(e[33] + 256 * e[34])
        t, s = cx.concrete(e[0]), cx.concrete(e[1])
        ts, ds = [], []
        while t or s:
            n = t * 16 + s
            if s > 15 or n >= 560 or n in ts:
                return None
            ts.append(n)
            p = n * 256
            raw = cx.lst(img[p:p + 256])
            for j in range(122):
                a, b = cx.concrete(raw[12 + 2 * j]), cx.concrete(raw[13 + 2 * j])
                if (a or b) and b < 16:
                    ds.append(a * 16 + b)
            t, s = cx.concrete(raw[1]), cx.concrete(raw[2])
        if len(ts) + len(ds) != count:
            return None
        return ts + ds

    def read(self, cx, img, slot):
        ch = self.chain(cx, img, slot)
        if ch is None:
            return None, False
        nts = self.nts(len(ch))
        data = []
        for s in ch[nts:]:
            if not 0 <= s < 560:
                return None, False
            data.extend(cx.lst(img[s * 256:s * 256 + 256]))
        return data, True

    def live(self, cx, img, slot):
        e = self.entry_bytes(cx, img, slot)
        return cx.and_(e[0] != 0, e[0] != 255)

    def open(self, img):
        from atrcopy.dos33 import Dos33DiskImage
        from atrcopy.segments import SegmentData
        return Dos33DiskImage(SegmentData(img))

    def padded(self, cx, data):
        return list(data) + [0] * (256 * self.ndata(len(data)) - len(data))

    def ndata(self, length):
        return max(1, (length + 255) // 256)

    def nsectors(self, length):
        d = self.ndata(length)
        return d + (d + 121) // 122

    def meta_regions(self):
        return [self.pos(s) for s in range(272, 288)]


def make(geo):
    return AppleFS() if geo == "dos33" else AtariFS(geo)


def asc(s):
    return [ord(c) for c in s]


def find_slots(cx, fs, img, nslots):
    return [k for k in range(nslots) if fs.live(cx, img, k)]


# ---------------------------------------------------------------- layouts
class Disk:
    """A populated image plus what the harness knows about it."""

    def __init__(self, cx, geo, fill=0):
        self.cx = cx
        self.fs = make(geo)
        self.img = self.fs.blank(cx, fill)
        self.files = {}     # slot -> (name, sectors, data, flag)
        self.deleted = {}

    def add(self, slot, name, sectors, data, lens=None, flag=None, **k):
        base, _, ext = name.partition(".")
        if flag is None:
            flag = 0x42 if self.fs.kind == "atari" else 0x04
        self.fs.place(self.cx, self.img, slot, asc(base), asc(ext), sectors, data, lens=lens, flag=flag, **k)
        self.files[slot] = (name, sectors, list(data), flag)

    def add_deleted(self, slot, name, start=77):
        base, _, ext = name.partition(".")
        fs = self.fs
        if fs.kind == "atari":
            fs.put_entry(self.cx, self.img, slot, 0x80, 3, start, asc(base), asc(ext))
        else:
            fs.put_entry(self.cx, self.img, slot, 0xff, start % 16, 4, asc(name)[:29], 3)
            self.img[fs.slot_pos(slot) + 32] = start // 16
        self.deleted[slot] = name

    def mark_used(self, sectors):
        for s in sectors:
            self.fs.set_bit(self.cx, self.img, s, 0)

    def all_used(self):
        """Mark every sector of the map as allocated."""
        p, n = self.fs.map_pos()
        if self.fs.kind == "atari":
            self.img[p:p + n] = 0
        else:
            for t in range(35):
                self.img[p + 4 * t:p + 4 * t + 2] = 0

    def window(self, name, sectors):
        """Arbitrary free/used state for each of the given sectors (except the
        ones files own)."""
        own = set()
        for f in self.files.values():
            own |= set(f[1])
        out = {}
        for s in sectors:
            if s in own:
                continue
            b = self.cx.int("%s%d" % (name, s), 0, 1)
            self.fs.set_bit(self.cx, self.img, s, b)
            out[s] = b
        return out

    def done(self):
        self.fs.fix_count(self.cx, self.img)
        return self.fs.open(self.img)

    def next_slot(self):
        k = 0
        while k in self.files:
            k += 1
        return k

    def contents(self, slot):
        return self.cx.mkbytes(self.fs.padded(self.cx, self.files[slot][2]))


def populate(cx, geo, pre, fill=0, tag="p"):
    """pre: empty | frag | full:N (N one-sector files) """
    d = Disk(cx, geo, fill)
    fs = d.fs
    if pre == "frag":
        n = fs.payload
        if fs.kind == "atari":
            d.add(0, "ALPHA.DAT", [4, 9, 6], cx.bytelist(tag + "a", 3 * n - 7))
            d.add(1, "BETA", [5], cx.bytelist(tag + "b", 11))
            d.add_deleted(2, "GONE.DAT", 9)
            d.add(3, "GAMMA.BAS", [300, 255, 256, 511, 512, 719], cx.bytelist(tag + "c", 5 * n + 1))
            d.add(4, "LOCK.SYS", [8, 7], cx.bytelist(tag + "d", 2 * n), flag=0x62)
        else:
            d.add(0, "HELLO", [48, 50, 49], cx.bytelist(tag + "a", 300), flag=0x02)
            d.add(1, "A TEXT FILE", [51, 52], cx.bytelist(tag + "b", 256), flag=0x00)
            d.add_deleted(2, "GONE", 52)
            d.add(3, "LOCKED BINARY", [287 + 1, 559, 558, 255, 256], cx.bytelist(tag + "c", 1024), flag=0x84)
            d.add(4, "INT", [54, 53], cx.bytelist(tag + "d", 40), flag=0x81)
    elif pre.startswith("full:"):
        k = int(pre[5:])
        u = [s for s in fs.usable() if s >= 60]
        for i in range(k):
            if fs.kind == "atari":
                d.add(i, "F%d.X" % i, [u[i]], [i, 255 - i])
            else:
                d.add(i, "F%d" % i, [u[2 * i], u[2 * i + 1]], [i, 255 - i])
    elif pre != "empty":
        raise ValueError(pre)
    return d


def names(image):
    return [f.filename for f in image.files]
