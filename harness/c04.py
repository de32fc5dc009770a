"""A failed write or delete leaves the image byte-identical."""
from . import fs as F


class Boom(Exception):
    pass


def attempt(cx, d, image, op, label):
    """Run op; if it raises, the image must be untouched."""
    before = cx.snapshot(image.bytes)
    listed = [(f.filename, f.num_sectors) for f in image.files]
    try:
        op()
    except Exception:
        cx.reach(label)
        cx.check(cx.same_except(image.bytes, before, []), "image unchanged after a failed operation")
        cx.check([(f.filename, f.num_sectors) for f in image.files] == listed, "listing unchanged after a failed operation")
        for slot in d.files:
            if d.files[slot][3] != "damaged":
                cx.check(cx.eq(image.find_file(d.files[slot][0]), d.contents(slot)), "files readable after a failed operation")
        return True
    return False


def nospace(cx, geo, window, lengths):
    d = F.populate(cx, geo, "frag", 0xe5)
    d.all_used()
    d.window("w", window)
    image = d.done()
    n = cx.choose("len", lengths)
    data = cx.bytes("n", n)
    attempt(cx, d, image, lambda: image.write_file("NEW.BIN", None, data), "disk full")


def huge(cx, geo, lengths):
    d = F.populate(cx, geo, "frag", 0xe5)
    image = d.done()
    n = cx.choose("len", lengths)
    data = b"\x55" * n
    bad = attempt(cx, d, image, lambda: image.write_file("NEW.BIN", None, data), "larger than the disk")
    cx.check(bad, "a file larger than the free space is refused")


def dirfull(cx, geo):
    """Directory full; sector map has room."""
    d = F.populate(cx, geo, "full:%d" % F.make(geo).nslots)
    image = d.done()
    data = cx.bytes("n", 5)
    bad = attempt(cx, d, image, lambda: image.write_file("NEW.BIN", None, data), "directory full")
    cx.check(bad, "no entry beyond the directory")


def badname(cx, geo):
    d = F.populate(cx, geo, "frag", 0xe5)
    image = d.done()
    name = cx.choose("name", ["\u2603.X", "A\u0100", "caf\u00e9\u2603"])
    attempt(cx, d, image, lambda: image.write_file(name, None, cx.bytes("n", 5)), "unencodable name")


def badtype(cx, geo):
    d = F.populate(cx, geo, "frag", 0xe5)
    image = d.done()
    what = cx.choose("what", ["text", 5, None])
    attempt(cx, d, image, lambda: image.write_file("NEW.BIN", None, what), "unusable data")


def missing(cx, geo):
    from atrcopy import errors
    d = F.populate(cx, geo, "frag", 0xe5)
    image = d.done()
    name = cx.choose("name", ["NOPE", "GONE.DAT", "GONE", "ALPHA", ""])
    before = cx.snapshot(image.bytes)
    try:
        image.delete_file(name)
        cx.fail("deleting a missing file must fail")
    except errors.FileNotFound:
        cx.reach("missing file")
    cx.check(cx.same_except(image.bytes, before, []), "image unchanged after a failed operation")


def damaged(cx, geo, part, hi=255):
    """Deleting a file whose chain is arbitrary: if it fails nothing changed."""
    d = F.populate(cx, geo, "empty", 0xe5)
    fs = d.fs
    if fs.kind == "atari":
        d.add(0, "OK.DAT", [50], cx.bytelist("ok", 4))
        d.add(1, "BAD.DAT", [4, 5], cx.bytelist("p", fs.payload + 3))
        p, n = fs.pos(5)
        for i in part:
            d.img[p + n - 3 + i] = cx.byte("link[%d]" % i)
    else:
        d.add(0, "OK", [90, 91], cx.bytelist("ok", 4))
        d.add(1, "BAD.DAT", [60, 61, 62], cx.bytelist("p", 300))
        p, n = fs.pos(60)
        for i in part:
            d.img[p + i] = cx.int("ts[%d]" % i, 0, hi)
    d.files[1] = d.files[1][:3] + ("damaged",)
    image = d.done()
    if not attempt(cx, d, image, lambda: image.delete_file("BAD.DAT"), "damaged chain"):
        cx.check("BAD.DAT" not in F.names(image), "a delete that reports success removed the file")


def fault(cx, geo, op, k, end=False):
    """The k-th low level store of an operation fails."""
    d = F.populate(cx, geo, "frag", 0xe5)
    if end:
        # only the last sectors of the disk are free
        d.all_used()
        d.window("w", d.fs.usable()[-6:])
    image = d.done()
    if not hasattr(image, "write_sector_list"):
        return
    orig = image.write_sector_list
    left = [k]

    def failing(l):
        if left[0] == 0:
            part = list(l)
            if part:
                # half done: the first sector is stored, then the failure
                pos, size = image.header.get_pos(part[0].sector_num)
                image.bytes[pos:pos + size] = part[0].data
            raise Boom()
        left[0] -= 1
        orig(l)
    image.write_sector_list = failing
    data = cx.bytes("n", d.fs.payload + 1)
    if op == "add":
        attempt(cx, d, image, lambda: image.write_file("NEW.BIN", None, data), "store fails")
    else:
        attempt(cx, d, image, lambda: image.delete_file(d.files[3][0]), "store fails")


def offdisk(cx, geo, sectors, hi=255):
    """The map claims that sectors beyond the end of the disk are free."""
    d = F.populate(cx, geo, "frag", 0xe5)
    d.all_used()
    fs = d.fs
    d.window("w", [100])
    p, n = fs.map_pos()
    for t in sectors:
        d.img[p + 4 * t] = cx.int("x%d" % t, 0, hi)
    image = d.done()
    attempt(cx, d, image, lambda: image.write_file("NEW.BIN", None, cx.bytes("n", fs.payload + 1)), "free sector off the disk")


def cases(tier):
    T = tier == "thorough"
    out = []
    for geo in ["sd", "ed", "dd", "dos33"] + (["dd2", "sdx", "edx", "ddx", "dd2x"] if T else []):
        ap = geo == "dos33"
        p = F.make(geo).payload
        w = [56, 63, 271, 289] if ap else [10, 16, 359, 369, 718]
        if T:
            w = w + [120, 121, 300]
        out.append({"name": "nospace-%s" % geo, "fn": "nospace", "cost": 8, "params": {"geo": geo, "window": w, "lengths": [1, 2 * p, 4 * p, 5 * p + 1]}})
        out.append({"name": "huge-%s" % geo, "fn": "huge", "cost": 8, "params": {"geo": geo, "lengths": [(720 if not ap else 560) * p, 700 * p + 1, 2000 * p]}})
        out.append({"name": "dirfull-%s" % geo, "fn": "dirfull", "params": {"geo": geo}})
        out.append({"name": "badname-%s" % geo, "fn": "badname", "params": {"geo": geo}})
        out.append({"name": "badtype-%s" % geo, "fn": "badtype", "params": {"geo": geo}})
        out.append({"name": "missing-%s" % geo, "fn": "missing", "params": {"geo": geo}})
        for k in range(3):
            out.append({"name": "fault-add-%d-%s" % (k, geo), "fn": "fault", "params": {"geo": geo, "op": "add", "k": k}})
            out.append({"name": "fault-end-%d-%s" % (k, geo), "fn": "fault", "params": {"geo": geo, "op": "add", "k": k, "end": True}})
            if k < 2:
                out.append({"name": "fault-delete-%d-%s" % (k, geo), "fn": "fault", "params": {"geo": geo, "op": "delete", "k": k}})
        for part in ([[0], [1]] if not ap else [[1], [2], [12], [13], [14]]):
            hi = 255 if not ap or T else {1: 63, 2: 19, 12: 63, 13: 31, 14: 63}[part[0]]
            out.append({"name": "damaged-%s-%s" % ("".join(map(str, part)), geo), "fn": "damaged", "cost": 10, "params": {"geo": geo, "part": part, "hi": hi}})
        if ap:
            out.append({"name": "offdisk", "fn": "offdisk", "cost": 10, "params": {"geo": geo, "sectors": [35], "hi": 255 if T else 15}})
            out.append({"name": "offdisk49", "fn": "offdisk", "cost": 10, "params": {"geo": geo, "sectors": [49], "hi": 255 if T else 15}})
    return out


def REACH(tier):
    return ["disk full", "larger than the disk", "directory full", "unencodable name", "unusable data", "missing file", "damaged chain", "store fails", "free sector off the disk"]


BOUNDS = {
    "quick": "SD, ED, DD and DOS 3.3: every free/used pattern of 4 or 5 sectors with files that may not fit, files larger than the disk, full directory, unencodable names, unusable data, missing names, every value of a link byte of the file to delete (DOS 3.3: of track/sector list bytes up to 63), a failure in each of the low-level stores (part of it already written), also when only the last sectors of the disk are free, maps that claim free sectors beyond the disk.",
    "thorough": "all 9 geometries, windows of 8 sectors, all byte values.",
}
OUTSIDE = "failures of the host file system while saving, memory exhaustion"
ASSUMPTIONS = ["disk populated by the reference writer in harness/fs.py", "a failing store is simulated by replacing write_sector_list of the image object"]
