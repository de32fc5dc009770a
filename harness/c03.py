"""Sector allocation: only free sectors are taken, and the map stays exact."""
from . import fs as F


def after_add(cx, d, image, before, slot, length):
    fs = d.fs
    old, new = fs.bitmap(cx, before), fs.bitmap(cx, image.bytes)
    mine = fs.chain(cx, image.bytes, slot)
    cx.check(mine is not None and len(mine) == len(set(mine)), "file's sectors are distinct")
    cx.check(len(mine) == fs.nsectors(length), "file takes the number of sectors it needs")
    cx.check(cx.all(old[s] == 1 for s in mine), "only free sectors are taken")
    cx.check(cx.all(new[s] == 0 for s in mine), "taken sectors are marked used")
    taken = set(mine)
    cx.check(cx.all(new[s] == old[s] for s in range(len(old)) if s not in taken), "no other sector changes state")
    n = fs.free_count(cx, image.bytes)
    if n is not None:
        cx.check(n == sum(new), "recorded free count matches the map")
        cx.check(image.unused_sectors == n, "reported free count")


def add(cx, geo, pre, window, lengths, rest):
    d = F.populate(cx, geo, pre)
    if not rest:
        d.all_used()
    bits = d.window("w", window)
    image = d.done()
    before = cx.snapshot(image.bytes)
    slot = d.next_slot()
    n = cx.choose("len", lengths)
    need = d.fs.nsectors(n)
    free = sum(d.fs.bitmap(cx, before))
    from atrcopy import errors
    try:
        image.write_file("NEW.BIN", None, cx.bytes("n", n))
    except errors.NotEnoughSpaceOnDisk:
        cx.check(free < need, "refused only when space is short")
        cx.reach("refused")
        return
    cx.check(free >= need, "accepted only when space suffices")
    cx.reach("stored")
    after_add(cx, d, image, before, slot, n)


def delete(cx, geo, window, slots):
    d = F.populate(cx, geo, "frag")
    fs = d.fs
    d.window("w", window)
    image = d.done()
    before = cx.snapshot(image.bytes)
    slot = cx.choose("slot", slots)
    image.delete_file(d.files[slot][0])
    old, new = fs.bitmap(cx, before), fs.bitmap(cx, image.bytes)
    mine = set(d.files[slot][1])
    cx.check(cx.all(new[s] == 1 for s in mine), "deleted file's sectors are free")
    cx.check(cx.all(new[s] == old[s] for s in range(len(old)) if s not in mine), "no other sector changes state")
    n = fs.free_count(cx, image.bytes)
    if n is not None:
        cx.check(n == sum(new), "recorded free count matches the map")
        cx.check(image.unused_sectors == n, "reported free count")


def wholemap(cx, geo, lo, hi, length):
    """Every sector of [lo,hi) arbitrary: the first free one found is a
    decision over all of them."""
    d = F.populate(cx, geo, "empty")
    d.all_used()
    d.window("w", [s for s in range(lo, hi) if s in set(d.fs.usable())])
    image = d.done()
    before = cx.snapshot(image.bytes)
    from atrcopy import errors
    try:
        image.write_file("NEW.BIN", None, cx.bytes("n", length))
    except errors.NotEnoughSpaceOnDisk:
        cx.check(sum(d.fs.bitmap(cx, before)) < d.fs.nsectors(length), "refused only when space is short")
        return
    after_add(cx, d, image, before, 0, length)


def mapbits(cx, geo):
    """Parsing and re-encoding the map is the identity for every map, and each
    bit belongs to the sector the format says."""
    fs = F.make(geo)
    img = fs.blank(cx)
    p, n = fs.map_pos()
    raw = cx.bytelist("m", n)
    if fs.kind == "atari":
        img[p:p + n] = cx.mkarray(raw)
    else:
        for t in range(35):
            img[p + 4 * t] = raw[4 * t]
            img[p + 4 * t + 1] = raw[4 * t + 1]
    fs.fix_count(cx, img)
    image = fs.open(img)
    before = cx.snapshot(image.bytes)
    if not hasattr(image, "get_vtoc_object"):
        return
    v = image.get_vtoc_object()
    want = fs.bitmap(cx, before)
    cx.check(cx.eq(v.sector_map[0:len(want)], want), "map bit per sector")
    if not hasattr(v, "calc_bitmap") or not hasattr(image, "write_sector_list"):
        return
    v.calc_bitmap()
    image.write_sector_list(v)
    cx.check(cx.same_except(image.bytes, before, []), "re-encoding the map changes nothing")


def cycle(cx, geo, lengths):
    """Add then delete returns the map to where it was; the space is reusable."""
    d = F.populate(cx, geo, "frag")
    image = d.done()
    before = cx.snapshot(image.bytes)
    n = cx.choose("len", lengths)
    image.write_file("NEW.BIN", None, cx.bytes("n", n))
    image.delete_file("NEW.BIN")
    cx.check(cx.eq(d.fs.bitmap(cx, before), d.fs.bitmap(cx, image.bytes)), "add then delete restores the map")
    f0, f1 = d.fs.free_count(cx, before), d.fs.free_count(cx, image.bytes)
    cx.check(f0 is None or f0 == f1, "add then delete restores the count")


def cases(tier):
    T = tier == "thorough"
    out = []
    for geo in ["sd", "ed", "dd", "ddx", "dos33"] + (["dd2", "sdx", "edx", "dd2x"] if T else []):
        ap = geo == "dos33"
        p = F.make(geo).payload
        w = [[56, 57, 63, 64, 271, 289], [552, 553, 557, 120]] if ap else [[10, 15, 16, 359, 369], [714, 717, 718, 254, 257]]
        if T:
            w = [x + y for x, y in zip(w, [[265, 266], [551, 100, 101]] if ap else [[17, 18, 370], [712, 713, 513]])]
        for i, x in enumerate(w):
            out.append({"name": "add-tight-%d-%s" % (i, geo), "fn": "add", "cost": 8, "params": {"geo": geo, "pre": "frag", "window": x, "lengths": [1, p, p + 1, 2 * p + 1], "rest": False}})
        out.append({"name": "add-%s" % geo, "fn": "add", "cost": 4, "params": {"geo": geo, "pre": "frag", "window": w[0][:3], "lengths": [0, 3 * p], "rest": True}})
        out.append({"name": "add-big-%s" % geo, "fn": "add", "cost": 6, "params": {"geo": geo, "pre": "frag", "window": [], "lengths": [124 * p, 123 * p, 122 * p, 400 * p], "rest": True}})
        out.append({"name": "delete-%s" % geo, "fn": "delete", "cost": 3, "params": {"geo": geo, "window": w[0] + w[1], "slots": [0, 1, 3, 4]}})
        out.append({"name": "mapbits-%s" % geo, "fn": "mapbits", "cost": 3, "params": {"geo": geo}})
        out.append({"name": "cycle-%s" % geo, "fn": "cycle", "params": {"geo": geo, "lengths": [0, 1, 2 * p, 123 * p]}})
        if geo in ("sd", "dos33") or T:
            step = (20 if ap else 60) if not T else (60 if ap else 120)
            hi = 560 if ap else 720
            for lo in range(0, hi, step):
                if not ap or lo + step > 48 and (T or lo in (40, 260, 280, 540)):
                    out.append({"name": "wholemap-%s-%d" % (geo, lo), "fn": "wholemap", "cost": 5, "params": {"geo": geo, "lo": lo, "hi": min(hi, lo + step), "length": 1}})
    return out


def REACH(tier):
    return ["refused", "stored", "map bit per sector", "re-encoding the map changes nothing"]


BOUNDS = {
    "quick": "5 geometries: every free/used pattern of windows of 4 to 6 sectors on an otherwise full or free disk, windows of 60 (DOS 3.3: 20) sectors for one-sector files, files of 0 to 400 sectors; every value of the whole allocation map for decoding and re-encoding it.",
    "thorough": "all 9 geometries, windows of 7 or 8 sectors, windows of 120 (DOS 3.3: 60) sectors for one-sector files.",
}
OUTSIDE = "the second allocation map of enhanced density disks (sectors from 720 up, which the tool never uses), free-space patterns outside the windows"
ASSUMPTIONS = ["disk populated by the reference writer in harness/fs.py"]
