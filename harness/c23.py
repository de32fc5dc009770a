"""Clearing free sectors."""
import numpy as np
from . import fs as F


class Opt:
    verbose = 0
    dry_run = False
    force = False


def expect(cx, d, before, bits, v):
    """Image with every free sector filled, by the reference model."""
    after = cx.snapshot(before)
    fs = d.fs
    own = set(fs.system_sectors())
    for s in range(1 if fs.kind == "atari" else 0, fs.nsec + (1 if fs.kind == "atari" else 0)):
        if s < fs.map_sectors and bits[s] == 1:
            p, n = fs.pos(s)
            after[p:p + n] = v
    return after


def clear(cx, geo, pre, window, base="used", how="shred", fill=None):
    d = F.populate(cx, geo, pre, 0x5a)
    fs = d.fs
    if base == "used":
        d.all_used()
    elif base == "odd":
        own = set(s for f in d.files.values() for s in f[1])
        for s in fs.usable():
            if s % 2 and s not in own:
                fs.set_bit(cx, d.img, s, 0)
    d.window("w", window)
    # arbitrary bytes around the borders of the window
    for s in window:
        p, n = fs.pos(s)
        own = [f for f in d.files.values() if s in f[1]]
        if not own:
            d.img[p] = cx.byte("x%d" % s)
            d.img[p + n - 1] = cx.byte("y%d" % s)
    image = d.done()
    before = cx.snapshot(image.bytes)
    v = cx.byte("v") if fill is None else fill
    if how == "shred":
        if fill is None:
            image.shred(v)
        else:
            image.shred()
    else:
        import atrcopy
        atrcopy.options = Opt()
        atrcopy.options.dry_run = cx.bool("dry")
        saved = []
        image.save = lambda *a: saved.append(cx.snapshot(image.bytes))
        if how == "command-default":
            v = 0
            atrcopy.shred_image(image)
        else:
            atrcopy.shred_image(image, v)
        if atrcopy.options.dry_run:
            cx.check(len(saved) == 0 and cx.same_except(image.bytes, before, []), "a dry run changes nothing")
            cx.reach("dry run")
            return
        cx.check(len(saved) == 1 and cx.same_except(saved[0], image.bytes, []), "the cleared image is saved")
    bits = [cx.concrete(b) for b in fs.bitmap(cx, before)]
    after = expect(cx, d, before, bits, v)
    cx.check(cx.same_except(image.bytes, after, []), "exactly the free sectors are filled")
    cx.check(sorted(F.names(image)) == sorted(f[0] for f in d.files.values()), "files are still listed")
    for slot in d.files:
        cx.check(cx.eq(image.find_file(d.files[slot][0]), d.contents(slot)), "contents of the files")
    n = 0
    for s in range(fs.map_sectors):
        n = n + bits[s]
    if fs.kind == "atari":
        cx.check(fs.free_count(cx, image.bytes) == n, "free count")
    if n:
        cx.reach("cleared")
    else:
        cx.reach("nothing free")


def large(cx, sectors, window):
    """A disk with more sectors than the allocation map describes."""
    from atrcopy.ataridos import AtariDosDiskImage
    from atrcopy.segments import SegmentData
    fs = F.AtariFS("sd")
    fs.image_size = sectors * 128
    fs.size = 16 + fs.image_size
    fs.nsec = sectors
    img = fs.blank(cx, 0x5a)
    p, n = fs.map_pos()
    img[p:p + n] = 0
    bits = {}
    for s in window:
        bits[s] = cx.int("w%d" % s, 0, 1)
        fs.set_bit(cx, img, s, bits[s])
    fs.fix_count(cx, img)
    image = AtariDosDiskImage(SegmentData(img))
    before = cx.snapshot(image.bytes)
    v = cx.byte("v")
    image.shred(v)
    after = cx.snapshot(before)
    for s in window:
        if bits[s] == 1:
            p, n = fs.pos(s)
            after[p:p + n] = v
    cx.check(cx.same_except(image.bytes, after, []), "exactly the free sectors are filled")
    cx.reach("large disk")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    for geo in ["sd", "ed", "dd", "dd2", "sdx", "edx", "ddx", "dd2x", "dos33"]:
        main = geo in ("sd", "dd", "dos33")
        apple = geo == "dos33"
        if apple:
            ws = [[47, 48, 49, 50, 55, 56], [271, 270, 288, 289, 264], [558, 557, 559, 544, 543], [0, 1, 16, 17, 32], [63, 64, 255, 256, 511, 512]]
        else:
            ws = [[1, 2, 3, 4, 5, 10], [359, 369, 370, 358, 368], [716, 717, 718, 719], [8, 15, 16, 255, 256, 257], [511, 512, 513, 600]]
        if T:
            ws += [[i, i + 1, i + 2, i + 3, i + 6, i + 7, i + 8] for i in range(60, 540, 53)]
        for k, w in enumerate(ws):
            if not main and not T and k > 2:
                continue
            add("%s-%d" % (geo, k), "clear", 4, geo=geo, pre="frag" if k % 2 == 0 else "empty", window=w, base="used")
        add("%s-odd" % geo, "clear", 4, geo=geo, pre="frag", window=ws[0][:3], base="odd")
        add("%s-free" % geo, "clear", 4, geo=geo, pre="full:20", window=ws[1][:2], base="free")
        if main or T:
            add("%s-command" % geo, "clear", 4, geo=geo, pre="frag", window=ws[1][:3], base="used", how="command")
            add("%s-default" % geo, "clear", 4, geo=geo, pre="frag", window=ws[1][:3], base="used", how="command-default")
            add("%s-zero" % geo, "clear", 4, geo=geo, pre="frag", window=ws[1][:2], base="used", fill=0)
    for n in (721, 1279, 1280, 1281, 1300, 2000):
        add("large-%d" % n, "large", 4, sectors=n, window=[4, 8, 718, 719])
    return out


def REACH(tier):
    return ["cleared", "nothing free", "dry run", "large disk"]


BOUNDS = {
    "quick": "all nine geometries; windows of 4 to 6 sectors with arbitrary free/used state at the borders of the map, the directory, the boot area and byte boundaries, everything else used, free or alternating; every fill value; arbitrary first and last byte of each window sector; disks of up to 2000 sectors whose map describes 720.",
    "thorough": "ten more windows of 7 sectors per geometry.",
}
OUTSIDE = "MyDOS maps that describe sectors beyond 719 and the second map sector of enhanced density disks (such sectors are not described as free to the code and are left alone); SpartaDOS and boot disks, which keep no map the code reads"
ASSUMPTIONS = ["map bits of system sectors are used, except where a window includes them (then the map is taken at its word)"]
