"""Deleting removes exactly the named file and frees exactly its space."""
from . import fs as F


def gone(cx, d, image, slot, name):
    from atrcopy import errors
    fs = d.fs
    cx.check(name not in F.names(image), "deleted file is not listed")
    for op in (image.find_file, image.delete_file):
        try:
            op(name)
            cx.fail("deleted file must not be found")
        except errors.FileNotFound:
            cx.reach("not found")
    cx.check(cx.not_(fs.live(cx, image.bytes, slot)), "directory entry marked deleted")


def one(cx, geo, window, slots, bydirent=False):
    d = F.populate(cx, geo, "frag", 0xe5)
    fs = d.fs
    d.window("w", window)
    image = d.done()
    before = cx.snapshot(image.bytes)
    slot = cx.choose("slot", slots)
    name = d.files[slot][0]
    old = fs.bitmap(cx, before)
    image.delete_file(image.find_dirent(name) if bydirent else name)
    gone(cx, d, image, slot, name)
    new = fs.bitmap(cx, image.bytes)
    mine = set(d.files[slot][1])
    cx.check(cx.all(new[s] == 1 for s in mine), "all of the file's sectors are free again")
    cx.check(cx.all(new[s] == old[s] for s in range(len(old)) if s not in mine), "no other sector changes state")
    n = fs.free_count(cx, image.bytes)
    cx.check(n is None or n == sum(new), "free count follows")
    # the same must hold for the reloaded image
    again = fs.open(image.bytes.copy())
    cx.check(F.names(again) == F.names(image), "same listing after reload")
    e = fs.entry_bytes(cx, image.bytes, slot)
    e0 = fs.entry_bytes(cx, before, slot)
    if fs.kind == "atari":
        cx.check(cx.and_((e[0] & 0x80) != 0, (e[0] & 0x40) == 0), "deleted flag of the format")
        cx.check(cx.eq(e[1:], e0[1:]), "rest of the deleted entry kept")
    else:
        cx.check(cx.and_(e[0] == 0xff, e[32] == e0[0]), "deleted mark and saved track of the format")
        cx.check(cx.eq(e[1:32], e0[1:32]), "rest of the deleted entry kept")


def refill(cx, geo, slots):
    """On a completely full disk, deleting a file makes exactly room for one
    of the same size, which lands in the freed slot."""
    from atrcopy import errors
    d = F.populate(cx, geo, "frag", 0xe5)
    fs = d.fs
    d.all_used()
    if cx.choose("dirfull", [0, 1]):
        del d.deleted[2]
        free = [s for s in fs.usable() if all(s not in f[1] for f in d.files.values())]
        at = 0
        for k in range(fs.nslots):
            if k not in d.files:
                n = 1 if fs.kind == "atari" else 2
                d.add(k, "F%d" % k, free[at:at + n], [k])
                at += n
        cx.reach("directory full")
        slots = list(slots) + [fs.nslots - 1]
    image = d.done()
    slot = cx.choose("slot", slots)
    name, secs, data, flag = d.files[slot]
    before = cx.snapshot(image.bytes)
    try:
        image.write_file("MORE", None, b"x")
        cx.fail("nothing fits on a full disk")
    except (errors.NotEnoughSpaceOnDisk, errors.NoSpaceInDirectory):
        cx.reach("full")
    image.delete_file(name)
    fresh = cx.bytelist("new", len(data))
    image.write_file("REPL", None, cx.mkbytes(fresh))
    cx.check(cx.eq(image.find_file("REPL"), cx.mkbytes(fs.padded(cx, fresh))), "freed space holds a file of the same size")
    cx.check(sum(fs.bitmap(cx, image.bytes)) == 0, "disk full again")
    for k in d.files:
        if k != slot:
            cx.check(cx.eq(image.find_file(d.files[k][0]), d.contents(k)), "other files unharmed")
    cx.check(len(image.files) == len(d.files), "same number of files")


def history(cx, geo, ops):
    """Arbitrary interleavings of adds and deletes against a model."""
    from atrcopy import errors
    d = F.populate(cx, geo, "empty", 0xe5)
    fs = d.fs
    d.all_used()
    pool = fs.usable()[10:16] if fs.kind == "atari" else fs.usable()[10:20]
    for s in pool:
        fs.set_bit(cx, d.img, s, 1)
    image = d.done()
    have = {}
    names = ["A", "B.X", "C"] if fs.kind == "atari" else ["A", "B X", "C"]
    left = len(pool)
    for k in range(ops):
        what = cx.choose("op%d" % k, [("add", 0), ("add", 1), ("add", 2), ("del", 0), ("del", 1), ("del", 2)])
        name = names[what[1]]
        if what[0] == "add":
            if name in have:
                continue
            n = [5, fs.payload + 3, 2 * fs.payload][what[1]]
            data = cx.bytelist("d%d" % k, n)
            need = fs.nsectors(n)
            try:
                image.write_file(name, None, cx.mkbytes(data))
                cx.check(need <= left, "add succeeds only if there is room")
                have[name] = (data, need)
                left -= need
            except errors.NotEnoughSpaceOnDisk:
                cx.check(need > left, "add refused only for lack of room")
        else:
            try:
                image.delete_file(name)
                cx.check(name in have, "only existing files can be deleted")
                left += have.pop(name)[1]
            except errors.FileNotFound:
                cx.check(name not in have, "existing file must be found")
    cx.check(sorted(F.names(image)) == sorted(have), "listing equals the model")
    for name in have:
        cx.check(cx.eq(image.find_file(name), cx.mkbytes(fs.padded(cx, have[name][0]))), "contents equal the model")
    cx.check(sum(fs.bitmap(cx, image.bytes)) == left, "free space equals the model")
    cx.reach("history done")


def samename(cx, geo):
    """Live file and deleted files of the same name, in any order."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    which = cx.choose("live", [0, 1, 2])
    secs = fs.usable()[40:46]
    for k in range(3):
        if k == which:
            d.add(k, "SAME", secs[0:2] if fs.kind == "atari" else secs[0:2], cx.bytelist("p", fs.payload))
        else:
            d.add_deleted(k, "SAME", secs[3 + k])
    image = d.done()
    before = cx.snapshot(image.bytes)
    cx.check(F.names(image) == ["SAME"], "only the live one is listed")
    cx.check(cx.eq(image.find_file("SAME"), d.contents(which)), "the live one is read")
    image.delete_file("SAME")
    gone(cx, d, image, which, "SAME")
    for k in range(3):
        if k != which:
            cx.check(cx.eq(fs.entry_bytes(cx, image.bytes, k), fs.entry_bytes(cx, before, k)), "other deleted entries unchanged")
    image.write_file("SAME", None, b"new")
    cx.check(F.names(image) == ["SAME"], "name can be used again")


def twins(cx, geo):
    """Two files of one name (damaged or foreign disks): the entry given is
    the one that goes."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    u = fs.usable()
    d.add(0, "OTHER", u[60:62], cx.bytelist("o", 3))
    n = cx.choose("len", [3, fs.payload])
    d.add(1, "SAME", u[40:42], cx.bytelist("p", n))
    d.add(2, "SAME", u[50:52], cx.bytelist("q", n))
    image = d.done()
    before = cx.snapshot(image.bytes)
    which = cx.choose("which", [1, 2])
    cx.check(F.names(image) == ["OTHER", "SAME", "SAME"], "both are listed")
    image.delete_file(image.files[which])
    cx.check(F.names(image) == ["OTHER", "SAME"], "one of them is left")
    cx.check(cx.not_(fs.live(cx, image.bytes, which)), "directory entry marked deleted")
    left = 3 - which
    cx.check(cx.eq(fs.entry_bytes(cx, image.bytes, left), fs.entry_bytes(cx, before, left)), "entry of the other one unchanged")
    cx.check(cx.eq(image.find_file("SAME"), d.contents(left)), "the other one stays")
    new, old = fs.bitmap(cx, image.bytes), fs.bitmap(cx, before)
    mine = d.files[which][1]
    cx.check(cx.all(new[s] == (1 if s in mine else old[s]) for s in range(len(old))), "exactly its sectors are free again")
    cx.reach("twins")


def longchain(cx, geo, n):
    """A long file: all sectors come back, including every t/s list."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    u = fs.usable()
    secs = u[5:5 + n]
    rev = cx.choose("order", [0, 1])
    if rev:
        secs = secs[::-1]
    total = n if fs.kind == "atari" else n - fs.nts(n)
    d.add(0, "LONG", secs, [(i * 7) & 255 for i in range(total * fs.payload)])
    image = d.done()
    image.delete_file("LONG")
    new = fs.bitmap(cx, image.bytes)
    cx.check(cx.all(new[s] == 1 for s in secs), "all of the file's sectors are free again")
    cx.check(sum(new) == len(u), "whole disk free")


def missing(cx, geo, n):
    """No name that is not on the disk is ever found."""
    from atrcopy import errors
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    s = fs.usable()
    d.add(0, "AB", s[20:22], [1])
    d.add(1, "AB.C" if fs.kind == "atari" else "AB C", s[30:32], [2])
    d.add_deleted(2, "XY", s[50])
    image = d.done()
    name = cx.text("n", n, 32, 90)
    known = F.names(image)
    match = cx.any(cx.eq(name, k) for k in known)
    before = cx.snapshot(image.bytes)
    for op in ("find_file", "find_dirent", "delete_file"):
        try:
            getattr(image, op)(name)
            cx.check(match, "only names on the disk are found")
            cx.reach("found")
        except errors.FileNotFound:
            cx.check(cx.not_(match), "names on the disk are found")
            cx.reach("not found")
            cx.check(cx.same_except(image.bytes, before, []), "image unchanged")


def similar(cx, geo, pos):
    """Two files whose names differ in arbitrary places: the one asked for is
    the one read and deleted."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    u = fs.usable()
    base = "ABCDEFGH.XYZ" if fs.kind == "atari" else "ABCDEFGH IJKLMNOP.QRSTUVWXYZ12"
    order = cx.choose("order", [0, 1])
    other = list(base)
    for i in pos:
        other[i] = "#"
    d.add(order, base, u[40:42], cx.bytelist("p", fs.payload))
    d.add(1 - order, "".join(other), u[50:52], cx.bytelist("q", fs.payload))
    codes = [ord(c) for c in base]
    p = fs.slot_pos(1 - order)
    for i in pos:
        c = cx.int("c%d" % i, 33, 126)
        codes[i] = c
        if fs.kind == "atari":
            d.img[p + 5 + (i if i < 8 else i - 1)] = c
        else:
            d.img[p + 3 + i] = c | 0x80
    cx.assume(cx.any(codes[i] != ord(base[i]) for i in pos))
    image = d.done()
    name = cx.mktext(codes)
    cx.check(cx.eq(image.find_file(name), d.contents(1 - order)), "the file asked for is read")
    cx.check(cx.eq(image.find_file(base), d.contents(order)), "the file asked for is read")
    which = cx.choose("which", [0, 1])
    image.delete_file(name if which == 1 - order else base)
    gone(cx, d, image, which, name if which == 1 - order else base)
    left = 1 - which
    keep = base if left == order else name
    cx.check(len(image.files) == 1 and cx.eq(image.files[0].filename, keep), "the other file stays")
    cx.check(cx.eq(image.find_file(keep), d.contents(left)), "the other file stays")
    new = fs.bitmap(cx, image.bytes)
    cx.check(cx.all(new[s] == (0 if s in d.files[left][1] else 1) for s in d.files[0][1] + d.files[1][1]), "exactly its sectors are free again")
    cx.reach("similar names")


def anyflag(cx, geo):
    """Files of any type and flag state can be deleted."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    u = fs.usable()
    d.add(0, "KEEP", u[60:62], [1])
    d.add(1, "ANY", u[40:42], cx.bytelist("p", fs.payload))
    d.add(2, "LAST", u[70:72], [1])
    f = cx.byte("flag")
    p = fs.slot_pos(1)
    if fs.kind == "atari":
        cx.assume((f & 0xc4) == 0x40)       # in use, DOS 2 links
        d.img[p] = f
    else:
        d.img[p + 2] = f
    image = d.done()
    before = cx.snapshot(image.bytes)
    image.delete_file("ANY")
    gone(cx, d, image, 1, "ANY")
    new, old = fs.bitmap(cx, image.bytes), fs.bitmap(cx, before)
    mine = d.files[1][1]
    cx.check(cx.all(new[s] == (1 if s in mine else old[s]) for s in range(len(old))), "exactly its sectors are free again")
    cx.check(F.names(image) == ["KEEP", "LAST"], "the others are listed")
    image.write_file("ANY", None, b"1")
    cx.check(fs.live(cx, image.bytes, 1), "slot can be reused")
    cx.check(F.names(image) == ["KEEP", "ANY", "LAST"], "name can be used again")
    cx.reach("any flag")


def anycount(cx, geo, sparse):
    """The sector count in the directory entry is for display: it does not
    decide what is freed."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    u = fs.usable()
    d.add(0, "KEEP", u[60:62], [1])
    n = 3 if fs.kind == "atari" else 4
    d.add(1, "ANY", u[40:40 + n], cx.bytelist("p", 2 * fs.payload + 3))
    d.add(2, "LAST", u[70:72], [1])
    p = fs.slot_pos(1) + (1 if fs.kind == "atari" else 33)
    if fs.kind == "atari":
        d.img[p], d.img[p + 1] = cx.byte("count lo"), cx.int("count hi", 0, 1)
    else:
        c = cx.choose("count", [0, 1, 2, 3, 5, 6, 27, 123, 124, 255, 256, 560])
        d.img[p], d.img[p + 1] = c & 255, c >> 8
        if sparse:
            # a hole in the list of sectors
            q = u[40] * 256 + 12
            d.img[q + 6:q + 8] = d.img[q + 4:q + 6]
            d.img[q + 4:q + 6] = 0
    image = d.done()
    before = cx.snapshot(image.bytes)
    image.delete_file("ANY")
    gone(cx, d, image, 1, "ANY")
    new, old = fs.bitmap(cx, image.bytes), fs.bitmap(cx, before)
    mine = d.files[1][1]
    cx.check(cx.all(new[s] == 1 for s in mine), "all of the file's sectors are free again")
    cx.check(cx.all(new[s] == old[s] for s in range(len(old)) if s not in mine), "no other sector changes state")
    cx.check(F.names(image) == ["KEEP", "LAST"], "the others are listed")
    cx.reach("any count")


def cases(tier):
    T = tier == "thorough"
    out = []
    for geo in ["sd", "ed", "dd", "dos33"] + (["ddx", "dd2", "sdx", "edx", "dd2x"] if T else []):
        ap = geo == "dos33"
        w = [56, 57, 271, 289, 552] if ap else [10, 15, 16, 359, 369]
        out.append({"name": "one-%s" % geo, "fn": "one", "cost": 5, "params": {"geo": geo, "window": w, "slots": [0, 1, 3, 4]}})
        out.append({"name": "dirent-%s" % geo, "fn": "one", "cost": 3, "params": {"geo": geo, "window": [], "slots": [0, 1, 3, 4], "bydirent": True}})
        out.append({"name": "refill-%s" % geo, "fn": "refill", "cost": 6, "params": {"geo": geo, "slots": [0, 1, 3, 4]}})
        out.append({"name": "samename-%s" % geo, "fn": "samename", "cost": 2, "params": {"geo": geo}})
        out.append({"name": "twins-%s" % geo, "fn": "twins", "cost": 2, "params": {"geo": geo}})
        for n in ([124, 246, 300] if ap else [130, 400]) + ([400] if T and ap else []):
            out.append({"name": "long-%d-%s" % (n, geo), "fn": "longchain", "cost": 3, "params": {"geo": geo, "n": n}})
        if geo in ("sd", "dos33") or T:
            out.append({"name": "history-%s" % geo, "fn": "history", "cost": 20, "params": {"geo": geo, "ops": (4 if ap else 5) if T else (3 if ap else 4)}})
            for k, pos in enumerate([[0, 7, 11], [6, 9], [10]] if not ap else [[0, 29], [8, 16], [28]]):
                out.append({"name": "similar-%d-%s" % (k, geo), "fn": "similar", "cost": 2, "params": {"geo": geo, "pos": pos}})
            out.append({"name": "anyflag-%s" % geo, "fn": "anyflag", "cost": 2, "params": {"geo": geo}})
            for sparse in (False, True) if ap else (False,):
                out.append({"name": "anycount-%d-%s" % (sparse, geo), "fn": "anycount", "cost": 2, "params": {"geo": geo, "sparse": sparse}})
            for n in ([1, 2, 3, 4] if not T else [1, 2, 3, 4, 5]):
                out.append({"name": "missing-%d-%s" % (n, geo), "fn": "missing", "cost": 4, "params": {"geo": geo, "n": n}})
    return out


def REACH(tier):
    return ["not found", "directory full", "full", "history done", "found", "similar names", "any flag", "any count", "twins"]


BOUNDS = {
    "quick": "Atari SD/ED/DD and DOS 3.3; disks with 5 files in fragmented chains and symbolic contents, 5 sectors of arbitrary allocation; all histories of 4 (DOS 3.3: 3) adds/deletes over 3 names in a 6/10-sector pool; chains up to 400 sectors; all names of 1 to 4 characters; pairs of long names differing in arbitrary characters at 1 to 3 positions; two files of one name; every flag/type byte and sector count (DOS 3.3: 12 counts, with and without a hole in the sector list) of the deleted file.",
    "thorough": "as quick, all 9 geometries, histories of 5 (DOS 3.3: 4) operations, names of 1 to 5 characters.",
}
OUTSIDE = "longer histories, enhanced-density sectors above 719, subdirectories"
ASSUMPTIONS = ["file contents are byte arrays independent of the directory", "disk populated by the reference writer in harness/fs.py"]
