"""Adding or deleting a file leaves everything else on the disk alone."""
from . import fs as F


def allowed(cx, fs, sectors, slots):
    """Byte offsets that an operation on those sectors/slots may change."""
    out = []
    for s in sectors:
        p, n = fs.pos(s)
        out.extend(range(p, p + n))
    for k in slots:
        p = fs.slot_pos(k)
        out.extend(range(p, p + fs.slot_size))
    p, n = fs.map_pos()
    if fs.kind == "atari":
        out.extend(range(p, p + n))
        out.extend([p - 7, p - 6])          # free sector count
    else:
        for t in range(35):
            out.extend([p + 4 * t, p + 4 * t + 1])
        out.extend([p - 8, p - 7])          # last track allocated, direction
    return out


def others_intact(cx, d, image, skip):
    for slot in d.files:
        if slot in skip:
            continue
        name, secs, data, flag = d.files[slot]
        got, ok = d.fs.read(cx, image.bytes, slot)
        cx.check(cx.and_(got is not None, ok), "other file's sectors still chained")
        cx.check(cx.eq(image.find_file(name), d.contents(slot)), "other file's contents")


def entries_intact(cx, d, image, before, skip):
    for slot in list(d.files) + list(d.deleted):
        if slot not in skip:
            cx.check(cx.eq(d.fs.entry_bytes(cx, image.bytes, slot), d.fs.entry_bytes(cx, before, slot)), "other directory entry unchanged")


def beyond(cx, d, sym):
    """Bits of the DOS 3.3 map for tracks that the disk does not have."""
    if d.fs.kind == "atari":
        return
    v = d.fs.map_pos()[0]
    for k, t in enumerate(range(35, 50)):
        for i in (0, 1):
            d.img[v + 4 * t + i] = cx.byte("map%d.%d" % (t, i)) if sym and t in (35, 36, 49) else (0xa5 + 7 * k + i) & 255


def add(cx, geo, lengths, window, rest=True):
    d = F.populate(cx, geo, "frag", 0xe5)
    fs = d.fs
    if not rest:
        d.all_used()
    else:
        beyond(cx, d, False)
    d.window("w", window)
    image = d.done()
    before = cx.snapshot(image.bytes)
    listed = F.names(image)
    slot = d.next_slot()
    n = cx.choose("len", lengths)
    from atrcopy import errors
    try:
        image.write_file("NEW.BIN", None, cx.bytes("n", n))
    except errors.NotEnoughSpaceOnDisk:
        cx.reach("no space")
        return
    mine = fs.chain(cx, image.bytes, slot)
    cx.check(mine is not None, "new file is chained")
    for k in d.files:
        cx.check(not (set(mine) & set(d.files[k][1])), "new file shares no sector")
    cx.check(not (set(mine) & set(fs.system_sectors())), "new file stays out of system sectors")
    cx.check(cx.same_except(image.bytes, before, allowed(cx, fs, mine, [slot])), "bytes outside the new file unchanged")
    entries_intact(cx, d, image, before, [slot])
    others_intact(cx, d, image, [])
    cx.check(sorted(listed + ["NEW.BIN"]) == sorted(F.names(image)), "listing gains exactly the new file")


def delete(cx, geo, slots, sym_names=False):
    d = F.populate(cx, geo, "frag", 0xe5)
    fs = d.fs
    beyond(cx, d, True)
    image = d.done()
    before = cx.snapshot(image.bytes)
    listed = F.names(image)
    slot = cx.choose("slot", slots)
    name = d.files[slot][0]
    image.delete_file(name)
    cx.check(cx.same_except(image.bytes, before, allowed(cx, fs, [], [slot])), "bytes outside the deleted entry unchanged")
    entries_intact(cx, d, image, before, [slot])
    others_intact(cx, d, image, [slot])
    listed.remove(name)
    cx.check(listed == F.names(image), "listing loses exactly the deleted file")


def entry(cx, geo, op, which, pos):
    """Other directory entries with arbitrary names, flags and types survive
    an add or a delete byte for byte."""
    d = F.populate(cx, geo, "empty")
    fs = d.fs
    d.add(0, "FIRST", [60, 61], cx.bytelist("p", 5))
    d.add(1, "X1", [70, 71], cx.bytelist("q1", 5))
    d.add_deleted(2, "ZAP", 70)
    d.add(3, "X3", [74, 75], cx.bytelist("q3", 5))
    d.add(4, "LAST", [80, 81], cx.bytelist("r", 5))
    p = fs.slot_pos(which)
    atari = fs.kind == "atari"
    if which == 2:
        if atari:
            g = cx.byte("flag")
            if op == "hidden":
                # not in use, but not deleted either (DOS 2.5 marks files
                # above sector 719 so)
                cx.assume(cx.and_((g & 0xc0) == 0, g != 0))
                cx.reach("neither in use nor deleted")
            else:
                cx.assume((g & 0xc0) == 0x80)
            d.img[p] = g
        for i in ((1, 2, 3, 4, 12, 15) if atari else (1, 2, 31, 32, 33)):
            d.img[p + i] = cx.byte("del[%d]" % i)
    else:
        for i in pos:
            d.img[p + (5 if atari else 3) + i] = cx.byte("name[%d]" % i)
        f = cx.byte("flag")
        if atari:
            cx.assume((f & 0xc0) == 0x40)     # in use
            d.img[p] = f
        else:
            d.img[p + 2] = f
    image = d.done()
    before = cx.snapshot(image.bytes)
    mine = []
    if op == "add":
        image.write_file("NEW", None, cx.bytes("n", 5))
        touched = [2]
        mine = fs.chain(cx, image.bytes, 2)
    elif op == "hidden":
        image.write_file("NEW", None, cx.bytes("n", 5))
        touched = [5]
        mine = fs.chain(cx, image.bytes, 5)
    else:
        image.delete_file("FIRST" if op == "delete first" else "LAST")
        touched = [0] if op == "delete first" else [4]
    entries_intact(cx, d, image, before, touched)
    cx.check(cx.same_except(image.bytes, before, allowed(cx, fs, mine, touched)), "bytes outside the operation unchanged")


def history(cx, geo, ops):
    """A history of adds and deletes chosen by the solver; after each step all
    remaining files read back."""
    d = F.populate(cx, geo, "empty", 0xe5)
    image = d.done()
    nxt = 0
    for i in range(ops):
        live = sorted(d.files)
        kind = cx.choose("op%d" % i, ["add0", "add"] + live)
        if kind in ("add", "add0"):
            slot = d.next_slot()
            name = "F%d.T" % nxt
            nxt += 1
            data = cx.bytes("d%d" % i, d.fs.payload + 3 if kind == "add" else 4)
            before = cx.snapshot(image.bytes)
            image.write_file(name, None, data)
            ch = d.fs.chain(cx, image.bytes, slot)
            cx.check(ch is not None, "new file is chained")
            d.files[slot] = (name, ch, cx.lst(data), None)
            d.deleted.pop(slot, None)
            ok = allowed(cx, d.fs, ch, [slot])
        else:
            name = d.files[kind][0]
            before = cx.snapshot(image.bytes)
            image.delete_file(name)
            ok = allowed(cx, d.fs, [], [kind])
            del d.files[kind]
            d.deleted[kind] = name
        cx.check(cx.same_except(image.bytes, before, ok), "bytes outside the operation unchanged")
        others_intact(cx, d, image, [])
        used = [s for k in d.files for s in d.files[k][1]]
        cx.check(len(used) == len(set(used)), "no sector owned twice")
        cx.check(sorted(F.names(image)) == sorted(d.files[k][0] for k in d.files), "listing matches the history")


def packed(cx, geo, counts):
    """Adding or deleting with many directory entries."""
    n = cx.choose("existing", counts)
    d = F.populate(cx, geo, "full:%d" % n)
    image = d.done()
    before = cx.snapshot(image.bytes)
    which = cx.choose("which", ["add", 0, n // 2, n - 1])
    if which == "add":
        image.write_file("NEW", None, cx.bytes("d", 9))
        mine, touched = d.fs.chain(cx, image.bytes, n), [n]
    else:
        image.delete_file(d.files[which][0])
        mine, touched = [], [which]
    cx.check(cx.same_except(image.bytes, before, allowed(cx, d.fs, mine, touched)), "bytes outside the operation unchanged")
    left = [d.files[k][0] for k in d.files if k not in touched] + (["NEW"] if which == "add" else [])
    cx.check(sorted(F.names(image)) == sorted(left), "listing")


def cases(tier):
    T = tier == "thorough"
    out = []
    for geo in ["sd", "ed", "dd", "dd2", "ddx", "dos33"] + (["sdx", "edx", "dd2x"] if T else []):
        ap = geo == "dos33"
        p = F.make(geo).payload
        w = [47 + i for i in range(8, 12)] if ap else list(range(10, 15))
        w2 = [270, 271, 289, 290, 291] if ap else [358, 359, 369, 370]
        out.append({"name": "add-%s" % geo, "fn": "add", "cost": 6, "params": {"geo": geo, "lengths": [0, p - 1, 2 * p + 1], "window": w}})
        out.append({"name": "add-tight-%s" % geo, "fn": "add", "cost": 6, "params": {"geo": geo, "lengths": [1, p + 1], "window": w2, "rest": False}})
        out.append({"name": "add-large-%s" % geo, "fn": "add", "cost": 6, "params": {"geo": geo, "lengths": [260 * p, 399 * p + 5], "window": []}})
        out.append({"name": "delete-%s" % geo, "fn": "delete", "cost": 6, "params": {"geo": geo, "slots": [0, 1, 3, 4]}})
        if geo in ("sd", "dd", "ed", "edx") and (T or geo != "edx"):
            out.append({"name": "entry-hidden-%s" % geo, "fn": "entry", "params": {"geo": geo, "op": "hidden", "which": 2, "pos": []}})
        if geo in ("sd", "dd", "dos33") or T:
            for op in ("add", "delete first", "delete last"):
                for which in (1, 2, 3):
                    pos = (0, 7, 10) if not ap else (0, 29)
                    if T:
                        pos = (0, 6, 7, 8, 10) if not ap else (0, 1, 28, 29)
                    if which == 2 and op == "add":
                        continue
                    out.append({"name": "entry-%s-%d-%s" % (op.replace(" ", "-"), which, geo), "fn": "entry", "params": {"geo": geo, "op": op, "which": which, "pos": pos}})
        if geo in ("sd", "dd", "dos33") or T:
            out.append({"name": "history-%s" % geo, "fn": "history", "cost": 20, "params": {"geo": geo, "ops": (5 if T else 4) if not ap else (4 if T else 3)}})
            c = [7, 8, 9, 16, 62, 63] if not ap else [6, 7, 8, 97, 98, 103]
            if T:
                c = list(range(2, 64 if not ap else 105))
            out.append({"name": "packed-%s" % geo, "fn": "packed", "cost": 20, "params": {"geo": geo, "counts": c}})
    return out


def REACH(tier):
    return ["no space", "listing gains exactly the new file", "listing loses exactly the deleted file", "listing matches the history", "other directory entry unchanged", "neither in use nor deleted"]


BOUNDS = {
    "quick": "6 geometries; disks with 5 files in fragmented chains and symbolic contents; every free/used pattern of windows of 4 or 5 sectors; new files of 0 to 400 sectors; other entries with arbitrary flag/type bytes, characters and, when deleted, counts and positions; all histories of 4 (DOS 3.3: 3) adds and deletes on an empty disk; directories with 6 to 103 entries.",
    "thorough": "all 9 geometries, more character positions, histories of 5 (DOS 3.3: 4), directories of every size.",
}
OUTSIDE = "longer histories; header bytes of catalog sectors (bytes 0 and 3 to 10), the unused second half of double density directory sectors and entries after the first never-used one, which are rewritten as zero"
ASSUMPTIONS = ["disk populated by the reference writer in harness/fs.py"]
