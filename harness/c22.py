"""The commands, from the argument list to the files they leave behind, over a
file system in memory."""
import os
import sys

from . import fs as F
from .vfs import VFS, ROOT

FLAGS = {"force": "-f", "dry": "--dry-run", "all": "-a", "lower": "-l", "text": "-t"}


def setup(cx, d=None, name="disk.atr", extra=()):
    import atrcopy
    fs = VFS(cx, real=[os.path.join(os.path.dirname(atrcopy.__file__), "templates")])
    if d is not None:
        d.fs.fix_count(cx, d.img)
        fs.add(name, d.img)
    for n, data in extra:
        fs.add(n, data)
    fs.install()
    return atrcopy, fs


def command(cx, atrcopy, argv):
    """Run a command line; what ended it."""
    saved = sys.argv
    sys.argv = ["atrcopy"] + list(argv)
    try:
        atrcopy.run()
    except SystemExit as e:
        return e
    except (OSError, ValueError, atrcopy.errors.AtrError) as e:
        return e
    finally:
        sys.argv = saved
    return None


def said(cx, fs, *words):
    """A line that starts with the words was printed."""
    for line in fs.said:
        if hasattr(line, "startswith") and line.startswith(" ".join(words)):
            return True
    return False


def same(cx, fs, before, skip=()):
    """Every file that existed has the same content."""
    for path, data in before:
        if any(path == fs.norm(s) for s in skip):
            continue
        cx.check(fs.find(path) is not None, "existing files stay")
        now = fs.content(path)
        cx.check(now is data or cx.eq(now, data), "existing files keep their content")


def only(cx, fs, allowed):
    for op, path, existed in fs.changes():
        cx.check(op == "write" and any(path == fs.norm(a) for a in allowed), "nothing else is written", (op, path))


def world(fs):
    return [(f[0], f[1]) for f in fs.files]


def model(cx, d, img):
    """name -> contents of the files on a saved image, by the reference model."""
    out = {}
    fs = d.fs
    for slot in range(16):
        if fs.live(cx, img, slot):
            e = fs.entry_bytes(cx, img, slot)
            if fs.kind == "atari":
                base = "".join(chr(cx.concrete(c)) for c in e[5:13]).rstrip()
                ext = "".join(chr(cx.concrete(c)) for c in e[13:16]).rstrip()
                name = base + ("." + ext if ext else "")
            else:
                name = "".join(chr(cx.concrete(c) & 127) for c in e[3:33]).rstrip()
            data, ok = fs.read(cx, img, slot)
            cx.check(data is not None and ok, "files on the saved image are whole", name)
            cx.check(name not in out, "one file of each name", name)
            out[name] = data
    return out


def saved(cx, fs, d, name="disk.atr"):
    data = fs.get(name)
    cx.check(len(data) == d.fs.size, "size of the saved image")
    return model(cx, d, cx.mkarray(cx.lst(data)))


IMG = {"sd": "disk.atr", "dd": "disk.atr", "dos33": "disk.dsk"}


def padded(cx, d, data):
    return d.fs.padded(cx, cx.lst(data))


def blob(cx, geo, tag, n):
    """Arbitrary bytes; on DOS 3.3 an address of at least $2000 in front."""
    b = cx.bytelist(tag, n)
    if geo == "dos33":
        b[1] = 0x20
    return b


# ---------------------------------------------------------------- extract
def lower(cx, c):
    return cx.ite(cx.and_(c >= 65, c <= 90), c + 32, c)


def extract(cx, geo, opts, free, where, how):
    """A name on the disk made of arbitrary characters."""
    d = F.Disk(cx, geo)
    data = [blob(cx, geo, "a", 5), blob(cx, geo, "b", 4)]
    if "text" in opts:
        data = [[1, 0x9b, 0x9b, 0x7f, 0x7e], [cx.byte("b"), 0x9b, 65, 0x7f]]
    secs = [[10], [11]] if geo != "dos33" else [[60, 61], [62, 63]]
    d.add(0, "XYZ.Q" if geo != "dos33" else "XYZQ", secs[0], data[0])
    d.add(1, "SECOND.DAT" if geo != "dos33" else "SECOND", secs[1], data[1])
    p = d.fs.slot_pos(0) + (5 if geo != "dos33" else 3)
    for i in free:
        c = cx.int("n[%d]" % i, 33, 126)
        d.img[p + i] = c if geo != "dos33" else c + 128
    img = IMG[geo]
    atrcopy, fs = setup(cx, d, img)
    target = ROOT
    argv = [img, "extract"]
    if "dry" in opts:
        argv.append("--dry-run")
        argv = ["--dry-run", img, "extract"]
    argv += [FLAGS[o] for o in opts if o != "dry"]
    if where == "dir":
        argv += ["-d", "out"]
        target = ROOT + "/out"
    elif where == "newdir":
        argv += ["-d", "new/out"]
        target = ROOT + "/new/out"
    fs.dirs.append(ROOT + "/out")
    fs.dirs.append("/etc")
    fs.dirs.append(ROOT + "/a")
    # something is already there
    second = "second.dat" if geo != "dos33" else "second"
    if "lower" not in opts:
        second = second.upper()
    there, old = cx.choose("there", [(None, None), (second, [1, 2, 3]), (second, []), (second, cx.bytelist("old", len(padded(cx, d, data[1])))), ("XYZ.Q" if geo != "dos33" else "XYZQ", [1, 2, 3])])
    if there is not None:
        fs.add(target + "/" + there, old)
    fs.add("/etc/passwd", [7])
    fs.add(ROOT + "/../up", [8])
    if how == "all":
        argv.append("-a")
    else:
        argv += ["SECOND.DAT" if geo != "dos33" else "SECOND", "MISSING"]
    before = world(fs)
    end = command(cx, atrcopy, argv)
    if "dry" in opts:
        cx.check(not fs.changes(), "a dry run writes nothing")
        cx.reach("dry run")
        return
    for op, path, existed in fs.changes():
        if op == "mkdir":
            cx.check(target.startswith(path), "only the target directory is made")
            continue
        cx.check(op == "write", "nothing is removed")
        cx.check(fs.parent(path) == target, "nothing is written outside the target directory", path)
        if existed and "force" not in opts:
            # only a file this command has made itself may be seen again
            cx.check(False, "an existing file is not overwritten without force")
    if "force" not in opts:
        same(cx, fs, before)
    if end is not None:
        cx.check(type(end) is not SystemExit, "the command line is understood")
        cx.reach("failed")
        return
    # the second file has a plain name: it must be there
    want = padded(cx, d, data[1])
    if "text" in opts:
        want = [cx.ite(c == 0x7f, 9, cx.ite(c == 0x9b, 10, c)) for c in want]
    path = fs.norm(target + "/" + second)
    f = fs.find(path)
    cx.check(f is not None, "the file is extracted")
    if there == second and "force" not in opts:
        cx.check(len(f[1]) == len(old) and cx.eq(f[1], old), "an existing file is kept")
        cx.reach("kept")
    elif how == "all" and "force" in opts:
        # (another file may have had the same name)
        cx.check(len(f[1]) == len(want), "the file is extracted")
    elif how == "all":
        w = [fs.content(x[1]) for x in fs.changes() if x[0] == "write"]
        cx.check(cx.any(cx.eq(x, want) for x in w) if there != second else True, "the file is extracted")
        cx.reach("extracted all")
    else:
        cx.check(cx.eq(f[1], want), "contents of the extracted file")
        cx.reach("extracted")


# ------------------------------------------------------------- add, delete
def disk(cx, geo):
    d = F.Disk(cx, geo)
    if geo == "dos33":
        d.add(0, "ALPHA", [60, 61], blob(cx, geo, "a", 6))
        d.add(1, "BETA", [62, 63], blob(cx, geo, "b", 3))
        d.add(2, "GAMMA", [64, 65], blob(cx, geo, "g", 3))
    else:
        d.add(0, "ALPHA", [10], cx.bytelist("a", 6))
        d.add(1, "BETA", [11], cx.bytelist("b", 3))
        d.add(2, "GAMMA", [12], cx.bytelist("g", 3))
    return d


def add(cx, geo, force, dry, names):
    d = disk(cx, geo)
    img = IMG[geo]
    local = {}
    extra = []
    for n in names:
        if n not in local:
            local[n] = cx.bytelist("l%d" % len(local), 4 + len(local))
            extra.append((n, local[n]))
    # the sector counts in the directory are only informative
    if geo != "dos33":
        for slot in d.files:
            d.img[d.fs.slot_pos(slot) + 1] = cx.byte("count%d" % slot)
    atrcopy, fs = setup(cx, d, img, extra)
    fs.dirs.append(ROOT + "/sub")
    before = world(fs)
    argv = (["--dry-run"] if dry else []) + [img, "add"] + (["-f"] if force else []) + list(names)
    end = command(cx, atrcopy, argv)
    cx.check(end is None, "the command succeeds", end)
    if dry:
        cx.check(not fs.changes(), "a dry run writes nothing")
        same(cx, fs, before)
        cx.reach("dry run")
        return
    only(cx, fs, [img])
    same(cx, fs, before, [img])
    want = {f[0]: padded(cx, d, f[2]) for f in d.files.values()}
    for n in names:
        base = n.split("/")[-1]
        if base in want and not force:
            cx.reach("not replaced")
            continue
        want[base] = padded(cx, d, local[n])
        cx.check(said(cx, fs, "copying", base), "what is added is reported")
        cx.reach("added")
    got = saved(cx, fs, d, img)
    cx.check(sorted(got) == sorted(want), "the files on the saved image", sorted(got))
    for n in want:
        cx.check(cx.eq(got[n], want[n]), "contents of the files on the saved image", n)


def remove(cx, geo, force, dry, names):
    d = disk(cx, geo)
    img = IMG[geo]
    locked = {}
    for slot in d.files:
        p = d.fs.slot_pos(slot) + (2 if geo == "dos33" else 0)
        b = cx.int("lock%d" % slot, 0, 1)
        d.img[p] = (d.files[slot][3] & (0x7f if geo == "dos33" else 0xdf)) | b * (0x80 if geo == "dos33" else 0x20)
        locked[d.files[slot][0]] = b
    atrcopy, fs = setup(cx, d, img, [("BETA", [9, 9])])
    before = world(fs)
    argv = (["--dry-run"] if dry else []) + [img, "delete"] + (["-f"] if force else []) + list(names)
    end = command(cx, atrcopy, argv)
    cx.check(end is None, "the command succeeds", end)
    if dry:
        cx.check(not fs.changes(), "a dry run writes nothing")
        same(cx, fs, before)
        cx.reach("dry run")
        return
    only(cx, fs, [img])
    same(cx, fs, before, [img])
    want = {f[0]: padded(cx, d, f[2]) for f in d.files.values()}
    for n in names:
        if n not in want:
            cx.reach("not there")
            continue
        if not force and locked[n] == 1:
            cx.reach("locked")
            continue
        del want[n]
        cx.reach("removed")
    got = saved(cx, fs, d, img)
    cx.check(sorted(got) == sorted(want), "the files on the saved image", sorted(got))
    for n in want:
        cx.check(cx.eq(got[n], want[n]), "contents of the files on the saved image", n)


def assemble(cx, geo, force, dry, name, cmd):
    d = disk(cx, geo)
    img = IMG[geo]
    blob = cx.bytelist("l", 5)
    atrcopy, fs = setup(cx, d, img, [("blob.bin", blob)])
    before = world(fs)
    argv = (["--dry-run"] if dry else []) + [img, cmd] + (["-f"] if force else []) + ["-d", "blob.bin@2000", "-o", name]
    end = command(cx, atrcopy, argv)
    cx.check(end is None, "the command succeeds", end)
    if dry:
        cx.check(not fs.changes(), "a dry run writes nothing")
        same(cx, fs, before)
        cx.reach("dry run")
        return
    only(cx, fs, [img])
    same(cx, fs, before, [img])
    want = {f[0]: padded(cx, d, f[2]) for f in d.files.values()}
    if name in want and not force:
        cx.reach("not replaced")
    else:
        if geo == "dos33":
            exe = [0, 0x20, 5, 0] + blob
        else:
            exe = None
        want[name] = exe
        cx.reach("assembled")
    got = saved(cx, fs, d, img)
    cx.check(sorted(got) == sorted(want), "the files on the saved image", sorted(got))
    for n in want:
        if want[n] is not None:
            cx.check(cx.eq(got[n], padded(cx, d, want[n]) if n == name and want[n][:2] == [0, 0x20] else want[n]), "contents of the files on the saved image", n)
        else:
            cx.check(cx.eq(got[n][-5:], blob) or any(cx.eq(got[n][i:i + 5], blob) for i in range(2, 9)), "the assembled bytes are on the saved image")


def local(cx, cmd, force, dry, exists):
    """The local file system in the place of a disk image."""
    blob = cx.bytelist("l", 5)
    atrcopy, fs = setup(cx, None, "", [("sub/blob.bin", blob), ("other", [5])])
    fs.dirs.append(ROOT + "/sub")
    name = "Out.xex" if cmd == "assemble" else "blob.bin"
    old = cx.choose("old", [[1, 2, 3], [], cx.bytelist("same", 5), cx.bytelist("exe", 11)]) if exists else None
    if exists:
        fs.add(name, old)
    before = world(fs)
    args = ["-d", "sub/blob.bin@2000", "-o", name] if cmd == "assemble" else ["sub/blob.bin"]
    end = command(cx, atrcopy, (["--dry-run"] if dry else []) + [".", cmd] + (["-f"] if force else []) + args)
    cx.check(end is None, "the command succeeds", end)
    if dry or (exists and not force):
        cx.check(not fs.changes(), "nothing is written")
        same(cx, fs, before)
        cx.reach("local file kept")
        return
    only(cx, fs, [name])
    same(cx, fs, before, [name])
    data = cx.lst(fs.get(name))
    cx.check(len(data) >= 5 and cx.eq(data[-5:], blob) and (cmd == "assemble" or len(data) == 5), "the file is written")
    cx.reach("local file written")


def create(cx, template, force, dry, exists, name, ask=None):
    atrcopy, fs = setup(cx)
    path = os.path.join(os.path.dirname(atrcopy.__file__), "templates", template)
    with fs.open(path, "rb") as fh:
        want = list(fh.read())
    if exists:
        fs.add(name, cx.choose("old", [cx.bytelist("old", 4), [], cx.bytelist("big", 2) + want[2:]]))
    fs.add("other", [5])
    before = world(fs)
    argv = (["--dry-run"] if dry else []) + [name, "create"] + (["-f"] if force else []) + [ask or template]
    end = command(cx, atrcopy, argv)
    cx.check(end is None, "the command succeeds", end)
    if dry:
        cx.check(not fs.changes(), "a dry run writes nothing")
        same(cx, fs, before)
        cx.reach("dry run")
        return
    if exists and not force:
        cx.check(not fs.changes(), "an existing image is not replaced without force")
        same(cx, fs, before)
        cx.reach("not replaced")
        return
    only(cx, fs, [name])
    same(cx, fs, before, [name])
    cx.check(fs.has(name) and cx.eq(fs.get(name), want), "the created image is the template")
    cx.reach("created")


def ambiguous(cx, template, exists):
    """A template name that means nothing or more than one template."""
    atrcopy, fs = setup(cx)
    if exists:
        fs.add("new.atr", cx.bytelist("old", 4))
    before = world(fs)
    command(cx, atrcopy, ["new.atr", "create", "-f", template])
    cx.check(not fs.changes(), "nothing is written")
    same(cx, fs, before)
    cx.reach("no template")


def boot(cx, image, dry, exists):
    blob = cx.bytelist("l", 5)
    atrcopy, fs = setup(cx, None, image, [("blob.bin", blob), ("other", [5])])
    if exists:
        fs.add(image, cx.bytelist("old", 4))
    before = world(fs)
    end = command(cx, atrcopy, (["--dry-run"] if dry else []) + [image, "boot", "-d", "blob.bin@4000"])
    cx.check(end is None, "the command succeeds", end)
    if dry:
        cx.check(not fs.changes(), "a dry run writes nothing")
        same(cx, fs, before)
        cx.reach("dry run")
        return
    only(cx, fs, [image])
    same(cx, fs, before, [image])
    cx.check(fs.has(image), "the image is saved")
    data = cx.lst(fs.get(image))
    cx.check(len(data) > 400 and cx.any(cx.eq(data[i:i + 5], blob) for i in range(0, min(6000, len(data) - 4))), "the bytes are on the saved image")
    cx.reach("booted")


def vtoc(cx, geo, dry, clear):
    d = disk(cx, geo)
    d.img[d.fs.pos(d.fs.usable()[-1])[0]] = cx.byte("free")
    img = IMG[geo]
    atrcopy, fs = setup(cx, d, img)
    before = world(fs)
    end = command(cx, atrcopy, (["--dry-run"] if dry else []) + [img, "vtoc"] + (["-e"] if clear else []))
    cx.check(end is None, "the command succeeds", end)
    if dry or not clear:
        cx.check(not fs.changes(), "nothing is written")
        same(cx, fs, before)
        cx.reach("looked at")
        return
    only(cx, fs, [img])
    want = {f[0]: padded(cx, d, f[2]) for f in d.files.values()}
    got = saved(cx, fs, d, img)
    cx.check(sorted(got) == sorted(want), "the files on the saved image", sorted(got))
    for n in want:
        cx.check(cx.eq(got[n], want[n]), "contents of the files on the saved image", n)
    cx.check(cx.plain(cx.lst(fs.get(img))[d.fs.pos(d.fs.usable()[-1])[0]]) == 0, "free sectors are cleared in the saved image")
    cx.reach("cleared")


def look(cx, geo, argv):
    d = disk(cx, geo)
    img = IMG[geo]
    atrcopy, fs = setup(cx, d, img)
    before = world(fs)
    end = command(cx, atrcopy, [img] + list(argv))
    cx.check(end is None, "the command succeeds", end)
    cx.check(not fs.changes(), "nothing is written")
    same(cx, fs, before)
    cx.reach("looked at")


def unreadable(cx, argv):
    """The image is no image: whatever the command, it is left alone."""
    atrcopy, fs = setup(cx, None, "", [("disk.atr", [1, 2, 3]), ("f", [1])])
    before = world(fs)
    command(cx, atrcopy, ["disk.atr"] + list(argv))
    cx.check(not fs.changes(), "nothing is written")
    same(cx, fs, before)
    cx.reach("unreadable")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda label, fn, cost=2, **p: out.append({"name": label, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    full = [[], ["force"], ["dry"], ["lower"], ["text"]] + ([["force", "text"], ["lower", "force"], ["dry", "force"]] if T else [])
    for geo in ("sd", "dos33"):
        for opts in full:
            for where in ("here", "dir", "newdir"):
                if not T and where == "newdir" and opts not in ([], ["dry"]):
                    continue
                if not T and where == "dir" and opts == ["text"]:
                    continue
                add("extract-%s-%s-%s" % (geo, "+".join(opts), where), "extract", cost=10, geo=geo, opts=opts, free=[0, 1], where=where, how="all")
        for opts in ([], ["force"], ["text"]):
            add("extract-one-%s-%s" % (geo, "+".join(opts)), "extract", geo=geo, opts=opts, free=[], where="dir", how="one")
        lists = [["NEW"], ["ALPHA"], ["NEW", "ALPHA"], ["ALPHA", "NEW"], ["BETA", "ALPHA"], ["sub/BETA", "sub/NEW"], ["new", "alpha", "sub/x_1"]]
        for k, names in enumerate(lists):
            for force in (False, True):
                add("add-%s-%d-%d" % (geo, k, force), "add", geo=geo, force=force, dry=False, names=names)
        for force in (False, True):
            add("add-%s-dry-%d" % (geo, force), "add", geo=geo, force=force, dry=True, names=["NEW", "ALPHA"])
            for k, names in enumerate([["ALPHA"], ["NOPE"], ["ALPHA", "NOPE"], ["NOPE", "BETA"], ["ALPHA", "BETA", "GAMMA"], ["GAMMA", "GAMMA"]]):
                add("remove-%s-%d-%d" % (geo, k, force), "remove", geo=geo, force=force, dry=False, names=names)
            add("remove-%s-dry-%d" % (geo, force), "remove", geo=geo, force=force, dry=True, names=["ALPHA", "BETA"])
            for name in ("NEW", "ALPHA"):
                add("assemble-%s-%s-%d" % (geo, name, force), "assemble", geo=geo, force=force, dry=False, name=name, cmd="assemble")
            add("assemble-%s-dry-%d" % (geo, force), "assemble", geo=geo, force=force, dry=True, name="ALPHA", cmd="asm")
        for dry in (False, True):
            for clear in (False, True):
                add("vtoc-%s-%d-%d" % (geo, dry, clear), "vtoc", geo=geo, dry=dry, clear=clear)
        for argv in (["list"], [], ["ls", "-c"], ["crc"], ["segments"], ["list", "-m", "ALPHA"]):
            add("look-%s-%s" % (geo, "".join(argv)), "look", geo=geo, argv=argv)
    for template, name in (("dos2sd.atr", "new.atr"), ("dos33.dsk", "new.dsk")) + ((("dos2dd.atr", "n.atr"), ("dos2ed.atr", "n.atr")) if T else ()):
        for force in (False, True):
            for dry in (False, True):
                for exists in (False, True):
                    add("create-%s-%d-%d-%d" % (template, force, dry, exists), "create", template=template, force=force, dry=dry, exists=exists, name=name)
    for exists in (False, True):
        add("create-case-%d" % exists, "create", template="dos2sd.atr", force=False, dry=False, exists=exists, name="New Disk.ATR")
    for template, ask, name in (("dos2sd.atr", "dos2sd", "new.atr"), ("dos33.dsk", "dos33", "new.dsk"), ("dos2ed+2.5.atr", "dos2ed+2.5", "new.atr"), ("dos2sd+2.0s.atr", "2.0s", "new.atr"), ("dos33autobrun.dsk", "auto", "new.dsk")):
        for exists in (False, True):
            add("create-as-%s-%d" % (ask, exists), "create", template=template, force=False, dry=False, exists=exists, name=name, ask=ask)
    for cmd in ("assemble",):
        for force in (False, True):
            for dry in (False, True):
                for exists in (False, True):
                    add("local-%s-%d-%d-%d" % (cmd, force, dry, exists), "local", cmd=cmd, force=force, dry=dry, exists=exists)
    for template in ("nothing", "dos2"):
        for exists in (False, True):
            add("template-%s-%d" % (template, exists), "ambiguous", template=template, exists=exists)
    for image in ("b.atr", "b.dsk"):
        for dry in (False, True):
            for exists in (False, True):
                add("boot-%s-%d-%d" % (image, dry, exists), "boot", image=image, dry=dry, exists=exists)
    for argv in (["delete", "-f", "f"], ["add", "-f", "f"], ["vtoc", "-e"], ["extract", "-a"]):
        add("unreadable-%s" % argv[0], "unreadable", argv=argv)
    return out


def REACH(tier):
    return ["dry run", "kept", "extracted", "extracted all", "not replaced", "added", "not there", "locked", "removed", "assembled", "created", "no template",
            "booted", "looked at", "cleared", "local file kept", "local file written", "unreadable"]


BOUNDS = {
    "quick": "whole command lines (create, add, delete, extract, assemble, boot, vtoc, list, crc, segments) on single density Atari and DOS 3.3 images with two or three small files of arbitrary bytes (DOS 3.3: second byte $20); one name on the disk with two arbitrary printable characters, arbitrary lock bits; the options force, dry run, all, lower, text and target directory (existing or new) one at a time; local files of the same name present or not; up to three files per command in several orders; existing local files empty or not; the local file system in the place of the image (assemble).",
    "thorough": "combinations of two options and all target directories.",
}
OUTSIDE = "control characters in names; links and special files in the local file system; running out of space in the middle of a list of files (the command stops with an error and saves nothing); boot replaces the image file it is told to create"
ASSUMPTIONS = ["open(), os, os.path and shutil functions are replaced by a file system in memory that records every access; decompressors refuse the data"]
