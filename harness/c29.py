"""What the list, crc and segments commands print is what is on the disk."""
import zlib

from . import fs as F
from .c22 import setup, command, IMG, same, world

HEX = "0123456789abcdef"


def install_crc(cx, atrcopy):
    """CRC-32 itself is the library's: the stand-in notes the data and gives
    numbers of all widths."""
    seen = []

    def crc32(data, value=0):
        seen.append(data)
        return [0x1, 0xdeadbeef, 0x00c0ffee, 0x80000000, 0xffffffff, 0x12345678, 0x00000010][len(seen) % 7]
    cx.stub(zlib.crc32, crc32)
    return seen, lambda k: [0x1, 0xdeadbeef, 0x00c0ffee, 0x80000000, 0xffffffff, 0x12345678, 0x00000010][(k + 1) % 7]


def disk(cx, geo, locks):
    if geo == "dos33":
        # (nothing arbitrary near the end of the image, where the directory of
        # a zip archive is looked for)
        d = F.Disk(cx, geo)
        fs = d.fs
        d.add(0, "HELLO", [48, 50, 49], cx.bytelist("a", 300), flag=0x02)
        d.add(1, "A TEXT FILE", [51, 52], cx.bytelist("b", 256), flag=0x00)
        d.add_deleted(2, "GONE", 52)
        b = cx.bytelist("c", 700)
        b[1] = 0x20          # the address in front of a binary file
        d.add(3, "LOCKED BINARY", [70, 69, 80, 58], b, flag=0x84)
        d.add(4, "INT", [54, 53], cx.bytelist("d", 40), flag=0x81)
    else:
        d = F.populate(cx, geo, "frag")
        fs = d.fs
        for s in d.files:
            cx.assume(d.files[s][2][0] != 255)
    bits = {}
    if locks:
        for slot in (0, 3):
            p = fs.slot_pos(slot) + (0 if fs.kind == "atari" else 2)
            b = cx.choose("lock%d" % slot, [0, 1])
            m = 0x20 if fs.kind == "atari" else 0x80
            flag = d.files[slot][3]
            if fs.kind == "atari" and slot == 3:
                flag = cx.choose("flag", [0x42, 0x40, 0x43, 0x41])
            d.img[p] = (flag & (255 - m)) | b * m
            bits[slot] = b
    return d, bits


def text(line):
    return line if isinstance(line, str) else str(line)


def listing(cx, geo, cmd, opts, pick, locks=False):
    """One line for each file asked for, in directory order."""
    d, bits = disk(cx, geo, locks)
    fs = d.fs
    img = IMG[geo]
    atrcopy, vfs = setup(cx, d, img)
    seen, crc = install_crc(cx, atrcopy)
    names = {s: d.files[s][0] for s in d.files}
    want = sorted(d.files)
    argv = []
    if pick == "one":
        s = cx.choose("pick", want)
        argv, want = [names[s]], [s]
    elif pick == "two":
        argv, want = [names[4], "MISSING", names[1]], [1, 4]
    elif pick == "deleted":
        argv, want = [d.deleted[2]], []
    before = world(vfs)
    end = command(cx, atrcopy, [img] + ([cmd] if cmd else []) + opts + argv)
    cx.check(end is None, "the command succeeds", end)
    cx.check(not vfs.changes(), "nothing is written")
    same(cx, vfs, before)
    lines = [text(x) for x in vfs.said]
    if cmd != "crc":
        cx.check(len(lines) >= 1, "a line about the disk")
        lines = lines[1:]
    cx.check(len(lines) == len(want), "one line for each file", lines)
    crcs = cmd == "crc" or "-c" in opts
    for k, (line, s) in enumerate(zip(lines, want)):
        if cmd == "crc":
            cx.check(line == "%s: %08x" % (names[s], crc(k)), "line of the crc command", line)
        else:
            base, _, ext = names[s].partition(".")
            ok = (names[s] in line) or (base in line and ext in line)
            cx.check(ok, "the line names the file", line)
            cx.check("%03d" % len(d.files[s][1]) in line, "the line gives the size in sectors", line)
            if crcs:
                cx.check(line.endswith("%08x" % crc(k)), "the line ends with the checksum", line)
            if s in bits:
                flag = bits[s]
                mark = "*" if fs.kind == "apple" else "*"
                cx.check((mark in line) == (flag == 1), "locked files are marked", line)
                cx.reach("lock marks")
    if crcs:
        cx.check(len(seen) == len(want), "one checksum for each file")
        for data, s in zip(seen, want):
            cx.check(len(data) == len(d.contents(s)) and cx.eq(data, d.contents(s)), "the checksum is of exactly the file's contents")
        cx.reach("checksums")
    else:
        cx.check(not seen, "no checksums")
    cx.reach("listed " + pick)


def nested(cx, geo, cmd, pick, names=("AB", "ABC", "B", "BC", "C")):
    """Names that contain each other: only the ones asked for."""
    d = F.Disk(cx, geo)
    n = 1 if geo != "dos33" else 2
    for k, name in enumerate(names):
        d.add(k, name, list(range(60 + k * n, 60 + k * n + n)), [1, 32, 3 + k])
    atrcopy, vfs = setup(cx, d, IMG[geo])
    seen, crc = install_crc(cx, atrcopy)
    ask = [names[i] for i in pick]
    end = command(cx, atrcopy, [IMG[geo], cmd] + ask)
    cx.check(end is None, "the command succeeds", end)
    lines = [text(x) for x in vfs.said][1 if cmd == "list" else 0:]
    want = [n for n in names if n in ask]
    cx.check(len(lines) == len(want), "one line for each file", lines)
    for line, name in zip(lines, want):
        cx.check(name in line.replace(":", " ").split(), "the line names the file", line)
    cx.reach("nested names")


def many(cx, geo, n):
    """Many files: all of them."""
    d = F.populate(cx, geo, "full:%d" % n)
    img = IMG[geo]
    atrcopy, vfs = setup(cx, d, img)
    gone = cx.choose("gone", [None, 0, 7, 8, n - 1])
    end = None
    if gone is not None:
        end = command(cx, atrcopy, [img, "delete", d.files[gone][0]])
        del d.files[gone]
        vfs.said.clear()
    cx.check(end is None and command(cx, atrcopy, [img, "list"]) is None, "the command succeeds")
    lines = [text(x) for x in vfs.said][1:]
    cx.check(len(lines) == len(d.files), "one line for each file", len(lines))
    for line, s in zip(lines, sorted(d.files)):
        base = d.files[s][0].partition(".")[0]
        cx.check(base in line.replace(".", " ").split(), "the line names the file", line)
    cx.reach("many files")


def segs(cx, geo):
    """One line for each segment."""
    d, bits = disk(cx, geo, False)
    img = IMG[geo]
    atrcopy, vfs = setup(cx, d, img)
    end = command(cx, atrcopy, [img, "segments"])
    cx.check(end is None, "the command succeeds", end)
    out = []
    for x in vfs.said[1:]:
        out.extend(text(x).split("\n"))
    at = 0
    for s in sorted(d.files):
        while at < len(out) and d.files[s][0] not in out[at]:
            at += 1
        cx.check(at < len(out), "a line for each file, in order", d.files[s][0])
        at += 1
    cx.reach("segments")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda label, fn, cost=2, **p: out.append({"name": label, "fn": fn, "cost": cost, "params": p, "max_paths": 30000})
    for geo in ("sd", "dd", "dos33"):
        for cmd in ("list", "ls", "dir", "catalog", "t", None, "crc"):
            for opts in ([], ["-c"]):
                if opts and cmd not in ("list", "t"):
                    continue
                for pick in ("all", "one", "two", "deleted"):
                    if pick != "all" and cmd not in ("list", "crc", "t") and not T:
                        continue
                    if cmd is None and pick != "all":
                        continue
                    add("%s-%s%s-%s" % (geo, cmd, "".join(opts), pick), "listing", geo=geo, cmd=cmd, opts=opts, pick=pick)
        add("locks-%s" % geo, "listing", geo=geo, cmd="list", opts=[], pick="all", locks=True)
        for n in (20, 64 if geo != "dos33" else 50):
            add("many-%s-%d" % (geo, n), "many", geo=geo, n=n)
        for cmd in ("list", "crc"):
            for pick in ([1], [3, 1], [4, 0], [2]):
                add("nested-%s-%s-%s" % (geo, cmd, "".join(map(str, pick))), "nested", geo=geo, cmd=cmd, pick=pick)
                add("case-%s-%s-%s" % (geo, cmd, "".join(map(str, pick))), "nested", geo=geo, cmd=cmd, pick=pick, names=["Ab", "ab", "AB", "C", "c"])
                if pick == [1]:
                    add("long-%s-%s" % (geo, cmd), "nested", geo=geo, cmd=cmd, pick=[0, 1, 2, 4], names=["ABCDEFGH", "ABCDEFG", "BCDEFGH", "A", "H"])
        add("segments-%s" % geo, "segs", geo=geo)
    return out


def REACH(tier):
    return ["listed all", "listed one", "listed two", "listed deleted", "checksums", "lock marks", "many files", "segments", "nested names"]


BOUNDS = {
    "quick": "command lines of list (all aliases), crc and segments on Atari single and double density and DOS 3.3 disks with 5 files of arbitrary contents in fragmented chains and one deleted entry, every choice of one file, several files, a missing and a deleted name, names that contain each other or differ in case only, lock bits with several other flags; up to 64 files.",
    "thorough": "selections with every alias.",
}
OUTSIDE = "the CRC-32 function of the library; layout of the columns; --verbose output"
ASSUMPTIONS = ["open(), os functions and zlib.crc32 are replaced by stand-ins that record what they are given"]
