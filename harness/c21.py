"""Numbers and subsets given as text."""
from .vfs import VFS
from .c13 import le

HEX = {c: i for i, c in enumerate("0123456789")}
HEX.update({c: 10 + i for i, c in enumerate("abcdef")})
HEX.update({c: 10 + i for i, c in enumerate("ABCDEF")})


def isdigit(cx, c, base):
    r = cx.and_(c >= 48, c <= min(57, 47 + base))
    if base == 16:
        r = cx.or_(r, cx.and_(c >= 65, c <= 70), cx.and_(c >= 97, c <= 102))
    return r


def digit(cx, c):
    return cx.ite(c <= 57, c - 48, cx.ite(c <= 70, c - 55, c - 87))


def value(cx, cs, base):
    v = 0
    for c in cs:
        v = v * base + digit(cx, c)
    return v


def read(cx, f, text, **k):
    try:
        return f(text, **k)
    except ValueError:
        return None


PREFIX = {"0x": 16, "$": 16, "#": 10, "%": 2, "": None}


def number(cx, prefix, n, default):
    """Exactly the digits of the base, any of them: their value."""
    from atrcopy.utils import text_to_int
    base = PREFIX[prefix] or (10 if default == "dec" else 16)
    cs = [cx.int("d[%d]" % i, 33, 126) for i in range(n)]
    for c in cs:
        cx.assume(isdigit(cx, c, base))
    text = prefix + cx.mktext(cs)
    k = {} if default is None else {"default_base": default}
    v = read(cx, text_to_int, text, **k)
    cx.check(v is not None, "a number in the right digits is accepted")
    cx.check(v == value(cx, cs, base), "value of the number")
    cx.reach("number")


def anything(cx, n, default):
    """Any text: an error, or the number that it is."""
    from atrcopy.utils import text_to_int
    cs = [cx.int("c[%d]" % i, 1, 126) for i in range(n)]
    text = cx.mktext(cs)
    k = {} if default is None else {"default_base": default}
    v = read(cx, text_to_int, text, **k)
    if v is None:
        base, body = split(cx, cs, default)
        cx.check(cx.not_(cx.and_(len(body) > 0, cx.all(isdigit(cx, c, base) for c in body))), "a number in the right digits is accepted")
        cx.reach("refused")
        return
    # blanks around, a sign, single underscores between digits and a second
    # prefix of the same base are read the way Python reads them
    base, body = split(cx, cs, default)
    blank = lambda c: cx.or_(c == 32, cx.and_(c >= 9, c <= 13), cx.and_(c >= 28, c <= 31))
    while body and blank(body[0]):
        body = body[1:]
    while body and blank(body[-1]):
        body = body[:-1]
    if len(body) < n and split(cx, body, default)[1] is not body and split(cx, body, default)[0] != base:
        base, body = split(cx, body, default)
    neg = False
    if body and (body[0] == 43 or body[0] == 45):
        neg = body[0] == 45
        body = body[1:]
    if len(body) >= 2 and body[0] == 48:
        x = body[1]
        if base == 16 and cx.or_(x == 120, x == 88) or base == 2 and cx.or_(x == 98, x == 66):
            body = body[2:]
            if body and body[0] == 95:
                body = body[1:]
    digits = []
    for c in body:
        if c == 95:
            continue
        digits.append(c)
    cx.check(len(digits) > 0 and cx.all(isdigit(cx, c, base) for c in digits), "what is no number is an error")
    w = value(cx, digits, base)
    cx.check(v == (0 - w if neg else w), "value of the number")
    cx.reach("read")


def split(cx, cs, default):
    base = 10 if default == "dec" else 16
    if len(cs) >= 2 and cs[0] == 48 and cs[1] == 120:
        return 16, cs[2:]
    if cs and cs[0] == 36:
        return 16, cs[1:]
    if cs and cs[0] == 35:
        return 10, cs[1:]
    if cs and cs[0] == 37:
        return 2, cs[1:]
    return base, cs


class Opt:
    def __init__(self, **k):
        self.verbose = 0
        self.dry_run = False
        self.__dict__.update(k)


def start(cx):
    import atrcopy
    atrcopy.options = Opt()
    fs = VFS(cx)
    fs.install()
    return atrcopy, fs


def hexdigits(cx, tag, n, easy=False):
    """Hexadecimal digits; easy: without letters."""
    if easy:
        return [cx.int("%s[%d]" % (tag, i), 48, 57) for i in range(n)]
    cs = [cx.int("%s[%d]" % (tag, i), 48, 102) for i in range(n)]
    for c in cs:
        cx.assume(isdigit(cx, c, 16))
    return cs


def subset(cx, form, size, nd):
    """name[start:end]@address for every start and end in the bound."""
    atrcopy, fs = start(cx)
    data = cx.bytelist("d", size)
    name = cx.choose("name", ["data.bin", "a@b.bin", "x[1].bin"])
    fs.add(name, data)
    prefix = cx.choose("prefix", ["", "$", "0x"])
    ad = hexdigits(cx, "a", 4, form != "whole")
    addr = value(cx, ad, 16)
    lo = hi = None

    def bound(tag):
        cs = [cx.int("%s[%d]" % (tag, i), 48, 57) for i in range(nd)]
        v = value(cx, cs, 10)
        if cx.bool("neg-" + tag):
            return "-" + cx.mktext(cs), 0 - v
        return cx.mktext(cs), v

    text = name
    if form != "whole":
        s, e = "", ""
        if form in ("both", "start"):
            s, lo = bound("s")
        if form in ("both", "end"):
            e, hi = bound("e")
        text = text + "[" + s + ":" + e + "]"
    else:
        cx.assume("[" not in name)
    text = text + "@" + prefix + cx.mktext(ad)
    # Python slice semantics: a negative bound counts from the end
    def clamp(v, dflt):
        if v is None:
            return dflt
        if v < 0:
            v = v + size
            return 0 if v < 0 else v
        return size if v > size else v
    a, b = cx.concrete(clamp(lo, 0)), cx.concrete(clamp(hi, size))
    want = data[a:b] if a < b else []
    segs, run = atrcopy.assemble_segments([], [text], [])
    cx.check(run is None, "no run address")
    cx.check(len(segs) == 1, "one segment")
    cx.check(segs[0].origin == addr, "at that address")
    cx.check(cx.eq(segs[0].data[:], want), "exactly that subset of the bytes")
    cx.check(cx.eq(fs.get(name), data) and not fs.changes(), "nothing is written")
    cx.reach("subset " + form)


def badsubset(cx, n):
    """Any text between the brackets: that subset, or an error."""
    atrcopy, fs = start(cx)
    from atrcopy import errors
    size = 6
    data = cx.bytelist("d", size)
    fs.add("data.bin", data)
    cs = [cx.int("c[%d]" % i, 32, 126) for i in range(n)]
    for c in cs:
        cx.assume(cx.and_(c != 64, c != 91, c != 93))
    cx.assume(cx.any(c == 58 for c in cs))
    try:
        segs, run = atrcopy.assemble_segments([], ["data.bin[" + cx.mktext(cs) + "]@2000"], [])
    except errors.AtrError:
        seen = 0
        ok = True
        for c in cs:
            if c == 58:
                seen += 1
            elif not isdigit(cx, c, 10):
                ok = False
        cx.check(not (ok and seen == 1), "a subset that can be read is accepted")
        cx.reach("subset refused")
        return
    cx.check(len(segs) == 1, "one segment")
    parts, cur, quirk = [], [], False
    for c in cs:
        if c == 58:
            parts.append(cur)
            cur = []
        elif c == 32 or c == 43 or c == 95:
            continue
        else:
            cur.append(c)
    parts.append(cur)
    cx.check(len(parts) == 2, "one start and one end")
    v = []
    for p in parts:
        neg = False
        if p and p[0] == 45:
            neg = True
            p = p[1:]
        if not p:
            cx.check(not neg, "a bound is a number")
            v.append(None)
            continue
        cx.check(cx.all(isdigit(cx, c, 10) for c in p), "a bound is a number")
        w = value(cx, p, 10)
        v.append(cx.concrete(cx.ite(w > size, size + 1, w)) * (-1 if neg else 1))
    cx.check(cx.eq(segs[0].data[:], data[slice(v[0], v[1])]), "exactly that subset of the bytes")
    cx.reach("subset accepted")


def noaddr(cx, n):
    atrcopy, fs = start(cx)
    from atrcopy import errors
    fs.add("data.bin", cx.bytelist("d", 4))
    cs = [cx.int("c[%d]" % i, 32, 126) for i in range(n)]
    for c in cs:
        cx.assume(c != 64)
    try:
        atrcopy.assemble_segments([], [cx.mktext(cs)], [])
    except errors.AtrError:
        cx.reach("no address")
        cx.check(True, "a data file without an address is an error")
        return
    cx.fail("a data file without an address is an error")


def several(cx, sizes):
    """Several data files: each at its address, in order."""
    atrcopy, fs = start(cx)
    want, args = [], []
    for i, n in enumerate(sizes):
        d = cx.bytelist("d%d" % i, n)
        fs.add("f%d" % i, d)
        ad = hexdigits(cx, "a%d" % i, 4, True)
        args.append("f%d@" % i + cx.mktext(ad))
        want.append((value(cx, ad, 16), d))
    segs, run = atrcopy.assemble_segments([], args, [])
    cx.check(run is None and len(segs) == len(want), "one segment for each file")
    for s, (a, d) in zip(segs, want):
        cx.check(cx.and_(s.origin == a, cx.eq(s.data[:], d)), "bytes and address of each file")
    cx.reach("several")


def objects(cx, kind, run):
    """The segments and the run address of object files are passed on."""
    atrcopy, fs = start(cx)
    given = ""
    gv = None
    if run == "text":
        ad = hexdigits(cx, "r", 4, kind != "norun")
        given = cx.choose("prefix", ["", "$", "0x"]) + cx.mktext(ad)
        gv = value(cx, ad, 16)
    elif run == "dec":
        cs = [cx.int("r[%d]" % i, 48, 57) for i in range(4)]
        given = "#" + cx.mktext(cs)
        gv = value(cx, cs, 10)
    elif run == "int":
        gv = given = cx.int("r", 0, 0xffff)
    elif run == "none":
        given = None
    want = []
    found = None
    names = []
    n = 3
    for k in range(2 if kind == "two" else 1):
        b = []
        for j in range(1 if kind == "two" else 2):
            a = cx.int("o%d.%d" % (k, j), 1, 0xfff0)
            cx.assume(cx.or_(a > 0x2e8, a + n - 1 < 0x2e0))
            d = cx.bytelist("b%d.%d" % (k, j), n)
            b += le(a) + le(a + n - 1) + d
            want.append((a, d))
            if j == 0 and kind != "norun":
                r = cx.int("run%d" % k, 0, 0xffff)
                if kind == "init":
                    b += le(0x2e2) + le(0x2e3) + le(r)
                    want.append((0x2e2, le(r)))
                else:
                    b += le(0x2e0) + le(0x2e1) + le(r)
                    if found is None:
                        found = r
        fs.add("obj%d.xex" % k, [255, 255] + b)
        names.append("obj%d.xex" % k)
    segs, got = atrcopy.assemble_segments([], [], names, given)
    if gv is not None:
        # (an integer 0 stands for "not given")
        if run == "int" and gv == 0 and found is not None:
            cx.check(got is not None and (kind == "two" or cx.or_(got == 0, got == found)), "run address")
        else:
            cx.check(got is not None and got == gv, "the run address given is used")
        cx.reach("given")
    elif found is None:
        cx.check(got is None, "no run address")
        cx.reach("no run address")
    elif kind == "two":
        # the first run address other than 0 counts
        if found == 0:
            cx.check(got is not None, "a run address was found")
        else:
            cx.check(got is not None and got == found, "the first run address found is passed on unchanged")
        cx.reach("two files")
    else:
        cx.check(got is not None and got == found, "the run address found is passed on unchanged")
        cx.reach("found")
    if kind != "init":
        cx.check(len(segs) == len(want), "number of segments")
        for s, (a, d) in zip(segs, want):
            cx.check(cx.and_(s.origin == a, cx.eq(s.data[:], d)), "segments of the object files at their addresses")
    cx.check(not fs.changes(), "nothing is written")


def badobj(cx):
    """An object file that is no executable is skipped, the others are kept."""
    atrcopy, fs = start(cx)
    fs.add("bad", cx.choose("bad", [[], [1], [1, 2, 3, 4, 5]]))
    a = cx.int("o", 0x2000, 0xff00)
    d = cx.bytelist("b", 3)
    fs.add("good", [255, 255] + le(a) + le(a + 2) + d)
    order = cx.choose("order", [["bad", "good"], ["good", "bad"]])
    segs, run = atrcopy.assemble_segments([], [], order, "")
    cx.check(run is None and len(segs) == 1, "the good file is used")
    cx.check(cx.and_(segs[0].origin == a, cx.eq(segs[0].data[:], d)), "bytes and address")
    cx.reach("skipped")


LINES = {
    "once": ["-d", "f0@2000", "f1@3000", "f2@1800"],
    "repeated": ["-d", "f0@2000", "-d", "f1@3000", "-d", "f2@1800"],
    "mixed": ["-d", "f0@2000", "f1@3000", "--data", "f2@1800"],
    "objects": ["-b", "x0", "-d", "f0@2000", "-b", "x1"],
    "run": ["-d", "f0@2000", "-r", "2002", "-d", "f1@3000"],
    "decimal": ["-d", "f0@#8192", "-r", "#8193", "-d", "f1[1:]@$3000"],
}


def blocks(cx, data):
    """Address and bytes of each block of an Atari executable; run address."""
    out, run, i = [], None, 2
    cx.check(len(data) >= 2 and cx.and_(data[0] == 255, data[1] == 255), "an executable is written")
    while i < len(data):
        if len(data) - i >= 2 and cx.and_(data[i] == 255, data[i + 1] == 255):
            i += 2
            continue
        cx.check(len(data) - i >= 5, "whole blocks")
        a, b = data[i] + 256 * data[i + 1], data[i + 2] + 256 * data[i + 3]
        cx.check(cx.and_(b >= a, b - a < len(data) - i - 4), "whole blocks")
        n = cx.concrete(b - a) + 1
        d = data[i + 4:i + 4 + n]
        if a == 0x2e0:
            run = d[0] + 256 * d[1]
        else:
            out.append((a, d))
        i += 4 + n
    return out, run


def cmdline(cx, line, cmd):
    """Everything listed on the command line, however the options are grouped."""
    from .c22 import command
    import atrcopy
    fs = VFS(cx)
    fs.install()
    data, want, objs, run = {}, [], [], None
    for i, n in enumerate((3, 2, 4)):
        data["f%d" % i] = cx.bytelist("d%d" % i, n)
        fs.add("f%d" % i, data["f%d" % i])
    for k in range(2):
        a = cx.int("o%d" % k, 0x4000 + 0x1000 * k, 0x4f00 + 0x1000 * k)
        d = cx.bytelist("b%d" % k, 3)
        data["x%d" % k] = (a, d)
        fs.add("x%d" % k, [255, 255] + le(a) + le(a + 2) + d)
    opt = None
    for w in LINES[line]:
        if w.startswith("-"):
            opt = w
        elif opt in ("-d", "--data"):
            n, a = w.split("@")
            d = data[n[:2]]
            want.append((int(a[1:]) if a[0] == "#" else int(a.strip("$"), 16), d[1:] if "[" in n else d))
        elif opt == "-b":
            objs.append(data[w])
        else:
            run = int(w[1:]) if w[0] == "#" else int(w, 16)
    want += objs
    if cmd == "assemble":
        end = command(cx, atrcopy, [".", cmd] + LINES[line] + ["-o", "out.xex"])
        cx.check(end is None, "the command succeeds", end)
        cx.check([x[:2] for x in fs.changes()] == [("write", fs.norm("out.xex"))], "only the output is written")
        got, r = blocks(cx, cx.lst(fs.get("out.xex")))
        cx.check(len(got) == len(want), "one block for each file listed", len(got))
        for (a, d), (ga, gd) in zip(want, got):
            cx.check(cx.and_(ga == a, cx.eq(gd, d)), "bytes and address of each file listed")
        if run is not None:
            cx.check(r is not None and r == run, "the run address given is used")
    else:
        end = command(cx, atrcopy, ["out.atr", cmd] + LINES[line])
        cx.check(end is None, "the command succeeds", end)
        cx.check([x[:2] for x in fs.changes()] == [("write", fs.norm("out.atr"))], "only the image is written")
        img = cx.lst(fs.get("out.atr"))
        for a, d in want:
            b = le(a) + le(a + len(d) - 1) + list(d)
            cx.check(cx.any(cx.eq(img[i:i + len(b)], b) for i in range(16 + 384, min(len(img), 16 + 384 + 128) - len(b))), "each file listed is on the boot disk")
    cx.reach("command line")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 60000})
    for prefix in PREFIX:
        for n in (1, 2, 4) + ((8,) if T else ()):
            for default in (None, "hex", "dec"):
                add("number-%s-%d-%s" % (prefix, n, default), "number", prefix=prefix, n=n, default=default)
    for n in (0, 1, 2, 3) + ((4, 5) if T else ()):
        for default in (None, "dec"):
            add("anything-%d-%s" % (n, default), "anything", cost=4 ** n // 4, n=n, default=default)
    for form in ("whole", "both", "start", "end", "none"):
        add("subset-%s" % form, "subset", cost=6, form=form, size=5 if not T else 12, nd=1 if not T else 2)
    for n in (1, 2, 3) + ((4,) if T else ()):
        add("badsubset-%d" % n, "badsubset", cost=4 ** n // 4, n=n)
    for n in (0, 3):
        add("noaddr-%d" % n, "noaddr", n=n)
    add("several", "several", sizes=[3, 1, 2])
    for kind in ("run", "norun", "init", "two"):
        for run in ("absent", "none", "text", "dec", "int"):
            add("objects-%s-%s" % (kind, run), "objects", kind=kind, run=run)
    add("badobj", "badobj")
    for line in LINES:
        for cmd in ("assemble", "boot"):
            add("cmdline-%s-%s" % (cmd, line), "cmdline", line=line, cmd=cmd)
    return out


def REACH(tier):
    return ["number", "read", "refused", "subset whole", "subset both", "subset start", "subset end", "subset none", "subset refused", "subset accepted",
            "no address", "several", "given", "found", "no run address", "two files", "skipped", "command line"]


BOUNDS = {
    "quick": "numbers of 1, 2 and 4 arbitrary digits with each prefix and default base; arbitrary text of up to 3 characters (code points 1-126); data files of 5 arbitrary bytes with every subset of one-digit bounds of either sign, arbitrary text of up to 3 characters between the brackets, addresses of 4 arbitrary digits (hexadecimal letters only without a subset); one or two executables with arbitrary bytes, load and run addresses; run address absent, hexadecimal, decimal or integer.",
    "thorough": "8 digits; arbitrary text of up to 5 characters; data files of 12 bytes with two-digit bounds; 4 characters between the brackets.",
}
OUTSIDE = "non-ASCII digits; assembling source files (needs pyatasm, not installed); object files other than Atari executables; the blanks, signs, underscores and repeated prefixes that Python's int() accepts are read as Python reads them"
ASSUMPTIONS = ["open() is replaced by a file system in memory"]
