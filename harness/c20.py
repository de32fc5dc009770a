"""Cartridge images.  The tables below are written from the atari800 cartridge
documentation, independently of the table in the code."""

KB = {57: 2, 58: 4, 59: 4, 1: 8, 21: 8, 2: 16, 44: 8, 15: 16, 3: 16, 45: 16, 12: 32, 13: 64, 67: 64, 14: 128, 23: 256, 24: 512, 25: 1024,
      33: 32, 34: 64, 35: 128, 36: 256, 37: 512, 38: 1024, 22: 32, 8: 64, 9: 64, 10: 64, 11: 64, 43: 128, 17: 128, 18: 40,
      26: 16, 27: 32, 28: 64, 29: 128, 30: 256, 31: 512, 32: 1024, 39: 8, 46: 4, 40: 16, 60: 32, 41: 128, 42: 1024, 47: 32, 48: 64, 49: 128,
      50: 64, 51: 128, 52: 32, 53: 8, 5: 32, 54: 128, 55: 256, 56: 512, 61: 2048, 62: 128 * 1024, 63: 4096, 64: 2048, 65: 32 * 1024, 66: 64 * 1024,
      20: 4, 19: 8, 4: 32, 16: 16, 6: 16, 7: 40}
A5200 = (20, 19, 4, 16, 6, 7)
# whole image at one address
FLAT = {57: 0xb800, 58: 0xb000, 59: 0x9000, 1: 0xa000, 2: 0x8000, 40: 0x8000, 53: 0x8000, 20: 0x8000, 19: 0x8000, 4: 0x4000}
# last bank fixed, the others switched: (bank KB, fixed address, switched address)
BANKED = {3: (4, 0xb000, 0xa000), 45: (4, 0xb000, 0xa000)}
for _t in (12, 13, 67, 14, 23, 24, 25, 33, 34, 35, 36, 37, 38):
    BANKED[_t] = (8, 0xa000, 0x8000)


def layout(t):
    """[(origin, start, length)] of the main bank and the switched banks."""
    size = KB[t] * 1024
    if t in BANKED:
        k, fixed, switched = BANKED[t]
        k *= 1024
        return [(fixed, size - k, k)] + [(switched, i, k) for i in range(0, size - k, k)]
    return [(FLAT.get(t, 0), 0, size)]


def contents(cx, size, step):
    """size bytes: a position-dependent pattern with arbitrary bytes on both
    sides of every bank border."""
    b = [(i * 7 + (i >> 8) * 3 + (i >> 16)) & 255 for i in range(size)]
    for i in range(0, size, step):
        b[i] = cx.byte("c%d" % i)
        b[i + step - 1] = cx.byte("c%d" % (i + step - 1))
    return b


def be(v):
    return [(v >> 24) & 255, (v >> 16) & 255, (v >> 8) & 255, v & 255]


def known(cx, t):
    return cx.any(t == k for k in KB)


def header(cx, n=16):
    """Any n header bytes."""
    from atrcopy import errors
    from atrcopy.cartridge import A8CartHeader
    b = cx.bytelist("h", n)
    try:
        h = A8CartHeader(cx.mkarray(b))
    except errors.AtrError:
        if n == 16:
            t = (b[4] << 24) | (b[5] << 16) | (b[6] << 8) | b[7]
            cx.check(cx.not_(cx.and_(cx.eq(b[:4], list(b"CART")), known(cx, t))), "a good header must be accepted")
            cx.reach("bad header")
        else:
            cx.check(True, "another number of header bytes is refused")
        return
    if n != 16:
        cx.fail("a header has 16 bytes")
    t = (b[4] << 24) | (b[5] << 16) | (b[6] << 8) | b[7]
    crc = (b[8] << 24) | (b[9] << 16) | (b[10] << 8) | b[11]
    cx.check(cx.eq(b[:4], list(b"CART")), "magic")
    cx.assume(t != 0)
    cx.check(known(cx, t), "unknown cartridge types are refused")
    cx.check(h.valid and h.cart_type == t and h.crc == crc and len(h) == 16, "type and checksum of the header")
    k = cx.concrete(t)
    cx.check(h.cart_size == KB[k], "size of the type")
    cx.check(("5200" in h.cart_name) == (k in A5200), "machine named")
    cx.check(cx.eq(h.to_array(), list(b"CART") + be(t) + be(crc) + [0] * 4), "the header written again")
    h2 = A8CartHeader(h.to_array())
    cx.check(h2.cart_type == t and h2.crc == crc, "the header read again")
    cx.reach("header")


def written(cx):
    """A header made for a type."""
    from atrcopy import errors
    from atrcopy.cartridge import A8CartHeader
    t = cx.int("type", 1, 0xffffffff)
    h = A8CartHeader()
    cx.check(not h.valid and len(h) == 0, "no header")
    try:
        h.set_type(t)
    except errors.AtrError:
        cx.check(cx.not_(known(cx, t)), "known types must be accepted")
        cx.reach("unknown type")
        return
    cx.check(known(cx, t), "unknown types must be refused")
    h.crc = cx.int("crc", 0, 0xffffffff)
    a = h.to_array()
    cx.check(cx.eq(a, list(b"CART") + be(t) + be(h.crc) + [0] * 4), "header bytes")
    h2 = A8CartHeader(a)
    cx.check(h2.cart_type == t and h2.crc == h.crc, "type and checksum read back")
    cx.reach("header written")


def check_segments(cx, segs, t, off, b, image):
    want = layout(t)
    if off:
        h = segs[0]
        cx.check(h.rawdata.get_raw_index(0) == 0 and len(h) == off, "header segment")
        cx.check(cx.eq(h.data[:], b[:off]), "header segment bytes")
        segs = segs[1:]
    cx.check(len(segs) == len(want), "number of banks", "type %d" % t)
    for k, (s, (origin, start, ln)) in enumerate(zip(segs, want)):
        cx.check(len(s) == ln, "length of bank %d" % k, "type %d" % t)
        cx.check(s.origin == origin, "address of bank %d" % k, "type %d" % t)
        cx.check(s.rawdata.get_raw_index(0) == off + start, "position of bank %d" % k, "type %d" % t)
        cx.check(cx.eq(s.data[:], b[off + start:off + start + ln]), "bytes of bank %d" % k, "type %d" % t)
    names = [s.name for s in segs]
    cx.check(len(set(names)) == len(names), "each bank has its own name")


def make(cx, cls, arr, t):
    from atrcopy import errors
    from atrcopy.segments import SegmentData
    raw = SegmentData(arr)
    try:
        return raw, cls(raw, t)
    except errors.AtrError:
        return raw, None


def image(cx, kb, extra=0, step=4096):
    """An image with a header of any type and kb KB (+ extra bytes) of data."""
    from atrcopy import errors, cartridge
    size = kb * 1024 + extra
    t = cx.int("type", 1, 0xffffffff)
    if kb > 64:
        cx.assume(cx.any([t == k for k in KB if KB[k] == kb] + [t == 1, t == 8, t == 62, t == 70, t == 0xffffffff]))
    crc = cx.bytelist("crc", 4)
    b = list(b"CART") + be(t) + crc + cx.bytelist("rest", 4) + contents(cx, size, step if extra == 0 else max(size, 1))
    arr = cx.mkarray(b)
    raw, img = make(cx, cartridge.AtariCartImage, arr, 1)
    if img is None:
        cx.check(cx.not_(cx.any(t == k for k in KB if KB[k] * 1024 == size)), "a well-formed image must be accepted")
        cx.reach("refused")
        return
    cx.check(cx.any(t == k for k in KB if KB[k] * 1024 == size), "size or type does not match")
    k = cx.concrete(t)
    # as its own type
    raw, img = make(cx, cartridge.AtariCartImage, arr, k)
    img.strict_check()
    img.parse_segments()
    check_segments(cx, img.segments, k, 16, b, img)
    s = img.create_emulator_boot_segment()
    cx.check(cx.eq(s.data[:], b), "emulator image of an image with a header")
    # for the right machine only
    for cls, ok in ((cartridge.Atari8bitCartImage, k not in A5200), (cartridge.Atari5200CartImage, k in A5200)):
        raw, img = make(cx, cls, arr, k)
        try:
            img.strict_check()
        except errors.AtrError:
            cx.check(not ok, "cartridge of this machine must be accepted", "type %d" % k)
        else:
            cx.check(ok, "cartridge of the other machine must be refused", "type %d" % k)
    cx.check(cx.eq(arr, b), "the image is not changed")
    cx.reach("image")
    if kb > 8:
        return
    # as another type
    other = cx.int("other", 1, 70)
    cx.assume(other != k)
    cx.assume(known(cx, other))
    raw, img = make(cx, cartridge.AtariCartImage, arr, other)
    if img is not None:
        try:
            img.strict_check()
        except errors.AtrError:
            cx.reach("other type refused")
        else:
            cx.fail("an image of another type must be refused")


def plain(cx, kb, extra=0, step=4096):
    """An image without header, opened as any type."""
    from atrcopy import errors, cartridge
    size = kb * 1024 + extra
    t = cx.int("type", 1, 0xffffffff)
    if kb > 64:
        cx.assume(cx.any([t == k for k in KB if KB[k] == kb] + [t == 1, t == 8, t == 62, t == 70, t == 0xffffffff]))
    b = contents(cx, size, step if extra == 0 else max(size, 1))
    if size >= 4:
        cx.assume(b[0] != 0x43)
    arr = cx.mkarray(b)
    raw, img = make(cx, cartridge.AtariCartImage, arr, t)
    if img is None:
        cx.check(cx.not_(known(cx, t)), "known types must be accepted")
        cx.reach("refused")
        return
    cx.check(known(cx, t), "unknown types must be refused")
    k = cx.concrete(t)
    try:
        img.strict_check()
    except errors.AtrError:
        pass
    else:
        cx.fail("an image without header is not identified by itself")
    try:
        img.relaxed_check()
        img.parse_segments()
    except errors.AtrError:
        cx.check(KB[k] * 1024 != size, "an image of the right size must be accepted", "type %d" % k)
        cx.reach("refused")
        return
    cx.check(KB[k] * 1024 == size, "an image of the wrong size must be refused", "type %d" % k)
    check_segments(cx, img.segments, k, 0, b, img)
    s = img.create_emulator_boot_segment()
    got = cx.lst(s.data[:])
    cx.check(len(got) == 16 + size, "length of the emulator image")
    cx.check(cx.eq(got[:8], list(b"CART") + be(k)), "emulator header")
    cx.check(cx.eq(got[16:], b), "contents of the emulator image")
    cx.check(cx.eq(arr, b), "the image is not changed")
    cx.reach("plain image")


def through_parsers(cx, kb, step=4096):
    """Identification hands a cartridge to the parser of its type."""
    from atrcopy.segments import SegmentData
    from atrcopy.parsers import guess_parser_for_mime
    size = kb * 1024
    t = cx.int("type", 1, 0xffffffff)
    b = list(b"CART") + be(t) + [0] * 8 + contents(cx, size, step)
    raw = SegmentData(cx.mkarray(b))
    p8 = guess_parser_for_mime("application/vnd.atari8bit.cart", raw)
    p52 = guess_parser_for_mime("application/vnd.atari5200.cart", raw)
    cx.check(p8 is None or p52 is None, "one machine only")
    p = p8 or p52
    fits = [k for k in KB if KB[k] == kb]
    if p is None:
        cx.check(cx.not_(cx.any(t == k for k in fits)), "a well-formed image must be accepted")
        cx.reach("no parser")
        return
    cx.check(cx.any(t == k for k in fits), "size or type does not match")
    k = cx.concrete(t)
    cx.check((p is p52) == (k in A5200), "machine", "type %d" % k)
    cx.check(len(p.segments[0]) == len(b) and cx.eq(p.segments[0].data[:], b), "container segment")
    check_segments(cx, p.segments[1:], k, 16, b, p.image)
    cx.reach("parsed")


def rom(cx, sizes):
    from atrcopy import errors, cartridge
    from atrcopy.segments import SegmentData
    cls = cx.choose("kind", [cartridge.RomImage, cartridge.Atari2600CartImage, cartridge.VectrexCartImage])
    n = cx.choose("size", sizes)
    b = cx.bytelist("b", n)
    ok = n in (0, 1, 2, 4, 8, 16, 32, 64, 128)
    try:
        img = cls(SegmentData(cx.mkarray(b)))
        img.strict_check()
        img.parse_segments()
    except errors.AtrError:
        cx.check(not ok, "a power of two must be accepted")
        cx.reach("rom refused")
        return
    cx.check(ok, "other sizes must be refused")
    cx.check(len(img.segments) == 1 and cx.eq(img.segments[0].data[:], b), "the whole ROM is one segment")
    boot = img.create_emulator_boot_segment()
    cx.check((boot is None) if img.segments[0].origin == 0 else boot is img.segments[0], "a ROM without an address is not bootable")
    cx.reach("rom")


def cases(tier):
    T = tier == "thorough"
    out = []
    add = lambda name, fn, cost=2, **p: out.append({"name": name, "fn": fn, "cost": cost, "params": p, "max_paths": 30000, "fuel": 100000000})
    add("header", "header")
    for n in (0, 1, 15, 17):
        add("header-%d" % n, "header", n=n)
    add("written", "written")
    sizes = [2, 4, 8, 16, 32, 40, 64, 128, 256, 512, 1024] + ([2048, 4096] if T else [])
    for kb in sizes:
        step = 2048 if kb == 2 else 4096 if kb <= 64 else 8192
        c = 2 + kb // 16
        add("image-%d" % kb, "image", c, kb=kb, step=step)
        if kb <= 256 or T:
            add("plain-%d" % kb, "plain", c, kb=kb, step=step)
    for kb in (2, 4, 8, 16, 32, 40, 64) if not T else sizes:
        add("parsers-%d" % kb, "through_parsers", 4 + kb // 8, kb=kb, step=2048 if kb == 2 else 4096 if kb <= 64 else 8192)
    for kb, e in ((0, 0), (0, 1), (1, 0), (2, 1), (4, 16), (8, -1), (8, 512), (16, 1), (8, 16), (24, 0)):
        add("image-%d%+d" % (kb, e), "image", 2, kb=kb, extra=e, step=1024)
        if (kb, e) != (0, 0):
            add("plain-%d%+d" % (kb, e), "plain", 2, kb=kb, extra=e, step=1024)
    add("rom", "rom", sizes=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 96, 127, 128])
    return out


def REACH(tier):
    return ["header", "bad header", "header written", "unknown type", "image", "plain image", "refused", "other type refused", "parsed", "no parser", "rom", "rom refused"]


BOUNDS = {
    "quick": "every header content (32-bit type and checksum); image sizes of every type up to 1 MB with a header and up to 256 KB without one, and ten sizes that fit no type; arbitrary bytes at every bank border (images above 64 KB: with the type numbers of that size and five others), a fixed position-dependent pattern between them; identification through all parsers for images up to 64 KB; ROM images of 20 sizes up to 128 bytes.",
    "thorough": "images up to 4 MB, all of them also without header and through the parsers.",
}
OUTSIDE = "images of the 32, 64 and 128 MB types (their table entries are only checked through the header); type number 0; headers reused for a second type"
ASSUMPTIONS = ["the code's layout of a type it describes no banks for is the whole image at address 0"]
