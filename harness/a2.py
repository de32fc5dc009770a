"""A small 6502 running an Apple II boot sector (independent of /repo).

Only what a boot loader that reads sectors through the boot ROM needs: the
instructions, two monitor routines, and the ROM's read-sector entry $Cn5C.
"""

# physical sector -> sector number in a .dsk (DOS 3.3 order) image
SKEW = [0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15]


class Stuck(Exception):
    pass


class Machine:
    def __init__(self, disk, code):
        self.disk = disk  # function(track, dos sector) -> list of 256 bytes
        self.pages = {}   # page number -> list of 256 bytes
        self.loads = []   # (page, track, physical sector)
        self.zp = {0x26: 0, 0x27: 9, 0x3d: 1, 0x40: 0, 0x41: 0, 0x2b: 0x60, 0xfe: 0}
        self.code = list(code)
        self.a, self.x, self.y = 1, 0x60, 0
        self.n = self.z = self.c = 0
        self.stack = []
        self.io = []

    def rd(self, a):
        if a < 256:
            if a not in self.zp:
                raise Stuck("zero page %02x read" % a)
            return self.zp[a]
        if 0x800 <= a < 0x900:
            return self.code[a - 0x800]
        if 0xc000 <= a < 0xc100:
            self.io.append(a)
            return 0
        raise Stuck("read of %04x" % a)

    def wr(self, a, v):
        if a < 256:
            self.zp[a] = v
        elif 0x800 <= a < 0x900:
            self.code[a - 0x800] = v
        elif 0xc000 <= a < 0xc100:
            self.io.append(a)
        else:
            raise Stuck("write of %04x" % a)

    def flags(self, v):
        self.n, self.z = v >> 7, int(v == 0)
        return v

    def cmp(self, r, v):
        self.c = int(r >= v)
        self.flags((r - v) & 255)

    def read_sector(self):
        """Boot ROM $C65C: read sector $3D of track $41 to page $27."""
        t, s, page = self.zp[0x41], self.zp[0x3d], self.zp[0x27]
        if not (0 <= s < 16):
            raise Stuck("sector %d" % s)
        if page == 8 or page < 1 or page >= 0xc0:
            raise Stuck("load to page %02x" % page)
        self.pages[page] = self.disk(t, SKEW[s])
        self.loads.append((page, t, s))
        self.zp[0x27] = (page + 1) & 255
        self.zp[0x3d] = s + 1
        self.a, self.x = s + 1, self.zp[0x2b]

    def run(self, fuel=60000):
        """Runs to the jump out of the loader: (lo, hi) of the target."""
        pc = 0x801
        S = self
        for _ in range(fuel):
            op = S.rd(pc)
            if not isinstance(op, int):
                raise Stuck("instruction is not fixed")
            b = lambda: S.rd(pc + 1)
            w = lambda: S.rd(pc + 1) + 256 * S.rd(pc + 2)
            n = 1
            if op == 0xa8: S.y = S.flags(S.a)
            elif op == 0x8a: S.a = S.flags(S.x)
            elif op == 0x18: S.c = 0
            elif op == 0xc8: S.y = S.flags((S.y + 1) & 255)
            elif op == 0x48: S.stack.append(S.a)
            elif op == 0x2a:
                v = (S.a << 1) | S.c
                S.c = v >> 8
                S.a = S.flags(v & 255)
            elif op == 0x60:
                if len(S.stack) < 2:
                    raise Stuck("stack")
                lo, hi = S.stack.pop(), S.stack.pop()
                pc = (lo + 256 * hi + 1) & 0xffff
                n = 0
            elif op in (0xa9, 0xa0, 0x29, 0x09, 0xc9, 0xc0):
                v = b()
                if op == 0xa9: S.a = S.flags(v)
                elif op == 0xa0: S.y = S.flags(v)
                elif op == 0x29: S.a = S.flags(S.a & v)
                elif op == 0x09: S.a = S.flags(S.a | v)
                elif op == 0xc9: S.cmp(S.a, v)
                else: S.cmp(S.y, v)
                n = 2
            elif op in (0x85, 0x84, 0xa5, 0xc6, 0xe6, 0x06, 0x05, 0x24):
                z = b()
                if op == 0x85: S.wr(z, S.a)
                elif op == 0x84: S.wr(z, S.y)
                elif op == 0xa5: S.a = S.flags(S.rd(z))
                elif op == 0xc6: S.wr(z, S.flags((S.rd(z) - 1) & 255))
                elif op == 0xe6: S.wr(z, S.flags((S.rd(z) + 1) & 255))
                elif op == 0x05: S.a = S.flags(S.a | S.rd(z))
                elif op == 0x06:
                    v = S.rd(z) << 1
                    S.c = v >> 8
                    S.wr(z, S.flags(v & 255))
                else:
                    # BIT; the value is not used by loaders that skip with it
                    S.n, S.z = 0, 0
                n = 2
            elif op in (0x8d, 0xad, 0xee, 0xb9, 0x2c):
                a = w()
                if op == 0x8d: S.wr(a, S.a)
                elif op == 0xad: S.a = S.flags(S.rd(a))
                elif op == 0xee: S.wr(a, S.flags((S.rd(a) + 1) & 255))
                elif op == 0xb9: S.a = S.flags(S.rd(a + S.y))
                else: S.n, S.z = 0, 0
                n = 3
            elif op in (0xd0, 0xf0, 0x10, 0x30, 0x90, 0xb0):
                t = {0xd0: not S.z, 0xf0: S.z, 0x10: not S.n, 0x30: S.n, 0x90: not S.c, 0xb0: S.c}[op]
                d = b()
                n = 2
                if t:
                    pc = pc + 2 + (d if d < 128 else d - 256)
                    n = 0
            elif op == 0x20:
                a = w()
                r = pc + 2
                S.stack += [r >> 8, r & 255]
                pc, n = a, 0
            elif op == 0x4c:
                lo, hi = S.rd(pc + 1), S.rd(pc + 2)
                if not (isinstance(lo, int) and isinstance(hi, int)):
                    return lo, hi
                t = lo + 256 * hi
                if not (0x800 <= t < 0x900 or t in (0xf87b, 0xfca8)) or pc == 0x884:
                    return lo, hi
                pc, n = t, 0
            else:
                raise Stuck("instruction %02x at %04x" % (op, pc))
            pc += n
            if pc == 0xf87b:      # monitor: A = A / 16
                S.a = S.flags(S.a >> 4)
                lo, hi = S.stack.pop(), S.stack.pop()
                pc = lo + 256 * hi + 1
            elif pc == 0xfca8:    # monitor WAIT: leaves A = 0
                S.a = S.flags(0)
                lo, hi = S.stack.pop(), S.stack.pop()
                pc = lo + 256 * hi + 1
            elif pc == 0xc65c:
                S.read_sector()
                pc = 0x801
            elif not 0x800 <= pc < 0x900:
                raise Stuck("jump to %04x" % pc)
        raise Stuck("endless")
