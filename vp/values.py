"""Symbolic Python values: integers, booleans, byte/character strings."""
import re

from . import terms as T
from . import engine as E


def bits_for(lo, hi):
    """(width, signed) able to hold [lo,hi]."""
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.ENG.fork(self.t)

    def __invert__(self):
        return mkbool(T.not_(self.t))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(T.and_(self.t, bterm(o)))
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(T.or_(self.t, bterm(o)))
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(T.not_(T.eq(self.t, bterm(o))))
        return self._int() ^ o

    __rxor__ = __xor__

    def _int(self):
        return mkint(T.ite(self.t, T.const(1, 1), T.const(0, 1)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(T.eq(self.t, bterm(o)))
        return self._int() == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def all(self):
        return self

    any = all

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __lt__(self, o):
        return self._int() < o

    def __gt__(self, o):
        return self._int() > o

    def __le__(self, o):
        return self._int() <= o

    def __ge__(self, o):
        return self._int() >= o

    def __repr__(self):
        return "<symbool>"


def bterm(b):
    if isinstance(b, SymBool):
        return b.t
    return T.boolc(bool(b))


def mkbool(t):
    if t is T.TRUE:
        return True
    if t is T.FALSE:
        return False
    return SymBool(t)


def not_(b):
    if isinstance(b, SymBool):
        return mkbool(T.not_(b.t))
    return not b


def and_(*bs):
    return mkbool(T.conj([bterm(b) for b in bs]))


def or_(*bs):
    return mkbool(T.disj([bterm(b) for b in bs]))


def mkint(t, lo=None, hi=None):
    """Value of t read as unsigned (lo >= 0) -- constant folds to int."""
    if T.isc(t):
        v = T.cval(t)
        if lo is not None and lo < 0 and v >> (t.w - 1):
            v -= 1 << t.w
        return v
    if lo is None:
        lo, hi = t.lo, t.hi
    elif lo >= 0:
        lo, hi = max(lo, t.lo), min(hi, t.hi)
    if lo == hi:
        return lo
    return SymInt(t, lo, hi)


def rng(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


def ext(x, w):
    """Term of width w holding x (two's complement if negative)."""
    if isinstance(x, SymInt):
        t = x.t
        if t.w == w:
            return t
        if t.w > w:
            return T.extract(w - 1, 0, t)
        return T.zext(t, w) if x.lo >= 0 else T.sext(t, w)
    return T.const(x, w)


def norm(t, lo, hi):
    """SymInt from term t whose value (signed if lo<0 else unsigned, modulo
    width) lies in [lo,hi]; shrink to the needed width."""
    w = bits_for(lo, hi)
    if t.w > w:
        t = T.extract(w - 1, 0, t)
    return mkint(t, lo, hi)


def _isint(x):
    return isinstance(x, (int, SymInt)) or isinstance(x, SymBool)


def _coerce(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SymBool):
        return x._int()
    return x


class SymInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    # -- conversion
    def conc(self):
        return E.ENG.concretize(self.t, self.lo < 0)

    def known(self):
        v = E.ENG.conc.get(self.t.id)
        if v is not None and self.lo < 0 and v >> (self.t.w - 1):
            v -= 1 << self.t.w
        return v

    __index__ = conc
    __int__ = conc

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return "<sym %d..%d>" % (self.lo, self.hi)

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    # -- arithmetic
    def _bin(self, o, f, lo, hi):
        w = bits_for(lo, hi)
        a, b = rng(self), rng(o)
        # operands need to be representable too for ops that are not modular
        return norm(f(ext(self, w), ext(o, w)), lo, hi)

    def __add__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        return self._bin(o, T.add, self.lo + a, self.hi + b)

    __radd__ = __add__

    def __sub__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        return self._bin(o, T.sub, self.lo - b, self.hi - a)

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        lo, hi = o - self.hi, o - self.lo
        w = bits_for(lo, hi)
        return norm(T.sub(T.const(o, w), ext(self, w)), lo, hi)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __invert__(self):
        return -1 - self

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.conc()
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        c = [self.lo * a, self.lo * b, self.hi * a, self.hi * b]
        return self._bin(o, T.mul, min(c), max(c))

    __rmul__ = __mul__

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o < 8 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.conc(), o, m)

    def __rpow__(self, o):
        return o ** self.conc()

    def _divmod(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod(-o) if isinstance(-self, SymInt) else divmod(-self, -o)
            return q, -r
        x, m = self, 0
        if self.lo < 0:
            m = (-self.lo + o - 1) // o
            x = self + m * o
            if not isinstance(x, SymInt):
                q, r = divmod(x, o)
                return q - m, r
        w = max(bits_for(0, x.hi), o.bit_length())
        a, k = ext(x, w), T.const(o, w)
        q = norm(T.udiv(a, k), x.lo // o, x.hi // o)
        if x.lo // o == x.hi // o:
            r = x - (x.lo // o) * o
        else:
            r = norm(T.urem(a, k), 0, min(o - 1, x.hi))
        return q - m, r

    def __divmod__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(_coerce(o))

    def __rdivmod__(self, o):
        return divmod(o, self.conc())

    def __floordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(_coerce(o))[0]

    def __rfloordiv__(self, o):
        return o // self.conc()

    def __mod__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._divmod(_coerce(o))[1]

    def __rmod__(self, o):
        return o % self.conc()

    def __truediv__(self, o):
        return self.conc() / (o.conc() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.conc()

    # -- bitwise
    def _bw(self, o, f, lo, hi):
        w = max(bits_for(self.lo, self.hi) + 1, bits_for(*rng(o)) + 1, bits_for(lo, hi))
        return norm(f(ext(self, w), ext(o, w)), lo, hi)

    def __and__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        if self.lo >= 0 and a >= 0:
            return self._bw(o, T.band_, 0, min(self.hi, b))
        if self.lo >= 0:
            return self._bw(o, T.band_, 0, self.hi)
        if a >= 0:
            return self._bw(o, T.band_, 0, b)
        n = max(bits_for(self.lo, self.hi), bits_for(a, b))
        return self._bw(o, T.band_, -(1 << n), (1 << n) - 1)

    __rand__ = __and__

    def __or__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        n = max(bits_for(self.lo, self.hi), bits_for(a, b))
        if self.lo >= 0 and a >= 0:
            return self._bw(o, T.bor_, max(self.lo, a), (1 << n) - 1)
        return self._bw(o, T.bor_, -(1 << n), (1 << n) - 1)

    __ror__ = __or__

    def __xor__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        n = max(bits_for(self.lo, self.hi), bits_for(a, b))
        lo = 0 if self.lo >= 0 and a >= 0 else -(1 << n)
        return self._bw(o, T.bxor_, lo, (1 << n) - 1)

    __rxor__ = __xor__

    def __lshift__(self, o):
        o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> self.conc()

    # -- comparison
    def _cmp(self, o, fu, fs):
        a, b = rng(o)
        if self.lo >= 0 and a >= 0:
            w = max(bits_for(self.lo, self.hi), bits_for(a, b), self.t.w)
            return mkbool(fu(ext(self, w), ext(o, w)))
        w = max(bits_for(self.lo, self.hi) + 1, bits_for(a, b) + 1, self.t.w + 1)
        return mkbool(fs(ext(self, w), ext(o, w)))

    def __eq__(self, o):
        if not _isint(o):
            if hasattr(o, "__vp_array__") or hasattr(o, "__vp_scalar__"):
                return NotImplemented
            if isinstance(o, float):
                return self.conc() == o
            return False
        o = _coerce(o)
        a, b = rng(o)
        if a > self.hi or b < self.lo:
            return False
        v = self.known()
        if v is not None:
            return v == o
        return self._cmp(o, T.eq, T.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        if self.hi < a:
            return True
        if self.lo >= b:
            return False
        return self._cmp(o, T.ult, T.slt)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else not_(r)

    def __le__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        a, b = rng(o)
        if self.hi <= a:
            return True
        if self.lo > b:
            return False
        return self._cmp(o, T.ule, T.sle)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else not_(r)

    def bit_length(self):
        return self.conc().bit_length()

    def to_bytes(self, length=1, byteorder="big", signed=False):
        n = length
        if not signed and (self.lo < 0 or self.hi >> (8 * n)):
            if bool(self < 0) or bool(self >= (1 << (8 * n))):
                raise OverflowError("int too big to convert")
        w = 8 * n
        t = ext(self, max(w, self.t.w))
        out = [mkint(T.extract(8 * i + 7, 8 * i, t)) for i in range(n)]
        if byteorder == "big":
            out.reverse()
        return mkbytes(out)

    @property
    def real(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return True


def ite(c, a, b):
    """Symbolic if-then-else over ints."""
    if not isinstance(c, SymBool):
        return a if c else b
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = bits_for(lo, hi)
    return mkint(T.ite(c.t, ext(a, w), ext(b, w)), lo, hi)


def byte_term(v):
    """8-bit term of an int or SymInt (mod 256)."""
    if isinstance(v, SymInt):
        return ext(v, 8)
    return T.const(v, 8)


# --------------------------------------------------------------------- strings
WS = b" \t\n\r\x0b\x0c"


def _allconc(cs):
    for c in cs:
        if not isinstance(c, int):
            return False
    return True


def mkbytes(cs):
    cs = [c if isinstance(c, (int, SymInt)) else int(c) for c in cs]
    if _allconc(cs):
        return bytes(cs)
    return SymBytes(cs)


def mkstr(cs):
    cs = list(cs)
    if _allconc(cs):
        return "".join(map(chr, cs))
    return SymStr(cs)


class SymSeq:
    """Fixed-length sequence of int|SymInt characters."""
    __slots__ = ("cs",)
    __vp_seq__ = True

    def __init__(self, cs):
        self.cs = list(cs)

    # subclass hooks: mk, lift
    @classmethod
    def lift(cls, x):
        raise NotImplementedError

    def conc(self):
        return self.raw([int(c) for c in self.cs])

    def __len__(self):
        return len(self.cs)

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return len(self.cs) > 0

    def __repr__(self):
        return "<sym%s:%d>" % (self.kind, len(self.cs))

    def __str__(self):
        return "<sym%s>" % self.kind

    def __format__(self, spec):
        return "<sym%s>" % self.kind

    def __eq__(self, o):
        oc = self.lift(o)
        if oc is None:
            return False
        if len(oc) != len(self.cs):
            return False
        ts = []
        for a, b in zip(self.cs, oc):
            r = a == b
            if r is False:
                return False
            if r is not True:
                ts.append(r.t)
        return mkbool(T.conj(ts))

    def __ne__(self, o):
        return not_(self == o)

    def _lt(self, o, orequal):
        oc = self.lift(o)
        if oc is None:
            return NotImplemented
        for a, b in zip(self.cs, oc):
            if a == b:
                continue
            return a < b
        return len(self.cs) <= len(oc) if orequal else len(self.cs) < len(oc)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return not_(self._lt(o, True))

    def __ge__(self, o):
        return not_(self._lt(o, False))

    def __add__(self, o):
        oc = self.lift(o)
        if oc is None:
            return NotImplemented
        return self.mk(self.cs + list(oc))

    def __radd__(self, o):
        oc = self.lift(o)
        if oc is None:
            return NotImplemented
        return self.mk(list(oc) + self.cs)

    def __mul__(self, n):
        return self.mk(self.cs * int(n))

    __rmul__ = __mul__

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q)) for q in p)
        pc = self.lift(p)
        return self.mk(self.cs[start:start + len(pc)]) == p if len(self.cs) - start >= len(pc) else False

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q)) for q in p)
        pc = self.lift(p)
        if len(pc) == 0:
            return True
        return self.mk(self.cs[-len(pc):]) == p if len(self.cs) >= len(pc) else False

    def find(self, sub, start=0, end=None):
        if isinstance(sub, (int, SymInt)):
            sub = self.mk([sub])
        n = len(self.lift(sub))
        end = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(start, end - n + 1):
            if self.mk(self.cs[i:i + n]) == sub:
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self.lift(sub))
        end = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(end - n, start - 1, -1):
            if self.mk(self.cs[i:i + n]) == sub:
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        n, i = 0, 0
        k = len(self.lift(sub))
        while True:
            j = self.find(sub, i)
            if j < 0:
                return n
            n += 1
            i = j + k

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _isws(self, c):
        if isinstance(c, int):
            return c in self.ws
        return bool(or_(*[c == w for w in self.ws]))

    def _inset(self, c, chars):
        if chars is None:
            return self._isws(c)
        chars = self.lift(chars)
        return bool(or_(*[c == w for w in chars])) if chars else False

    def rstrip(self, chars=None):
        n = len(self.cs)
        while n > 0 and self._inset(self.cs[n - 1], chars):
            n -= 1
        return self.mk(self.cs[:n])

    def lstrip(self, chars=None):
        n = 0
        while n < len(self.cs) and self._inset(self.cs[n], chars):
            n += 1
        return self.mk(self.cs[n:])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = None
            i = 0
            n = len(self.cs)
            while True:
                while i < n and self._isws(self.cs[i]):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    r = self.mk(self.cs[i:])
                    out.append(r.rstrip())
                    return out
                j = i
                while j < n and not self._isws(self.cs[j]):
                    j += 1
                out.append(self.mk(self.cs[i:j]))
                i = j
        k = len(self.lift(sep))
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(self.mk(self.cs[i:j]))
            i = j + k
        out.append(self.mk(self.cs[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep)
        k = len(self.lift(sep))
        out = []
        end = len(self.cs)
        while len(out) < maxsplit:
            j = self.rfind(sep, 0, end)
            if j < 0:
                break
            out.append(self.mk(self.cs[j + k:end]))
            end = j
        out.append(self.mk(self.cs[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self.mk([]), self.mk([])
        k = len(self.lift(sep))
        return self.mk(self.cs[:i]), sep, self.mk(self.cs[i + k:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.mk([]), self.mk([]), self
        k = len(self.lift(sep))
        return self.mk(self.cs[:i]), sep, self.mk(self.cs[i + k:])

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.lift(new))
            out.extend(self.lift(p))
        return self.mk(out)

    def join(self, items):
        out = []
        for i, p in enumerate(items):
            if i:
                out.extend(self.cs)
            out.extend(self.lift(p))
        return self.mk(out)

    def ljust(self, n, fill=None):
        f = self.lift(fill)[0] if fill is not None else 32
        return self.mk(self.cs + [f] * (n - len(self.cs)))

    def rjust(self, n, fill=None):
        f = self.lift(fill)[0] if fill is not None else 32
        return self.mk([f] * (n - len(self.cs)) + self.cs)

    def _map(self, lo, hi, delta):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.append(c + delta if lo <= c <= hi else c)
            else:
                out.append(ite(and_(c >= lo, c <= hi), c + delta, c))
        return self.mk(out)

    def upper(self):
        return self._map(97, 122, -32)

    def lower(self):
        return self._map(65, 90, 32)

    def _class(self, pred):
        return len(self.cs) > 0 and all(bool(pred(c)) for c in self.cs)

    def isdigit(self):
        return self._class(lambda c: and_(c >= 48, c <= 57))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._class(lambda c: or_(and_(c >= 65, c <= 90), and_(c >= 97, c <= 122)))

    def isalnum(self):
        return self._class(lambda c: or_(and_(c >= 48, c <= 57), and_(c >= 65, c <= 90), and_(c >= 97, c <= 122)))

    def isspace(self):
        return self._class(lambda c: or_(*[c == w for w in self.ws]))

    def isascii(self):
        return all(bool(c < 128) for c in self.cs)

    def translate(self, table, delete=None):
        return self.conc().translate(table) if delete is None else self.conc().translate(table, delete)


class SymBytes(SymSeq):
    kind = "bytes"
    ws = tuple(WS)
    raw = staticmethod(bytes)

    @classmethod
    def lift(cls, x):
        if isinstance(x, (bytes, bytearray, memoryview)):
            return list(bytes(x))
        if isinstance(x, SymBytes):
            return x.cs
        if hasattr(x, "__vp_array__"):
            return cls.lift(x.tobytes())
        return None

    @staticmethod
    def mk(cs):
        return mkbytes(cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.cs[i])
        return self.cs[int(i)]

    def __iter__(self):
        return iter(self.cs)

    def decode(self, enc="utf-8", errors="strict"):
        e = enc.lower().replace("_", "-")
        if e in ("latin1", "latin-1", "iso-8859-1", "iso8859-1"):
            return mkstr(self.cs)
        out = []
        for i, c in enumerate(self.cs):
            if c < 128:
                out.append(c)
            elif e in ("ascii", "us-ascii"):
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(0xfffd)
                    continue
                if errors == "strict":
                    raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
                return self.conc().decode(enc, errors)
            else:
                return self.conc().decode(enc, errors)
        return mkstr(out)

    def tobytes(self):
        return self

    def hex(self):
        return self.conc().hex()


class SymStr(SymSeq):
    kind = "str"
    ws = tuple(WS) + (0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0)
    raw = staticmethod(lambda cs: "".join(map(chr, cs)))

    @classmethod
    def lift(cls, x):
        if isinstance(x, str):
            return [ord(c) for c in x]
        if isinstance(x, SymStr):
            return x.cs
        return None

    @staticmethod
    def mk(cs):
        return mkstr(cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr([self.cs[int(i)]])

    def __iter__(self):
        return iter([mkstr([c]) for c in self.cs])

    def encode(self, enc="utf-8", errors="strict"):
        e = enc.lower().replace("_", "-")
        lim = 256 if e in ("latin1", "latin-1", "iso-8859-1") else 128
        out = []
        for c in self.cs:
            if c < lim:
                out.append(c)
            elif e in ("utf-8", "utf8"):
                out.extend(chr(int(c)).encode("utf-8"))
            elif errors == "ignore":
                continue
            elif errors == "replace":
                out.append(63)
            else:
                raise UnicodeEncodeError(e, "\uffff", 0, 1, "ordinal not in range")
        return mkbytes(out)

    def casefold(self):
        return self.lower()

    def splitlines(self):
        return self.conc().splitlines()

    def zfill(self, n):
        return self.conc().zfill(n)


class SymFmt(SymSeq):
    """Formatted text with symbolic numbers: list of str | (value, spec)."""
    kind = "fmt"
    __slots__ = ("parts",)
    ws = SymStr.ws

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymFmt):
                out.extend(p.parts)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            elif not isinstance(p, str) or p != "":
                m.append(p)
        self.parts = m

    @property
    def cs(self):
        """The characters; a number is split into its digits (the number of
        digits is decided by forking, the digits stay symbolic)."""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(ord(c) for c in p)
            elif isinstance(p, SymStr):
                out.extend(p.cs)
            else:
                out.extend(digits(*p))
        return out

    def conc(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, SymStr):
                out.append(p.conc())
            else:
                v, spec = p
                out.append(format(v.conc() if hasattr(v, "conc") else v, spec))
        return "".join(out)

    @classmethod
    def lift(cls, x):
        return SymStr.lift(x) if not isinstance(x, SymFmt) else x.cs

    @staticmethod
    def mk(cs):
        return mkstr(cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, SymFmt):
            if len(self.parts) == len(o.parts):
                ts = []
                for a, b in zip(self.parts, o.parts):
                    if isinstance(a, str) != isinstance(b, str) or isinstance(a, SymStr) != isinstance(b, SymStr):
                        break
                    if isinstance(a, SymStr):
                        ts.append(bterm(a == b))
                    elif isinstance(a, str):
                        if a != b:
                            break
                    elif a[1] != b[1]:
                        break
                    else:
                        ts.append(bterm(a[0] == b[0]))
                else:
                    return mkbool(T.conj(ts))
            return mkstr(self.cs) == mkstr(o.cs)
        if isinstance(o, str):
            return mkstr(self.cs) == o
        if isinstance(o, SymStr):
            return SymStr(self.cs) == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(self.conc())

    def __add__(self, o):
        if isinstance(o, SymFmt):
            return SymFmt(self.parts + o.parts)
        if isinstance(o, (str, SymStr)):
            return SymFmt(self.parts + [o])
        return mkstr(self.cs) + o

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymFmt([o] + self.parts)
        return o + mkstr(self.cs)

    def __getitem__(self, i):
        return mkstr(self.cs)[i]

    def __iter__(self):
        return iter(mkstr(self.cs))

    def encode(self, *a, **k):
        return mkstr(self.cs).encode(*a, **k)


_SPEC = re.compile(r"(<?)(0?)([0-9]*)([dxX]?)$")


def digits(v, spec):
    """Characters of an integer formatted with a plain width and base."""
    m = _SPEC.match(spec)
    if not isinstance(v, SymInt) or not m or bool(v < 0):
        return [ord(c) for c in format(v.conc() if hasattr(v, "conc") else v, spec)]
    left, zero, width, conv = m.groups()
    base = 16 if conv in ("x", "X") else 10
    n = 1
    while bool(v >= base ** n):
        n += 1
    out = []
    for i in range(n - 1, -1, -1):
        d = (v // base ** i) % base
        out.append(48 + d if base == 10 else ite(d < 10, 48 + d, (87 if conv == "x" else 55) + d))
    pad = (int(width) if width else 0) - n
    if pad > 0:
        if left:
            out = out + [32] * pad
        else:
            out = [48 if zero else 32] * pad + out
    return out


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymSeq))
