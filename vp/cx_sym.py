"""Harness context, symbolic side."""
from . import engine as E
from . import terms as T
from . import symnp as NP
from . import instrument as I
from . import values as V
from .values import SymInt, SymBool, SymBytes, SymStr, SymFmt, SymSeq, mkint, mkbytes, mkstr, mkbool, bterm


class Cx:
    symbolic = True
    np = NP

    def __init__(self, eng):
        self.e = eng

    # -- inputs
    def _var(self, name, w):
        self.e.vars[name] = w
        return T.var(name, w)

    def byte(self, name):
        return mkint(self._var(name, 8))

    def int(self, name, lo, hi):
        """Arbitrary integer in [lo, hi]."""
        if lo == hi:
            return lo
        w = max(1, (hi - lo).bit_length())
        t = self._var(name, w)
        if (hi - lo) != (1 << w) - 1:
            self.e.assume(T.ule(t, T.const(hi - lo, w)))
            # tighten the interval known to the term layer
            return mkint(t, 0, hi - lo) + lo
        return mkint(t) + lo

    def bool(self, name):
        return mkbool(T.eq(self._var(name, 1), T.const(1, 1)))

    def bytelist(self, name, n):
        return [self.byte("%s[%d]" % (name, i)) for i in range(n)]

    def bytes(self, name, n):
        return mkbytes(self.bytelist(name, n))

    def text(self, name, n, lo=32, hi=126):
        """n arbitrary characters with code points in [lo,hi]."""
        return mkstr([self.int("%s[%d]" % (name, i), lo, hi) for i in range(n)])

    def array(self, name, n):
        return NP._fromlist(self.bytelist(name, n), NP._np.dtype("u1"), (n,))

    def choose(self, name, items):
        """One of items; every alternative is explored."""
        items = list(items)
        if len(items) == 1:
            return items[0]
        i = self.int(name, 0, len(items) - 1)
        return items[i if isinstance(i, int) else i.conc()]

    def concrete(self, v):
        """Fork until v has one value on this path."""
        v = I._plain(v)
        return v.conc() if isinstance(v, (SymInt, SymSeq)) else v

    def mktext(self, l):
        """String of the given code points."""
        l = list(l)
        return mkstr(l) if l else ""

    def mkbytes(self, l):
        return I.vp_bytes(list(l))

    def mkarray(self, l):
        l = list(l)
        return NP._fromlist(l, NP._np.dtype("u1"), (len(l),))

    # -- logic
    def assume(self, c):
        self.e.assume(bterm(self._b(c)))

    def _b(self, c):
        if isinstance(c, (bool, SymBool)):
            return c
        if isinstance(c, NP.generic):
            return c.v != 0
        if isinstance(c, SymInt):
            return c != 0
        return bool(c)

    def check(self, c, label, detail=None):
        t = bterm(self._b(c))
        pairs, self.pairs = self.pairs, None
        if t is T.TRUE and pairs and self.e.pi >= len(self.e.prefix):
            self.e.check_pairs(pairs[:2048], label)
        self.e.check(t, label, detail)

    pairs = None

    def fail(self, label, detail=None):
        self.e.fail(label, detail)

    def reach(self, label):
        self.e.reached[label] = self.e.reached.get(label, 0) + 1

    def and_(self, *cs):
        return V.and_(*[self._b(c) for c in cs])

    def or_(self, *cs):
        return V.or_(*[self._b(c) for c in cs])

    def not_(self, c):
        return V.not_(self._b(c))

    def implies(self, a, b):
        return V.or_(V.not_(self._b(a)), self._b(b))

    def iff(self, a, b):
        return mkbool(T.eq(bterm(self._b(a)), bterm(self._b(b))))

    def ite(self, c, a, b):
        return V.ite(self._b(c), I._plain(a), I._plain(b))

    def all(self, it):
        return V.and_(*[self._b(c) for c in it])

    def any(self, it):
        return V.or_(*[self._b(c) for c in it])

    def eq(self, a, b):
        """Sequence/array/scalar equality as one condition (no forking)."""
        a, b = I._plain(a), I._plain(b)
        la, lb = self._seq(a), self._seq(b)
        if la is None or lb is None:
            if isinstance(a, SymFmt) or isinstance(b, SymFmt):
                return a == b
            return a == b
        if len(la) != len(lb):
            return False
        out, pairs = [], []
        for x, y in zip(la, lb):
            x, y = I._plain(x), I._plain(y)
            if x is y or isinstance(x, SymInt) and isinstance(y, SymInt) and x.t is y.t and (x.lo < 0) == (y.lo < 0):
                if isinstance(x, SymInt):
                    pairs.append((x.t, y.t))
                continue
            out.append(self._b(x == y))
        r = V.and_(*out)
        self.pairs = pairs if r is True else None
        return r

    def _seq(self, x):
        if isinstance(x, NP._LazyIdx):
            x = x._mat()
        if isinstance(x, NP.ndarray):
            return x.reshape(-1)._elems()
        if isinstance(x, SymFmt):
            return None
        if isinstance(x, (SymBytes, SymStr)):
            return x.cs
        if isinstance(x, (bytes, bytearray)):
            return list(x)
        if isinstance(x, str):
            return [ord(c) for c in x]
        if isinstance(x, (list, tuple)):
            return list(x)
        return None

    def lst(self, x):
        """Flat python list of the bytes/elements of x."""
        r = self._seq(x)
        if r is None:
            r = list(x)
        return r

    def plain(self, x):
        return I._plain(x)

    def fmt(self, f, *args):
        return I.vp_mod(f, tuple(args))

    def snapshot(self, arr):
        return arr.copy()

    def same_except(self, a, b, skip):
        """Arrays equal outside the index set `skip`; compares raw and symbol
        planes so untouched bytes cost nothing."""
        if a.c.shape != b.c.shape:
            return False
        m = NP._np.ones(a.c.shape[0], dtype=bool)
        if len(skip):
            idx = [x for x in skip if 0 <= x < len(m)]
            m[idx] = False
        d = ((a.c != b.c) | (a.s != b.s).any(axis=-1)) & m
        out = []
        for i in NP._np.nonzero(d)[0]:
            x = NP._elem(a.c[i], a.s[i], a.c.dtype)
            y = NP._elem(b.c[i], b.s[i], b.c.dtype)
            r = x == y
            if r is False:
                return False
            out.append(r)
        return V.and_(*out)

    def changed(self, a, b):
        """Indices where two arrays may differ."""
        d = (a.c != b.c) | (a.s != b.s).any(axis=-1)
        return [int(i) for i in NP._np.nonzero(d)[0]]

    def deepfork(self, x):
        return I._deep(x)

    def gather(self, n):
        """Arrays of up to n elements are read and written at symbolic
        positions as if-then-else terms instead of by forking (this path)."""
        NP.GATHER = n

    # -- environment control
    def stub(self, fn, repl):
        """Route calls the code under test makes to fn to repl (this path)."""
        I.EXTRA[fn] = repl
        self.stubs.append(fn)

    stubs = []

    def unstub(self):
        NP.GATHER = 0
        for f in self.stubs:
            I.EXTRA.pop(f, None)
        del self.stubs[:]
