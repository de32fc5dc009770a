"""numpy shim with numpy-1.22 semantics whose array elements may be symbolic.

Every array carries a real numpy array `c` (the concrete bytes) and a parallel
integer array `s` with one entry per *byte* (0 = concrete, else the id of an
8-bit term).  Views, slices and fancy indexing are delegated to real numpy on
both, so aliasing behaves exactly as in numpy.
"""
import sys
import builtins as _b
import operator
import numpy as _np
from . import terms as T
from . import engine as E
from .values import (SymInt, SymBool, SymSeq, SymBytes, SymStr, mkint, mkbool, mkbytes, bterm, ite, not_, ext, rng,
                     bits_for)
from . import values as V

SYM = {}          # term id -> 8-bit term
_real = _np


def reset():
    SYM.clear()


class _Marker:
    """Stands for a non-array base object (memoryview etc.)."""


# ------------------------------------------------------------------ dtypes
def _dt(d):
    if isinstance(d, _np.dtype):
        return d
    if isinstance(d, type) and issubclass(d, generic):
        return d.dt
    if d is int:
        return _np.dtype("int64")
    if d is bool:
        return _np.dtype("bool")
    if isinstance(d, list):
        return _np.dtype([(f[0], _dt(f[1])) + tuple(f[2:]) for f in d])
    return _np.dtype(d)


def dtype(d, *a, **k):
    return _dt(d)


def _range(dt):
    if dt.kind == "b":
        return 0, 1
    i = _np.iinfo(dt)
    return int(i.min), int(i.max)


def wrap(v, dt):
    """int|SymInt reduced to the range of integer dtype dt (C cast)."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, SymBool):
        v = v._int()
    if dt.kind == "b":
        if isinstance(v, SymInt):
            return ite(v != 0, 1, 0)
        return 1 if v else 0
    if dt.kind == "f":
        return v
    lo, hi = _range(dt)
    a, b = rng(v)
    if lo <= a and b <= hi:
        return v
    w = dt.itemsize * 8
    if isinstance(v, int):
        v &= (1 << w) - 1
        return v - (1 << w) if v > hi else v
    t = ext(v, w)
    return mkint(t, lo, hi)


# ------------------------------------------------------------------ scalars
class generic:
    __vp_scalar__ = True
    __slots__ = ("v",)
    dt = None
    dtype = None
    base = None
    shape = ()
    ndim = 0
    size = 1

    def __new__(cls, v=0):
        if cls in (generic, number, integer, signedinteger, unsignedinteger):
            raise TypeError("abstract")
        if isinstance(v, ndarray):
            return v.astype(cls.dt)
        if isinstance(v, (str, bytes, SymSeq)):
            v = int(v) if not isinstance(v, SymSeq) else int(v.conc())
        if isinstance(v, generic):
            v = v.v
        if isinstance(v, float):
            v = int(v)
        if cls.dt.kind == "b":
            return v if isinstance(v, (bool, SymBool)) else (v != 0)
        o = object.__new__(cls)
        o.v = wrap(v, cls.dt)
        return o

    def __reduce__(self):
        return (type(self), (self.v,))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def conc(self):
        return self.v.conc() if isinstance(self.v, SymInt) else self.v

    __index__ = conc
    __int__ = conc

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return bool(self.v != 0)

    def __repr__(self):
        return repr(self.v)

    def __str__(self):
        return str(self.v)

    def __format__(self, spec):
        return format(self.v, spec)

    def item(self):
        return self.v

    def tolist(self):
        return self.v

    def tobytes(self):
        a = zeros(1, self.dt)
        a[0] = self
        return a.tobytes()

    def astype(self, d):
        return mkscalar(self.v, _dt(d))

    def view(self, d):
        a = zeros(1, self.dt)
        a[0] = self
        return a.view(d)[0]

    def copy(self):
        return self

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.dt.itemsize

    def to_bytes(self, *a, **k):
        raise AttributeError("to_bytes")

    def bit_length(self):
        raise AttributeError("bit_length")

    def _op(self, o, f, cmp=False, refl=False):
        if isinstance(o, generic):
            res = _np.promote_types(self.dt, o.dt)
            ov = o.v
        elif isinstance(o, (bool, SymBool)):
            res = self.dt
            ov = o._int() if isinstance(o, SymBool) else int(o)
        elif isinstance(o, (int, SymInt)):
            lo, hi = rng(o)
            if lo < -(1 << 63) or hi >= 1 << 63:
                res = None
            else:
                res = _np.promote_types(self.dt, _np.dtype("int64"))
            ov = o
        elif isinstance(o, float):
            a, b = (o, float(self.conc())) if refl else (float(self.conc()), o)
            return f(a, b)
        elif isinstance(o, (list, tuple)) and not cmp:
            return _binop(self, array(o), f, cmp) if not refl else _binop(array(o), self, f, cmp)
        else:
            return NotImplemented
        if cmp:
            return f(self.v, ov)
        if res is not None and res.kind == "f":
            res = None
        a, b = (ov, self.v) if refl else (self.v, ov)
        if f in (operator.floordiv, operator.mod):
            if b == 0:
                return mkscalar(0, res) if res is not None else 0
        if f in (operator.lshift, operator.rshift):
            b = int(b) if not isinstance(b, SymInt) else b.conc()
            w = (res.itemsize * 8) if res is not None else 64
            if b < 0 or b >= w:
                return mkscalar(0 if f is operator.lshift or a >= 0 else -1, res)
        r = f(a, b)
        if isinstance(r, float):
            return r
        return mkscalar(r, res) if res is not None else r

    def __add__(self, o): return self._op(o, operator.add)
    def __radd__(self, o): return self._op(o, operator.add, refl=True)
    def __sub__(self, o): return self._op(o, operator.sub)
    def __rsub__(self, o): return self._op(o, operator.sub, refl=True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.conc()
        return self._op(o, operator.mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.conc()
        return self._op(o, operator.mul, refl=True)

    def __floordiv__(self, o): return self._op(o, operator.floordiv)
    def __rfloordiv__(self, o): return self._op(o, operator.floordiv, refl=True)
    def __mod__(self, o): return self._op(o, operator.mod)
    def __rmod__(self, o): return self._op(o, operator.mod, refl=True)
    def __truediv__(self, o): return self._op(o, operator.truediv)
    def __rtruediv__(self, o): return self._op(o, operator.truediv, refl=True)
    def __pow__(self, o): return self._op(o, operator.pow)
    def __rpow__(self, o): return self._op(o, operator.pow, refl=True)
    def __and__(self, o): return self._op(o, operator.and_)
    def __rand__(self, o): return self._op(o, operator.and_, refl=True)
    def __or__(self, o): return self._op(o, operator.or_)
    def __ror__(self, o): return self._op(o, operator.or_, refl=True)
    def __xor__(self, o): return self._op(o, operator.xor)
    def __rxor__(self, o): return self._op(o, operator.xor, refl=True)
    def __lshift__(self, o): return self._op(o, operator.lshift)
    def __rlshift__(self, o): return self._op(o, operator.lshift, refl=True)
    def __rshift__(self, o): return self._op(o, operator.rshift)
    def __rrshift__(self, o): return self._op(o, operator.rshift, refl=True)

    def __divmod__(self, o):
        q = self._op(o, operator.floordiv)
        if q is NotImplemented:
            return q
        return q, self._op(o, operator.mod)

    def __rdivmod__(self, o):
        return self._op(o, operator.floordiv, refl=True), self._op(o, operator.mod, refl=True)

    def __neg__(self): return mkscalar(-self.v, self.dt)
    def __pos__(self): return self
    def __abs__(self): return mkscalar(_b.abs(self.v), self.dt)
    def __invert__(self): return mkscalar(-1 - self.v, self.dt)

    def __eq__(self, o):
        r = self._op(o, operator.eq, cmp=True)
        return (NotImplemented if hasattr(o, "__vp_array__") else False) if r is NotImplemented else r

    def __ne__(self, o):
        r = self._op(o, operator.ne, cmp=True)
        return (NotImplemented if hasattr(o, "__vp_array__") else True) if r is NotImplemented else r

    def __lt__(self, o): return self._op(o, operator.lt, cmp=True)
    def __le__(self, o): return self._op(o, operator.le, cmp=True)
    def __gt__(self, o): return self._op(o, operator.gt, cmp=True)
    def __ge__(self, o): return self._op(o, operator.ge, cmp=True)


class number(generic):
    __slots__ = ()


class integer(number):
    __slots__ = ()


class signedinteger(integer):
    __slots__ = ()


class unsignedinteger(integer):
    __slots__ = ()


_scalar_cls = {}


def _mkcls(name, base):
    d = _np.dtype(name)
    cls = type(name, (base,), {"dt": d, "dtype": d, "__slots__": ()})
    _scalar_cls[d.newbyteorder("=") if d.byteorder not in "|=" else d] = cls
    return cls


uint8 = ubyte = _mkcls("uint8", unsignedinteger)
uint16 = ushort = _mkcls("uint16", unsignedinteger)
uint32 = uintc = _mkcls("uint32", unsignedinteger)
uint64 = uint = uintp = _mkcls("uint64", unsignedinteger)
int8 = byte = _mkcls("int8", signedinteger)
int16 = short = _mkcls("int16", signedinteger)
int32 = intc = _mkcls("int32", signedinteger)
int64 = int_ = intp = _mkcls("int64", signedinteger)


class bool_(generic):
    __slots__ = ()
    dt = _np.dtype("bool")
    dtype = dt


float64 = _np.float64
float32 = _np.float32
bytes_ = _np.bytes_
str_ = _np.str_


def mkscalar(v, dt):
    if dt.kind == "b":
        if isinstance(v, (bool, SymBool)):
            return v
        return v != 0
    if dt.kind in "iu":
        d = dt.newbyteorder("=") if dt.byteorder == ">" else dt
        cls = _scalar_cls[d]
        o = object.__new__(cls)
        o.v = wrap(v, dt)
        return o
    return v


# ------------------------------------------------------------------ indices
def _concidx(x):
    if isinstance(x, bool) or x is None or x is Ellipsis:
        return x
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (int, SymInt, generic)):
        return operator.index(x)
    if isinstance(x, slice):
        return slice(*[None if y is None else operator.index(y) for y in (x.start, x.stop, x.step)])
    if isinstance(x, ndarray):
        return x._conc_all()
    if isinstance(x, _LazyIdx):
        return x._mat()._conc_all()
    if isinstance(x, tuple):
        return tuple(_concidx(y) for y in x)
    if isinstance(x, (list, range)):
        l = [_concidx(y) for y in x]
        if not l:
            return _np.zeros(0, dtype=_np.intp)
        return _np.array(l)
    if isinstance(x, str):
        return x
    if hasattr(x, "__index__"):
        return operator.index(x)
    if isinstance(x, float):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    return x


def _clip(x, n):
    """Slice bounds beyond an array of n elements are all equivalent: one path
    for all of them instead of one path each."""
    if isinstance(x, tuple):
        return (_clip(x[0], n),) + x[1:] if x else x
    if not isinstance(x, slice):
        return x
    if x.step is not None and not (isinstance(x.step, int) and x.step > 0):
        return x
    out = []
    for y in (x.start, x.stop):
        if isinstance(y, generic):
            y = y.v
        if isinstance(y, SymInt) and y.known() is None:
            if y.hi > n and y >= n:
                y = n
            elif y.lo < -n and y <= -n:
                y = 0
        out.append(y)
    return slice(out[0], out[1], x.step)


def _noellipsis(ix, nd):
    if ix is Ellipsis:
        return (slice(None),) * nd
    if isinstance(ix, tuple) and _b.any(y is Ellipsis for y in ix):
        k = [i for i, y in enumerate(ix) if y is Ellipsis][0]
        used = _b.sum(1 for y in ix if y is not None and y is not Ellipsis)
        return ix[:k] + (slice(None),) * (nd - used) + ix[k + 1:]
    return ix


def _isbasic(ix):
    if isinstance(ix, tuple):
        return _b.all(_isbasic(y) for y in ix)
    return ix is None or isinstance(ix, (int, slice)) and not isinstance(ix, bool)


# ------------------------------------------------------------------ ndarray
GATHER = 0  # largest array read and written at symbolic positions without forking


class ndarray:
    __slots__ = ("c", "s", "_base")
    __vp_array__ = True
    __hash__ = None

    def __init__(self, shape_or_c, s=None, base=None, dtype=None, buffer=None):
        if isinstance(shape_or_c, _np.ndarray) and s is not None:
            self.c = shape_or_c
            self.s = s
            self._base = base
        else:
            c = _np.zeros(_shape(shape_or_c), dtype=_dt(dtype or float))
            self.c = c
            self.s = _np.zeros(c.shape + (c.dtype.itemsize,), dtype=_np.int32)
            self._base = None

    # -- basics
    @property
    def base(self):
        return self._base

    @property
    def dtype(self):
        return self.c.dtype

    @property
    def shape(self):
        return self.c.shape

    @shape.setter
    def shape(self, sh):
        r = self.reshape(sh)
        self.c, self.s = r.c, r.s

    @property
    def size(self):
        return self.c.size

    @property
    def ndim(self):
        return self.c.ndim

    @property
    def nbytes(self):
        return self.c.nbytes

    @property
    def itemsize(self):
        return self.c.itemsize

    @property
    def strides(self):
        return self.c.strides

    @property
    def flags(self):
        return self.c.flags

    @property
    def data(self):
        return _Marker()

    @property
    def T(self):
        return self.transpose()

    @property
    def ctypes(self):
        return self.c.ctypes

    @property
    def __array_interface__(self):
        return self.c.__array_interface__

    def setflags(self, **k):
        self.c.setflags(**k)

    def _owner(self):
        return self if self._base is None else self._base

    def _issym(self):
        return bool(self.s.any())

    def _conc_all(self):
        """Real numpy array with every symbolic byte concretised by forking."""
        if not self._issym():
            return self.c
        out = self.c.copy()
        fs = self.s.reshape(-1, self.c.dtype.itemsize)
        if self.c.dtype.kind in "iub":
            flat = out.reshape(-1)
            for i in _np.nonzero(fs.any(axis=1))[0]:
                v = _elem(self.c.reshape(-1)[i], fs[i], self.c.dtype)
                flat[i] = int(v)
            return flat.reshape(out.shape)
        b = out.reshape(-1).view(_np.uint8)
        f = fs.reshape(-1)
        for i in _np.nonzero(f)[0]:
            b[i] = E.ENG.concretize(SYM[int(f[i])])
        return out

    def __array__(self, dtype=None, copy=None):
        r = self._conc_all()
        return r if dtype is None else r.astype(dtype)

    def __len__(self):
        if self.c.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.c)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.c.size == 1:
            return bool(self.reshape((1,))[0] != 0)
        if self.c.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self.c.size == 1 and self.c.ndim == 0:
            return operator.index(self.item())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self.c.size == 1:
            return int(self.item())
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def vp_int(self):
        if self.c.size == 1:
            return self.item()
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self):
        return "<symarray %s %s>" % (self.c.dtype, self.c.shape)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise TypeError("cannot pickle a symbolic array")

    # -- element access
    def _gidx(self, ix):
        """Elements of a symbolic index (array or scalar) checked to be within
        this array; None if this index is to be handled by forking."""
        if not GATHER or self.c.ndim != 1 or self.c.dtype.kind not in "iub" or len(self.c) > GATHER:
            return None
        if isinstance(ix, generic):
            ix = ix.v
        if isinstance(ix, SymInt):
            if ix.known() is not None:
                return None
            l = [ix]
        elif isinstance(ix, ndarray) and ix.c.ndim == 1 and ix.c.dtype.kind in "iu" and ix._issym():
            l = ix._elems()
        else:
            return None
        n = len(self.c)
        out = []
        for v in l:
            if v < 0:
                v = v + n
                if v < 0:
                    raise IndexError("index is out of bounds for axis 0 with size %d" % n)
            if v >= n:
                raise IndexError("index is out of bounds for axis 0 with size %d" % n)
            out.append(v)
        return out

    def __getitem__(self, ix):
        g = self._gidx(ix) if GATHER else None
        if g is not None:
            es = self._elems()
            vals = []
            for v in g:
                if isinstance(v, int):
                    vals.append(es[v])
                    continue
                r = es[-1]
                for k in range(len(es) - 2, -1, -1):
                    r = ite(v == k, es[k], r)
                vals.append(r)
            if isinstance(ix, ndarray):
                return _fromlist(vals, self.c.dtype, ix.c.shape)
            return mkscalar(vals[0], self.c.dtype) if self.c.dtype.kind != "b" else vals[0] != 0
        if isinstance(ix, SymInt) and ix.known() is None and self.c.ndim == 1 and self.c.dtype.kind in "iu" \
                and ix.hi - ix.lo < SELECT_MAX:
            r = self._select(ix)
            if r is not None:
                return r
        elif isinstance(ix, generic) and isinstance(ix.v, SymInt):
            return self[ix.v]
        if isinstance(ix, (slice, tuple)) and self.c.ndim:
            ix = _clip(ix, self.c.shape[0])
        ix = _noellipsis(_concidx(ix), self.c.ndim)
        if isinstance(ix, str):
            return self._field(ix)
        if isinstance(ix, list) and ix and isinstance(ix[0], str):
            raise NotImplementedError
        r = self.c[ix]
        rs = self.s[ix]
        if isinstance(r, _np.ndarray):
            return ndarray(r, rs, self._owner() if _isbasic(ix) else None)
        if self.c.dtype.kind == "V":
            k = ix if isinstance(ix, int) else ix[0]
            n = len(self.c)
            k = k + n if k < 0 else k
            return _Void(self.c[k:k + 1], self.s[k:k + 1])
        return _scalar(r, rs, self.c.dtype)

    def _select(self, ix):
        """Read at a symbolic index: an if-then-else over the feasible range,
        valid when the index is provably within bounds on this path."""
        n = len(self.c)
        if ix.lo < 0 or ix.hi >= n:
            return None
        vals = [(k, _elem(self.c[k], self.s[k], self.c.dtype)) for k in range(ix.lo, ix.hi + 1)]
        first = vals[0][1]
        if _b.all(isinstance(v, int) and v == first for _, v in vals):
            return mkscalar(first, self.c.dtype)
        r = vals[-1][1]
        for k, v in reversed(vals[:-1]):
            r = ite(ix == k, v, r)
        return mkscalar(r, self.c.dtype)

    def _field(self, name):
        fd, off = self.c.dtype.fields[name][:2]
        return ndarray(self.c[name], self.s[..., off:off + fd.itemsize], self._owner())

    def __setitem__(self, ix, value):
        g = self._gidx(ix) if GATHER else None
        if g is not None:
            dt = self.c.dtype
            if isinstance(value, _LazyIdx):
                value = value._mat()
            if isinstance(value, (int, SymInt, SymBool, generic)):
                v = value.v if isinstance(value, generic) else value
                vals = [wrap(v, dt)] * len(g)
            else:
                if not isinstance(value, ndarray):
                    value = _tolist_array(value, dt)
                vals = value.astype(dt)._elems()
                if len(vals) == 1:
                    vals = vals * len(g)
                if len(vals) != len(g):
                    raise ValueError("shape mismatch: value array of shape (%d,) could not be broadcast to indexing result of shape (%d,)" % (len(vals), len(g)))
            es = self._elems()
            for v, x in zip(g, vals):
                for k in range(len(es)):
                    es[k] = ite(v == k, x, es[k]) if not isinstance(v, int) else x if v == k else es[k]
            new = _fromlist(es, dt, (len(es),))
            self.c[...] = new.c
            self.s[...] = new.s
            return
        if isinstance(ix, (slice, tuple)) and self.c.ndim:
            ix = _clip(ix, self.c.shape[0])
        ix = _noellipsis(_concidx(ix), self.c.ndim)
        if isinstance(ix, str):
            self._field(ix)[:] = value
            return
        dt = self.c.dtype
        if isinstance(value, _LazyIdx):
            value = value._mat()
        if dt.kind == "V" and not isinstance(value, ndarray):
            t = self.c[ix]
            if isinstance(t, _np.ndarray):
                for v in self[ix].reshape(-1)._voids():
                    v._assign(value)
            else:
                self[ix]._assign(value)
            return
        if isinstance(value, (int, SymInt, SymBool, generic, float)):
            v = value.v if isinstance(value, generic) else value
            if isinstance(v, float):
                v = int(v)
            v = wrap(v, dt) if dt.kind in "iub" else v
            if isinstance(v, int) or not isinstance(v, SymInt):
                self.c[ix] = v
                self.s[ix] = 0
            else:
                cv, ids = _split(v, dt)
                self.c[ix] = cv
                self.s[ix] = ids
            return
        if isinstance(value, (bytes, bytearray, str, SymSeq)):
            if dt.kind == "S":
                self._set_s(ix, value)
                return
            raise ValueError("invalid literal for int() with base 10")
        if not isinstance(value, ndarray):
            value = _tolist_array(value, dt)
        if value.c.dtype != dt:
            value = value.astype(dt)
        if _overlap(self, value):
            value = value.copy()
        tgt = self.c[ix]
        if not isinstance(tgt, _np.ndarray):
            if value.c.size != 1:
                raise ValueError("setting an array element with a sequence.")
            self.c[ix] = value.c.reshape(-1)[0]
            self.s[ix] = value.s.reshape(-1, dt.itemsize)[0]
            return
        self.c[ix] = value.c
        self.s[ix] = value.s

    def _set_s(self, ix, value):
        if isinstance(value, str):
            value = value.encode("ascii")
        if isinstance(value, SymStr):
            value = value.encode("ascii")
        n = self.c.dtype.itemsize
        cs = list(SymBytes.lift(value))[:n]
        cs += [0] * (n - len(cs))
        if _b.all(isinstance(x, int) for x in cs):
            self.c[ix] = bytes(cs)
            self.s[ix] = 0
        else:
            ids = [0] * n
            cb = [0] * n
            for i, x in enumerate(cs):
                cb[i], ids[i] = _bytepair(x)
            self.c[ix] = bytes(cb)
            self.s[ix] = ids

    def _voids(self):
        return [_Void(self.c[k:k + 1], self.s[k:k + 1]) for k in range(len(self.c))]

    def item(self, *a):
        if a:
            r = self.reshape(-1)[a[0]] if len(a) == 1 else self[tuple(a)]
        else:
            if self.c.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            r = self.reshape((1,))[0]
        return r.v if isinstance(r, generic) else r

    def itemset(self, *a):
        self.reshape(-1)[a[0] if len(a) > 1 else 0] = a[-1]

    def _elems(self):
        """Flat list of int|SymInt values."""
        c = self.c.reshape(-1)
        s = self.s.reshape(-1, self.c.dtype.itemsize)
        out = c.tolist()
        if self._issym():
            for i in _np.nonzero(s.any(axis=1))[0]:
                out[i] = _elem(c[i], s[i], self.c.dtype)
        return out

    def tolist(self):
        l = self._elems()
        if self.c.dtype.kind == "b":
            l = [x if isinstance(x, (bool, SymBool)) else (x != 0) for x in l]
        if self.c.ndim == 1:
            return l
        if self.c.ndim == 0:
            return l[0]
        return [self[i].tolist() for i in range(len(self))]

    # -- copies and views
    def copy(self, order="C"):
        return ndarray(self.c.copy(), self.s.copy(), None)

    def view(self, dtype=None, type=None):
        if dtype is None or dtype is ndarray:
            return ndarray(self.c.view(), self.s.view(), self._owner())
        d = _dt(dtype)
        if self.c.ndim and not self.c.flags.c_contiguous and d.itemsize != self.c.itemsize:
            raise ValueError("To change to a dtype of a different size, the array must be C-contiguous")
        c = self.c.view(d)
        if d.itemsize == self.c.itemsize:
            s = self.s.view()
        else:
            s = self.s.view()
            if not self.s.flags.c_contiguous:
                s = self.s.reshape(c.shape + (d.itemsize,))
                if s.size and not _np.shares_memory(s, self.s):
                    raise NotImplementedError("non-contiguous view")
            else:
                s = s.reshape(c.shape + (d.itemsize,))
        return ndarray(c, s, self._owner())

    def astype(self, dtype, copy=True, **k):
        d = _dt(dtype)
        if d == self.c.dtype:
            return self.copy() if copy else self
        if not self._issym():
            if d.kind == "b":
                c = self.c != 0
            else:
                with _np.errstate(all="ignore"):
                    c = self.c.astype(d)
            return _wrapc(c)
        if self.c.dtype.kind in "iu" and d.kind in "iu" and d.itemsize <= self.c.itemsize \
                and self.c.dtype.byteorder != ">" and d.byteorder != ">":
            c = self.c.astype(d)
            return ndarray(c, self.s[..., :d.itemsize].copy(), None)
        if self.c.dtype.kind in "ub" and d.kind in "iu":
            c = self.c.astype(d)
            s = _np.zeros(c.shape + (d.itemsize,), dtype=_np.int32)
            s[..., :self.c.itemsize] = self.s
            return ndarray(c, s, None)
        return _fromlist(self._elems(), d, self.c.shape)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1:
            shape = shape[0]
        c = self.c.reshape(_shape(shape))
        s = self.s.reshape(c.shape + (self.c.dtype.itemsize,))
        view = c.size == 0 or _np.shares_memory(c, self.c)
        return ndarray(c, s, self._owner() if view else None)

    def flatten(self, order="C"):
        return self.reshape(-1).copy()

    def ravel(self, order="C"):
        return self.reshape(-1)

    def squeeze(self, axis=None):
        return self.reshape([n for n in self.c.shape if n != 1])

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = axes or tuple(reversed(range(self.c.ndim)))
        return ndarray(self.c.transpose(axes), self.s.transpose(tuple(axes) + (self.c.ndim,)), self._owner())

    def swapaxes(self, a, b):
        ax = list(range(self.c.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def byteswap(self, inplace=False):
        c = self.c.byteswap()
        s = self.s[..., ::-1].copy()
        if inplace:
            self.c[...] = c
            self.s[...] = s
            return self
        return ndarray(c, s, None)

    def newbyteorder(self, o="S"):
        return self.view(self.c.dtype.newbyteorder(o))

    def tobytes(self, order="C"):
        if not self._issym():
            return self.c.tobytes()
        b = list(self.c.tobytes())
        f = self.s.reshape(-1)
        for i in _np.nonzero(f)[0]:
            b[i] = mkint(SYM[int(f[i])])
        return mkbytes(b)

    tostring = tobytes

    def tofile(self, fh, *a):
        d = self.tobytes()
        if hasattr(fh, "write"):
            fh.write(d)
        else:
            raise NotImplementedError("tofile(path)")

    def fill(self, v):
        self[...] = v

    def resize(self, *shape, refcheck=True):
        raise ValueError("cannot resize this array: it does not own its data")

    # -- reductions
    def _bools(self):
        out = []
        for v in self._elems():
            out.append(bterm(v != 0) if isinstance(v, (SymInt,)) else bterm(v) if isinstance(v, SymBool) else T.boolc(bool(v)))
        return out

    def any(self, axis=None, **k):
        if not self._issym() or axis is not None:
            return _wrapr(self._conc_all().any(axis=axis))
        if bool((self.c != 0)[~self.s.any(axis=-1)].any()):
            return True
        return mkbool(T.disj(self._bools()))

    def all(self, axis=None, **k):
        if not self._issym() or axis is not None:
            return _wrapr(self._conc_all().all(axis=axis))
        return mkbool(T.conj(self._bools()))

    def sum(self, axis=None, dtype=None, **k):
        if not self._issym() or axis is not None:
            return _wrapr(self._conc_all().sum(axis=axis, dtype=_dt(dtype) if dtype is not None else None))
        r = 0
        for v in self._elems():
            r = r + (v._int() if isinstance(v, SymBool) else v)
        kind = self.c.dtype.kind
        d = _dt(dtype) if dtype is not None else _np.dtype("uint64" if kind == "u" else "int64")
        return mkscalar(r, d)

    def _minmax(self, f):
        l = self._elems()
        if not l:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = l[0]
        for v in l[1:]:
            r = ite(f(v, r), v, r)
        return mkscalar(r, self.c.dtype)

    def max(self, axis=None, **k):
        if axis is not None or not self._issym():
            return _wrapr(self._conc_all().max(axis=axis))
        return self._minmax(operator.gt)

    def min(self, axis=None, **k):
        if axis is not None or not self._issym():
            return _wrapr(self._conc_all().min(axis=axis))
        return self._minmax(operator.lt)

    def argmax(self, axis=None, **k):
        if not self._issym():
            return _wrapr(self.c.argmax(axis=axis))
        l = self._elems()
        if self.c.dtype.kind == "b" or _b.all(rng(v if not isinstance(v, SymBool) else v._int())[1] <= 1 for v in l):
            for i, v in enumerate(l):
                if v != 0:
                    return mkscalar(i, _np.dtype("int64"))
            return mkscalar(0, _np.dtype("int64"))
        return _wrapr(self._conc_all().argmax(axis=axis))

    def argmin(self, axis=None, **k):
        return _wrapr(self._conc_all().argmin(axis=axis))

    def nonzero(self):
        return nonzero(self)

    def mean(self, *a, **k):
        return self._conc_all().mean(*a, **k)

    def cumsum(self, axis=None, dtype=None):
        if self.c.ndim != 1 or not self._issym():
            return _wrapc(self._conc_all().cumsum(axis=axis, dtype=dtype))
        out, r = [], 0
        for v in self._elems():
            r = r + v
            out.append(r)
        return _fromlist(out, _np.dtype("uint64" if self.c.dtype.kind == "u" else "int64"), (len(out),))

    def sort(self, *a, **k):
        r = self._conc_all().copy()
        r.sort(*a, **k)
        self.c[...] = r
        self.s[...] = 0

    def argsort(self, *a, **k):
        return _wrapc(self._conc_all().argsort(*a, **k))

    def searchsorted(self, v, *a, **k):
        return _wrapr(self._conc_all().searchsorted(_tor(v), *a, **k))

    def take(self, idx, axis=None, **k):
        return take(self, idx, axis)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)

    def put(self, idx, v):
        self.reshape(-1)[idx] = v

    # -- operators
    def __add__(self, o): return _binop(self, o, operator.add)
    def __radd__(self, o): return _binop(o, self, operator.add)
    def __sub__(self, o): return _binop(self, o, operator.sub)
    def __rsub__(self, o): return _binop(o, self, operator.sub)
    def __mul__(self, o): return _binop(self, o, operator.mul)
    def __rmul__(self, o): return _binop(o, self, operator.mul)
    def __floordiv__(self, o): return _binop(self, o, operator.floordiv)
    def __rfloordiv__(self, o): return _binop(o, self, operator.floordiv)
    def __mod__(self, o): return _binop(self, o, operator.mod)
    def __rmod__(self, o): return _binop(o, self, operator.mod)
    def __and__(self, o): return _binop(self, o, operator.and_)
    def __rand__(self, o): return _binop(o, self, operator.and_)
    def __or__(self, o): return _binop(self, o, operator.or_)
    def __ror__(self, o): return _binop(o, self, operator.or_)
    def __xor__(self, o): return _binop(self, o, operator.xor)
    def __rxor__(self, o): return _binop(o, self, operator.xor)
    def __lshift__(self, o): return _binop(self, o, operator.lshift)
    def __rlshift__(self, o): return _binop(o, self, operator.lshift)
    def __rshift__(self, o): return _binop(self, o, operator.rshift)
    def __rrshift__(self, o): return _binop(o, self, operator.rshift)
    def __truediv__(self, o): return _wrapc(self._conc_all() / _tor(o))
    def __rtruediv__(self, o): return _wrapc(_tor(o) / self._conc_all())
    def __pow__(self, o): return _wrapc(self._conc_all() ** _tor(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __eq__(self, o): return _binop(self, o, operator.eq, True)
    def __ne__(self, o): return _binop(self, o, operator.ne, True)
    def __lt__(self, o): return _binop(self, o, operator.lt, True)
    def __le__(self, o): return _binop(self, o, operator.le, True)
    def __gt__(self, o): return _binop(self, o, operator.gt, True)
    def __ge__(self, o): return _binop(self, o, operator.ge, True)

    def _iop(self, o, f):
        r = _binop(self, o, f)
        if not _np.can_cast(r.c.dtype, self.c.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (r.c.dtype, self.c.dtype))
        self[...] = r
        return self

    def __iadd__(self, o): return self._iop(o, operator.add)
    def __isub__(self, o): return self._iop(o, operator.sub)
    def __imul__(self, o): return self._iop(o, operator.mul)
    def __ifloordiv__(self, o): return self._iop(o, operator.floordiv)
    def __imod__(self, o): return self._iop(o, operator.mod)
    def __iand__(self, o): return self._iop(o, operator.and_)
    def __ior__(self, o): return self._iop(o, operator.or_)
    def __ixor__(self, o): return self._iop(o, operator.xor)
    def __ilshift__(self, o): return self._iop(o, operator.lshift)
    def __irshift__(self, o): return self._iop(o, operator.rshift)

    def __invert__(self):
        if self.c.dtype.kind == "b":
            return _binop(self, True, operator.xor)
        if not self._issym():
            return _wrapc(~self.c)
        return _fromlist([-1 - v for v in self._elems()], self.c.dtype, self.c.shape)

    def __neg__(self):
        if not self._issym():
            return _wrapc(-self.c)
        return _fromlist([-v for v in self._elems()], self.c.dtype, self.c.shape)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return _wrapc(_b.abs(self._conc_all()))


SELECT_MAX = 4096


class _Void:
    """Live view of one structured element."""
    __slots__ = ("c", "s")

    def __init__(self, c, s):
        self.c = c
        self.s = s

    @property
    def dtype(self):
        return self.c.dtype

    def _name(self, k):
        if isinstance(k, str):
            return k
        return self.c.dtype.names[operator.index(k)]

    def _f(self, k):
        n = self._name(k)
        fd, off = self.c.dtype.fields[n][:2]
        return ndarray(self.c[n], self.s[:, off:off + fd.itemsize], None)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return tuple(self[i] for i in range(len(self))[k])
        return self._f(k)[0]

    def __setitem__(self, k, v):
        self._f(k)[0] = v

    def _assign(self, value):
        if isinstance(value, _Void):
            self.c[...] = value.c
            self.s[...] = value.s
            return
        if len(value) != len(self):
            raise ValueError("could not assign tuple of length %d to structure with %d fields." % (len(value), len(self)))
        for i, v in enumerate(value):
            self[i] = v

    def __len__(self):
        return len(self.c.dtype.names)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def tolist(self):
        return tuple(x.v if isinstance(x, generic) else x for x in self)

    item = tolist

    def tobytes(self):
        return ndarray(self.c, self.s, None).tobytes()

    def copy(self):
        return _Void(self.c.copy(), self.s.copy())


def _bytepair(x):
    """(concrete byte, symbol id) for int|SymInt byte."""
    if isinstance(x, int):
        return x & 255, 0
    t = ext(x, 8)
    if T.isc(t):
        return T.cval(t), 0
    SYM[t.id] = t
    return 0, t.id


def _split(v, dt):
    """Concrete part and symbol ids of a symbolic value stored as dt."""
    n = dt.itemsize
    t = ext(v, 8 * n)
    ids = [0] * n
    cv = 0
    for k in range(n):
        b = T.extract(8 * k + 7, 8 * k, t)
        if T.isc(b):
            cv |= T.cval(b) << (8 * k)
        else:
            SYM[b.id] = b
            ids[k] = b.id
    if dt.byteorder == ">":
        ids.reverse()
    if dt.kind == "i" and cv >> (8 * n - 1):
        cv -= 1 << (8 * n)
    if dt.kind == "b":
        cv = bool(cv)
    return cv, ids


def _elem(cv, sid, dt):
    """int|SymInt for an element (bools come back as 0/1 ints)."""
    n = dt.itemsize
    ids = sid.tolist() if hasattr(sid, "tolist") else list(sid)
    if not _b.any(ids):
        return int(cv)
    if n == 1:
        t = SYM[ids[0]]
        if dt.kind == "i":
            return mkint(t, -128, 127)
        return mkint(t)
    if dt.byteorder == ">":
        ids = ids[::-1]
    c = int(cv)
    t = None
    for k in range(n):
        b = SYM[ids[k]] if ids[k] else T.const(c >> (8 * k), 8)
        t = b if t is None else T.concat(b, t)
    if dt.kind == "i":
        if t.hi < 1 << (8 * n - 1):
            return V.norm(t, t.lo, t.hi)
        return mkint(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return V.norm(t, t.lo, t.hi)


def _scalar(r, sid, dt):
    if not sid.any():
        if dt.kind in "iu":
            o = object.__new__(_scalar_cls[dt.newbyteorder("=") if dt.byteorder == ">" else dt])
            o.v = int(r)
            return o
        if dt.kind == "b":
            return bool(r)
        if dt.kind == "S":
            return bytes(r)
        return r
    if dt.kind == "S":
        raw = bytes(r)
        raw = raw + b"\0" * (dt.itemsize - len(raw))
        cs = [mkint(SYM[int(i)]) if i else raw[k] for k, i in enumerate(sid)]
        n = len(cs)
        while n and cs[n - 1] == 0:
            n -= 1
        return mkbytes(cs[:n])
    v = _elem(r, sid, dt)
    if dt.kind == "b":
        return v != 0
    return mkscalar(v, dt)


def _overlap(a, b):
    return a.c.size and b.c.size and _np.may_share_memory(a.c, b.c)


def _shape(sh):
    if isinstance(sh, (tuple, list)):
        return tuple(operator.index(x) for x in sh)
    return (operator.index(sh),)


def _wrapc(c):
    if not isinstance(c, _np.ndarray):
        c = _np.asarray(c)
    return ndarray(c, _np.zeros(c.shape + (c.dtype.itemsize,), dtype=_np.int32), None)


def _wrapr(r):
    """Wrap a real numpy result (array, scalar, tuple, list)."""
    if isinstance(r, _np.ndarray):
        return _wrapc(r)
    if isinstance(r, _np.bool_):
        return bool(r)
    if isinstance(r, _np.integer):
        return mkscalar(int(r), r.dtype)
    if isinstance(r, _np.floating):
        return float(r)
    if isinstance(r, tuple):
        return tuple(_wrapr(x) for x in r)
    if isinstance(r, list):
        return [_wrapr(x) for x in r]
    return r


def _tor(x):
    """Real numpy/python value of any shim value (concretising)."""
    if isinstance(x, ndarray):
        return x._conc_all()
    if isinstance(x, _LazyIdx):
        return x._mat()._conc_all()
    if isinstance(x, generic):
        return x.dt.type(x.conc())
    if isinstance(x, (SymInt, SymSeq)):
        return x.conc()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, list):
        return [_tor(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_tor(y) for y in x)
    if isinstance(x, dict):
        return {k: _tor(v) for k, v in x.items()}
    if isinstance(x, type) and issubclass(x, generic):
        return x.dt
    return x


def _fromlist(vals, dt, shape):
    """Array of dtype dt from flat list of int|SymInt|SymBool."""
    n = len(vals)
    conc = []
    syms = []
    for i, v in enumerate(vals):
        if isinstance(v, generic):
            v = v.v
        if isinstance(v, (SymInt, SymBool)):
            v = wrap(v, dt)
        if isinstance(v, SymInt):
            cv, ids = _split(v, dt)
            conc.append(cv)
            syms.append((i, ids))
        else:
            conc.append(v)
    c = _np.zeros(n, dtype=dt)
    if n:
        if dt.kind in "iu":
            big = _np.array(conc, dtype=object)
            try:
                with _np.errstate(all="ignore"):
                    c[:] = _np.array([int(x) for x in conc], dtype=_np.int64).astype(dt)
            except OverflowError:
                c[:] = _np.array([wrap(int(x), dt) for x in conc], dtype=dt)
        else:
            c[:] = conc
    s = _np.zeros((n, dt.itemsize), dtype=_np.int32)
    for i, ids in syms:
        s[i] = ids
    return ndarray(c.reshape(shape), s.reshape(tuple(shape) + (dt.itemsize,)), None)


def _infer(vals):
    d = None
    for v in vals:
        if isinstance(v, generic):
            x = v.dt
        elif isinstance(v, (bool, SymBool)):
            x = _np.dtype("bool")
        elif isinstance(v, (int, SymInt)):
            x = _np.dtype("int64")
            if isinstance(v, int) and v >= 1 << 63:
                x = _np.dtype("uint64")
        elif isinstance(v, float):
            x = _np.dtype("float64")
        else:
            return None
        d = x if d is None else _np.promote_types(d, x)
    return d


def _flat(value, depth=0):
    """(shape, flat list) of a nested sequence."""
    if isinstance(value, ndarray):
        l = value._elems()
        if value.c.dtype.kind == "b":
            l = [x != 0 for x in l]
        else:
            l = [mkscalar(x, value.c.dtype) for x in l] if value.c.dtype.kind in "iu" else l
        return value.c.shape, l
    if isinstance(value, (list, tuple, range)) or isinstance(value, (SymBytes,)) and depth:
        shapes, out = None, []
        n = 0
        for x in value:
            sh, l = _flat(x, depth + 1)
            if shapes is None:
                shapes = sh
            elif shapes != sh:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            out.extend(l)
            n += 1
        return (n,) + (shapes or ()), out
    return (), [value]


def _tolist_array(value, dt=None):
    if isinstance(value, _LazyIdx):
        return value._mat()
    if isinstance(value, _np.ndarray):
        return _wrapc(value.copy())
    if (hasattr(value, "__iter__") or (hasattr(value, "__getitem__") and hasattr(value, "__len__"))) and not isinstance(value, (list, tuple, range, str, bytes, SymSeq, ndarray, generic)):
        if isinstance(value, (dict, set)) or not hasattr(value, "__len__"):
            raise TypeError("int() argument must be a string, a bytes-like object or a number, not '%s'" % type(value).__name__)
        value = [value[i] for i in range(len(value))]
    if isinstance(value, (str, bytes, SymSeq)):
        v = value.conc() if isinstance(value, SymSeq) else value
        return _wrapc(_np.array(v, dtype=dt))
    if value is None:
        if dt is not None and dt.kind in "iu":
            raise TypeError("int() argument must be a string, a bytes-like object or a number, not 'NoneType'")
        return _wrapc(_np.array(None))
    shape, flat = _flat(value)
    if dt is not None and dt.names:
        return _wrapc(_np.array(_tor(value), dtype=dt))
    d = _infer(flat)
    if d is None and flat:
        if dt is not None and dt.kind in "iub":
            for x in flat:
                if x is None or isinstance(x, (dict, list)):
                    raise TypeError("int() argument must be a string, a bytes-like object or a number, not '%s'" % type(x).__name__)
        return _wrapc(_np.array(_tor(value), dtype=dt))
    if d is None:
        d = _np.dtype("float64")
    tgt = dt if dt is not None else d
    if d.kind == "f" or tgt.kind not in "iub":
        return _wrapc(_np.array(_tor(value)).astype(tgt))
    return _fromlist(flat, tgt, shape)


def _common(dt, v):
    """numpy-1.22 value-based promotion of an array dtype with a scalar."""
    if isinstance(v, (bool, SymBool)):
        return dt
    if isinstance(v, generic):
        if dt.kind == "b":
            return v.dt
        x = v.v
    elif isinstance(v, float):
        return _np.promote_types(dt, _np.dtype("float64")) if dt.kind != "f" else dt
    else:
        x = v
        if dt.kind == "b":
            return _np.dtype("int64")
    if dt.kind == "f":
        return dt
    lo, hi = rng(x)

    def one(k):
        if k >= 0:
            a, b = _range(dt)
            if k <= b:
                return dt
            m = _np.min_scalar_type(k)
            return _np.promote_types(dt, m)
        m = _np.min_scalar_type(k)
        return _np.promote_types(dt, m)

    a, b = one(lo), one(hi)
    if a == b and not (lo < 0 <= hi):
        return a
    if isinstance(x, SymInt):
        if lo < 0 <= hi:
            if x < 0:
                a, b = one(lo), one(-1)
            else:
                a, b = one(0), one(hi)
            if a == b:
                return a
        return one(x.conc())
    return a


_CMP = (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge)


def _binop(a, b, f, cmp=False):
    if isinstance(a, _LazyIdx):
        a = a._mat()
    if isinstance(b, _LazyIdx):
        b = b._mat()
    for x in (a, b):
        if x is None or isinstance(x, (str, bytes, SymSeq, dict)):
            if cmp:
                return f is operator.ne if f in (operator.eq, operator.ne) else NotImplemented
            raise TypeError("unsupported operand type(s)")
    if not isinstance(a, (ndarray, generic, int, SymInt, SymBool, float)):
        if not hasattr(a, "__len__"):
            return NotImplemented
        a = _tolist_array(a)
    if not isinstance(b, (ndarray, generic, int, SymInt, SymBool, float)):
        if not hasattr(b, "__len__"):
            return NotImplemented
        b = _tolist_array(b)
    aa, ba = isinstance(a, ndarray) and a.c.ndim > 0, isinstance(b, ndarray) and b.c.ndim > 0
    if isinstance(a, ndarray) and not aa:
        a = a.reshape((1,))[0]
    if isinstance(b, ndarray) and not ba:
        b = b.reshape((1,))[0]
    if not aa and not ba:
        return f(a, b)
    if aa and ba:
        res = _np.promote_types(a.c.dtype, b.c.dtype)
    elif aa:
        res = _common(a.c.dtype, b)
    else:
        res = _common(b.c.dtype, a)
    if aa and ba:
        try:
            shape = _np.broadcast_shapes(a.c.shape, b.c.shape)
        except ValueError:
            if cmp and f in (operator.eq, operator.ne):
                return f is operator.ne
            raise ValueError("operands could not be broadcast together with shapes %s %s" % (a.c.shape, b.c.shape))
    else:
        shape = a.c.shape if aa else b.c.shape
    symA = a._issym() if aa else isinstance(a.v if isinstance(a, generic) else a, (SymInt, SymBool))
    symB = b._issym() if ba else isinstance(b.v if isinstance(b, generic) else b, (SymInt, SymBool))
    if res.kind not in "iub":
        return _wrapc(f(_tor(a), _tor(b)))
    cres = _np.dtype("int64") if cmp else res
    odt = _np.dtype("bool") if cmp else res
    if res.kind == "b" and not cmp and f in (operator.sub,):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")

    def cpart(x, isarr):
        if isarr:
            with _np.errstate(all="ignore"):
                return x.c.astype(cres)
        v = x.v if isinstance(x, generic) else x
        if isinstance(v, (SymInt, SymBool)):
            v = 0
        return _np.array(wrap(int(v), cres)).astype(cres)

    with _np.errstate(all="ignore"):
        ca, cb = cpart(a, aa), cpart(b, ba)
        if res.kind == "b" and f is operator.mul:
            cf = operator.and_
        elif res.kind == "b" and f is operator.add:
            cf = operator.or_
        else:
            cf = f
        if cf in (operator.floordiv, operator.mod) and (symB or symA):
            cb2 = _np.where(cb == 0, 1, cb).astype(cres)
            c = cf(ca, cb2)
        else:
            c = cf(ca, cb)
    c = _np.asarray(c, dtype=odt)
    if c.shape != shape:
        c = _np.broadcast_to(c, shape).copy()
    out = _wrapc(c)
    if not symA and not symB:
        return out
    # symbolic elements
    def sview(x, isarr):
        if not isarr:
            return None, None
        k = x.c.dtype.itemsize
        return (_np.broadcast_to(x.c, shape).reshape(-1), _np.broadcast_to(x.s, shape + (k,)).reshape(-1, k))

    xa, sa = sview(a, aa)
    xb, sb = sview(b, ba)
    mask = _np.zeros(int(_np.prod(shape)) if shape else 1, dtype=bool)
    if aa:
        mask |= sa.any(axis=1)
    elif symA:
        mask[:] = True
    if ba:
        mask |= sb.any(axis=1)
    elif symB:
        mask[:] = True
    va = None if aa else (a.v if isinstance(a, generic) else a)
    vb = None if ba else (b.v if isinstance(b, generic) else b)
    if isinstance(va, SymBool):
        va = va._int()
    if isinstance(vb, SymBool):
        vb = vb._int()
    oc = out.c.reshape(-1)
    os_ = out.s.reshape(-1, odt.itemsize)
    for i in _np.nonzero(mask)[0]:
        p = _elem(xa[i], sa[i], a.c.dtype) if aa else va
        q = _elem(xb[i], sb[i], b.c.dtype) if ba else vb
        if not cmp:
            p, q = wrap(p, res), wrap(q, res)
        if f in (operator.floordiv, operator.mod) and not isinstance(q, SymInt) and q == 0:
            r = 0
        elif f in (operator.lshift, operator.rshift) and not isinstance(q, SymInt) and q >= res.itemsize * 8:
            r = 0
        else:
            r = f(p, q)
        if isinstance(r, (bool, SymBool)):
            r = r._int() if isinstance(r, SymBool) else int(r)
        r = wrap(r, odt)
        if isinstance(r, SymInt):
            cv, ids = _split(r, odt)
            oc[i] = cv
            os_[i] = ids
        else:
            oc[i] = r
            os_[i] = 0
    return out


# ------------------------------------------------------------------ lazy nonzero
class SymCount(SymInt):
    """Number of true conditions; comparisons with 0/1 avoid the adder."""
    __slots__ = ("conds",)

    def __init__(self, conds):
        self.conds = [c for c in conds if c is not T.TRUE and c is not T.FALSE]
        # added up in order, which gives the term sum() of the bits would give
        r = 0
        for c in conds:
            r = r + mkbool(c)._int() if c is not T.TRUE and c is not T.FALSE else r + (c is T.TRUE)
        SymInt.__init__(self, r.t, r.lo, r.hi)

    def _any(self):
        if self.lo > 0:
            return True
        return mkbool(T.disj(self.conds))

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return self._any()
        return SymInt.__gt__(self, o)

    def __ge__(self, o):
        if isinstance(o, int) and o == 1:
            return self._any()
        return SymInt.__ge__(self, o)

    def __lt__(self, o):
        if isinstance(o, int) and o == 1:
            return not_(self._any())
        return SymInt.__lt__(self, o)

    def __le__(self, o):
        if isinstance(o, int) and o == 0:
            return not_(self._any())
        return SymInt.__le__(self, o)

    def __eq__(self, o):
        if isinstance(o, int) and o == 0:
            return not_(self._any())
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, int) and o == 0:
            return self._any()
        return SymInt.__ne__(self, o)

    def __bool__(self):
        return bool(self._any())

    __hash__ = SymInt.__hash__


class _LazyIdx:
    """Result of nonzero() on a partly symbolic 1-D array: positions whose
    membership is decided only when the program looks at them."""
    __vp_array__ = True
    __hash__ = None

    def __init__(self, conds):
        self._c = conds      # list of Terms (maybe TRUE/FALSE), one per index
        self._m = None

    def _mat(self):
        if self._m is None:
            idx = [i for i, t in enumerate(self._c) if t is not T.FALSE and E.ENG.fork(t)]
            self._m = _wrapc(_np.array(idx, dtype=_np.int64))
        return self._m

    def vp_len(self):
        if self._m is not None:
            return len(self._m)
        if _b.all(t is T.TRUE or t is T.FALSE for t in self._c):
            return _b.sum(1 for t in self._c if t is T.TRUE)
        return SymCount(self._c)

    def __len__(self):
        return len(self._mat())

    @property
    def size(self):
        return self.vp_len()

    @property
    def shape(self):
        return (self.vp_len(),)

    def __iter__(self):
        if self._m is not None:
            yield from self._m
            return
        for i, t in enumerate(self._c):
            if t is not T.FALSE and E.ENG.fork(t):
                yield mkscalar(i, _np.dtype("int64"))

    def __getitem__(self, ix):
        if self._m is None and isinstance(ix, (int, SymInt, generic)):
            k = operator.index(ix)
            if k >= 0:
                for i, t in enumerate(self._c):
                    if t is not T.FALSE and E.ENG.fork(t):
                        if k == 0:
                            return mkscalar(i, _np.dtype("int64"))
                        k -= 1
                raise IndexError("index %d is out of bounds for axis 0" % operator.index(ix))
            if k == -1:
                for i in range(len(self._c) - 1, -1, -1):
                    t = self._c[i]
                    if t is not T.FALSE and E.ENG.fork(t):
                        return mkscalar(i, _np.dtype("int64"))
                raise IndexError("index -1 is out of bounds for axis 0 with size 0")
        if self._m is None and isinstance(ix, slice) and ix.start in (None, 0) and ix.step in (None, 1) \
                and ix.stop is not None and operator.index(ix.stop) >= 0:
            n = operator.index(ix.stop)
            out = []
            for i, t in enumerate(self._c):
                if len(out) >= n:
                    break
                if t is not T.FALSE and E.ENG.fork(t):
                    out.append(i)
            return _wrapc(_np.array(out, dtype=_np.int64))
        return self._mat()[ix]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._mat(), n)

    def __bool__(self):
        return bool(self._mat())


for _n in ("add radd sub rsub mul rmul floordiv mod and rand or ror xor rxor lshift rshift eq ne lt le gt ge "
           "iadd isub invert neg contains setitem").split():
    def _mk(n):
        def f(self, *a):
            return getattr(self._mat(), "__%s__" % n)(*a)
        return f
    setattr(_LazyIdx, "__%s__" % _n, _mk(_n))


# ------------------------------------------------------------------ creation
def zeros(shape, dtype=float, order="C", **k):
    c = _np.zeros(_shape(shape), dtype=_dt(dtype))
    return _wrapc(c)


def ones(shape, dtype=float, order="C", **k):
    return _wrapc(_np.ones(_shape(shape), dtype=_dt(dtype)))


UNINIT = 0xA5


def empty(shape, dtype=float, order="C", **k):
    d = _dt(dtype)
    sh = _shape(shape)
    n = int(_np.prod(sh)) * d.itemsize
    c = _np.full(n, UNINIT, dtype=_np.uint8).view(d).reshape(sh) if n else _np.zeros(sh, dtype=d)
    return _wrapc(c.copy())


def full(shape, v, dtype=None, **k):
    if dtype is None:
        d = v.dt if isinstance(v, generic) else _np.dtype("bool") if isinstance(v, (bool, SymBool)) else _np.dtype("int64")
    else:
        d = _dt(dtype)
    a = zeros(shape, d)
    a[...] = v
    return a


def zeros_like(a, dtype=None, **k):
    a = asarray(a)
    return zeros(a.c.shape, dtype or a.c.dtype)


def ones_like(a, dtype=None, **k):
    a = asarray(a)
    return ones(a.c.shape, dtype or a.c.dtype)


def empty_like(a, dtype=None, **k):
    a = asarray(a)
    return empty(a.c.shape, dtype or a.c.dtype)


def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return full(a.c.shape, v, dtype or a.c.dtype)


def arange(*a, dtype=None, **k):
    a = [operator.index(x) if not isinstance(x, float) else x for x in a]
    d = _dt(dtype) if dtype is not None else _np.dtype("int64")
    if d.kind in "iu":
        return _wrapc(_np.arange(*a, dtype=_np.int64).astype(d))
    return _wrapc(_np.arange(*a, dtype=d))


def asarray(x, dtype=None, order=None, **k):
    d = _dt(dtype) if dtype is not None else None
    if isinstance(x, _LazyIdx):
        x = x._mat()
    if isinstance(x, ndarray):
        if d is None or d == x.c.dtype:
            return x
        return x.astype(d)
    if isinstance(x, (int, SymInt, SymBool, generic)):
        dd = d or _infer([x])
        return _fromlist([x], dd, ())
    return _tolist_array(x, d)


asanyarray = asarray


def ascontiguousarray(x, dtype=None):
    a = asarray(x, dtype)
    return a if a.c.flags.c_contiguous else a.copy()


def array(x, dtype=None, copy=True, **k):
    a = asarray(x, dtype)
    if a is x and copy:
        return a.copy()
    return a


def copy(a, **k):
    return asarray(a).copy()


def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    d = _dt(dtype)
    count = operator.index(count)
    offset = operator.index(offset)
    if isinstance(buf, ndarray):
        flat = buf.view("u1").reshape(-1) if buf.c.dtype != _np.uint8 else buf.reshape(-1)
        sub = flat[offset:] if count < 0 else flat[offset:offset + count * d.itemsize]
        r = sub.view(d)
        r._base = r._base or _Marker()
        return r
    if isinstance(buf, SymBytes):
        n = len(buf) - offset
        if count < 0 and n % d.itemsize:
            raise ValueError("buffer size must be a multiple of element size")
        cs = buf.cs[offset:] if count < 0 else buf.cs[offset:offset + count * d.itemsize]
        if count >= 0 and len(cs) < count * d.itemsize:
            raise ValueError("buffer is smaller than requested size")
        a = _fromlist(cs, _np.dtype("u1"), (len(cs),))
        a = a.view(d)
        a.c.setflags(write=False)
        a._base = _Marker()
        return a
    if hasattr(buf, "vp_getvalue"):
        return frombuffer(buf.vp_getvalue(), dtype, count, offset)
    c = _np.frombuffer(buf, dtype=d, count=count, offset=offset)
    a = _wrapc(c)
    a._base = _Marker()
    return a


def fromstring(s, dtype=float, **k):
    return frombuffer(s, dtype, **k).copy()


def fromiter(it, dtype, count=-1):
    return _fromlist(list(it), _dt(dtype), (len(list(it)),)) if False else (lambda l: _fromlist(l, _dt(dtype), (len(l),)))(list(it))


def fromfile(f, dtype=float, count=-1, **k):
    data = f.read()
    return frombuffer(data, dtype, count).copy()


# ------------------------------------------------------------------ rearranging
def _gather(a, idx):
    """New array whose flat positions come from flat index array idx."""
    a = asarray(a)
    k = a.c.dtype.itemsize
    return ndarray(a.c.reshape(-1)[idx], a.s.reshape(-1, k)[idx], None)


def _rearr(f, a, *args, **kw):
    a = asarray(a)
    idx = f(_np.arange(a.c.size).reshape(a.c.shape), *[_tor(x) for x in args], **{k: _tor(v) for k, v in kw.items()})
    return _gather(a, idx)


def tile(a, reps):
    return _rearr(_np.tile, a, reps)


def repeat(a, n, axis=None):
    return _rearr(_np.repeat, a, n, axis=axis)


def roll(a, n, axis=None):
    return _rearr(_np.roll, a, n, axis=axis)


def _viewix(a, ix):
    return asarray(a)[ix]


def flip(a, axis=None):
    a = asarray(a)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in a.c.shape)]
    return a[(slice(None),) * axis + (slice(None, None, -1),)]


def flipud(a):
    return asarray(a)[::-1]


def fliplr(a):
    return asarray(a)[:, ::-1]


def transpose(a, axes=None):
    return asarray(a).transpose(*([axes] if axes else []))


def swapaxes(a, x, y):
    return asarray(a).swapaxes(x, y)


def reshape(a, shape, order="C"):
    return asarray(a).reshape(shape)


def ravel(a, order="C"):
    return asarray(a).reshape(-1)


def squeeze(a):
    return asarray(a).squeeze()


def take(a, idx, axis=None, **k):
    a = asarray(a)
    i = _concidx(idx)
    if axis is None or a.c.ndim == 1:
        return a.reshape(-1)[i]
    return a[(slice(None),) * axis + (i,)]


def delete(a, obj, axis=None):
    return _rearr(_np.delete, a, obj, axis=axis)


def insert(a, obj, vals, axis=None):
    a = asarray(a).reshape(-1)
    v = asarray(vals).reshape(-1).astype(a.c.dtype)
    o = _tor(obj)
    both = concatenate([a, v])
    idx = _np.insert(_np.arange(len(a)), o, _np.arange(len(a), len(a) + len(v)))
    return _gather(both, idx)


def resize(a, new_shape):
    a = asarray(a)
    sh = _shape(new_shape)
    n = int(_np.prod(sh))
    if n < 0 or _b.any(x < 0 for x in sh):
        raise ValueError("all elements of `new_shape` must be non-negative")
    if a.c.size == 0:
        return zeros(sh, a.c.dtype)
    flat = a.reshape(-1)
    reps = -(-n // a.c.size)
    r = concatenate((flat,) * reps) if reps else zeros(0, a.c.dtype)
    return r[:n].reshape(sh)


def concatenate(arrs, axis=0, **k):
    arrs = [asarray(x) for x in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if _b.any(x.c.ndim == 0 for x in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    d = arrs[0].c.dtype
    for x in arrs[1:]:
        d = _np.promote_types(d, x.c.dtype)
    arrs = [x.astype(d, copy=False) for x in arrs]
    if axis is None:
        arrs = [x.reshape(-1) for x in arrs]
        axis = 0
    return ndarray(_np.concatenate([x.c for x in arrs], axis), _np.concatenate([x.s for x in arrs], axis), None)


def hstack(arrs):
    arrs = [asarray(x) for x in arrs]
    arrs = [x.reshape((1,)) if x.c.ndim == 0 else x for x in arrs]
    return concatenate(arrs, 0 if arrs[0].c.ndim == 1 else 1)


def vstack(arrs):
    arrs = [asarray(x) for x in arrs]
    arrs = [x.reshape((1, -1)) if x.c.ndim < 2 else x for x in arrs]
    return concatenate(arrs, 0)


def stack(arrs, axis=0):
    arrs = [asarray(x) for x in arrs]
    n = len(arrs)
    r = concatenate([x.reshape((1,) + x.c.shape) for x in arrs], 0)
    if axis in (0,):
        return r
    ax = list(range(1, r.c.ndim))
    ax.insert(axis if axis >= 0 else r.c.ndim + axis, 0)
    return r.transpose(ax).copy()


column_stack = lambda arrs: stack(arrs, 1)
dstack = None


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        a = a.reshape(-1)
        v = v.reshape(-1)
        axis = 0
    return concatenate([a, v], axis)


def split(a, idx, axis=0):
    a = asarray(a)
    if isinstance(idx, (int, SymInt, generic)):
        n = operator.index(idx)
        if len(a) % n:
            raise ValueError("array split does not result in an equal division")
        step = len(a) // n
        cuts = [step * i for i in range(1, n)]
    else:
        cuts = [int(x) for x in _tor(idx)]
    out, prev = [], 0
    for c in cuts:
        out.append(a[prev:c])
        prev = c
    out.append(a[prev:])
    return out


def array_split(a, n):
    return [_wrapc(x) for x in _np.array_split(_tor(a), _tor(n))] if not isinstance(n, int) else \
        [a[int(i[0]):int(i[-1]) + 1] if len(i) else a[0:0] for i in _np.array_split(_np.arange(len(a)), n)]


# ------------------------------------------------------------------ bits
def unpackbits(a, axis=None, count=None, bitorder="big"):
    a = asarray(a)
    if a.c.dtype != _np.uint8:
        raise TypeError("Expected an input array of unsigned byte data type")
    if not a._issym() or (axis is not None and a.c.ndim > 1):
        return _wrapc(_np.unpackbits(a._conc_all(), axis=axis, count=count, bitorder=bitorder))
    flat = a.reshape(-1)
    c = _np.unpackbits(flat.c, bitorder=bitorder)
    out = _wrapc(c)
    for i in _np.nonzero(flat.s[:, 0])[0]:
        t = SYM[int(flat.s[i, 0])]
        for k in range(8):
            bit = 7 - k if bitorder == "big" else k
            e = T.zext(T.extract(bit, bit, t), 8)
            j = 8 * i + k
            if T.isc(e):
                out.c[j] = T.cval(e)
            else:
                SYM[e.id] = e
                out.c[j] = 0
                out.s[j, 0] = e.id
    return out if count is None else out[:count].copy()


def packbits(a, axis=None, bitorder="big"):
    a = asarray(a)
    if a.c.dtype.kind not in "iub":
        raise TypeError("Expected an input array of integer or boolean data type")
    if not a._issym() or (axis is not None and a.c.ndim > 1):
        return _wrapc(_np.packbits(a._conc_all(), axis=axis, bitorder=bitorder))
    flat = a.reshape(-1)
    c = _np.packbits(flat.c != 0, bitorder=bitorder)
    out = _wrapc(c)
    n = len(flat.c)
    symi = set((_np.nonzero(flat.s.any(axis=1))[0] // 8).tolist())
    for j in symi:
        t = None
        for k in range(8):
            i = 8 * j + k
            if i < n:
                v = _elem(flat.c[i], flat.s[i], flat.c.dtype)
                if isinstance(v, SymInt):
                    x = v.t
                    if x.op == "zext" and x.args[0].w == 1:
                        b = x.args[0]
                    elif x.w == 1:
                        b = x
                    else:
                        b = T.ite(bterm(v != 0), T.const(1, 1), T.const(0, 1))
                else:
                    b = T.const(1 if v else 0, 1)
            else:
                b = T.const(0, 1)
            if t is None:
                t = b
            elif bitorder == "big":
                t = T.concat(t, b)
            else:
                t = T.concat(b, t)
        if T.isc(t):
            out.c[j] = T.cval(t)
            out.s[j, 0] = 0
        else:
            SYM[t.id] = t
            out.c[j] = 0
            out.s[j, 0] = t.id
    return out


# ------------------------------------------------------------------ searching
def _conds(a):
    return a._bools()


def nonzero(a):
    a = asarray(a)
    if a.c.ndim != 1 or not a._issym():
        return tuple(_wrapc(x) for x in _np.nonzero(a._conc_all()))
    return (_LazyIdx(_conds(a)),)


def flatnonzero(a):
    return nonzero(asarray(a).reshape(-1))[0]


def argwhere(a):
    a = asarray(a)
    return _wrapc(_np.argwhere(a._conc_all()))


def where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    c = asarray(c)
    xs = [c, asarray(x), asarray(y)]
    if isinstance(x, (int, SymInt)) and isinstance(y, ndarray):
        d = _common(y.c.dtype, x)
    elif isinstance(y, (int, SymInt)) and isinstance(x, ndarray):
        d = _common(x.c.dtype, y)
    else:
        d = _np.promote_types(xs[1].c.dtype, xs[2].c.dtype)
    if not _b.any(z._issym() for z in xs):
        return _wrapc(_np.where(xs[0].c != 0, xs[1].c.astype(d), xs[2].c.astype(d)))
    shape = _np.broadcast_shapes(*[z.c.shape for z in xs])
    xs = [broadcast_to(z, shape) for z in xs]
    bs = xs[0]._bools()
    l = [ite(mkbool(b), p, q) for b, p, q in zip(bs, xs[1]._elems(), xs[2]._elems())]
    return _fromlist(l, d, shape)


def broadcast_to(a, shape):
    a = asarray(a)
    sh = _shape(shape)
    return ndarray(_np.broadcast_to(a.c, sh), _np.broadcast_to(a.s, sh + (a.c.dtype.itemsize,)), a._owner())


def count_nonzero(a, axis=None):
    a = asarray(a)
    if not a._issym():
        return int(_np.count_nonzero(a.c)) if axis is None else _wrapc(_np.count_nonzero(a.c, axis=axis))
    l = _LazyIdx(_conds(a.reshape(-1)))
    return l.vp_len()


def alen(a):
    """np.alen: len(a), or len(array(a, ndmin=1)) for scalars."""
    if isinstance(a, _LazyIdx):
        return a.vp_len()
    try:
        return len(a)
    except TypeError:
        return 1


def byte_bounds(a):
    p = a.c.__array_interface__["data"][0]
    lo = hi = p
    if a.c.size:
        for n, st in zip(a.c.shape, a.c.strides):
            if st < 0:
                lo += (n - 1) * st
            else:
                hi += (n - 1) * st
        hi += a.c.itemsize
    return lo, hi


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if not a._issym():
        if a.c.dtype.kind == "b":
            return _wrapc(_np.diff(a.c, n=n))
        return _wrapc(_np.diff(a.c, n=n))
    for _ in range(n):
        if a.c.dtype.kind == "b":
            a = a[1:] != a[:-1]
        else:
            a = a[1:] - a[:-1]
    return a


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.c.shape != b.c.shape:
        return False
    r = a == b
    return r.all() if isinstance(r, ndarray) else r


def array_equiv(a, b):
    return array_equal(a, b)


def all(a, axis=None, **k):
    return asarray(a).all(axis)


def any(a, axis=None, **k):
    return asarray(a).any(axis)


alltrue, sometrue = all, any


def sum(a, axis=None, dtype=None, **k):
    return asarray(a).sum(axis, dtype)


def amax(a, axis=None, **k):
    return asarray(a).max(axis)


def amin(a, axis=None, **k):
    return asarray(a).min(axis)


max, min = amax, amin


def argmax(a, axis=None):
    return asarray(a).argmax(axis)


def argmin(a, axis=None):
    return asarray(a).argmin(axis)


def cumsum(a, axis=None, dtype=None):
    return asarray(a).cumsum(axis, dtype)


def clip(a, lo, hi, **k):
    a = asarray(a)
    if not a._issym() and not isinstance(lo, SymInt) and not isinstance(hi, SymInt):
        return _wrapc(_np.clip(a.c, _tor(lo), _tor(hi)).astype(a.c.dtype))
    l = a._elems()
    if lo is not None:
        l = [ite(v < lo, lo, v) for v in l]
    if hi is not None:
        l = [ite(v > hi, hi, v) for v in l]
    return _fromlist(l, a.c.dtype, a.c.shape)


def size(a, axis=None):
    return asarray(a).size


def shape(a):
    return asarray(a).shape


def ndim(a):
    return asarray(a).ndim


def copyto(dst, src, **k):
    dst[...] = src


def put(a, idx, v, **k):
    asarray(a).put(idx, v)


def isscalar(x):
    return isinstance(x, (int, float, SymInt, SymBool, generic, str, bytes))


def may_share_memory(a, b, *k):
    return _np.may_share_memory(a.c, b.c)


def shares_memory(a, b, *k):
    return _np.shares_memory(a.c, b.c)


def _uf(f, cmp=False):
    def g(a, b, out=None, **k):
        if not isinstance(a, (ndarray, _LazyIdx)) and not isinstance(b, (ndarray, _LazyIdx)):
            if not isinstance(a, (int, SymInt, SymBool, generic)):
                a = asarray(a)
            if not isinstance(b, (int, SymInt, SymBool, generic)):
                b = asarray(b)
            if isinstance(a, (int, SymInt)) and not isinstance(b, (ndarray, generic)) and not cmp:
                a = int64(a)
        r = f(a, b)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


add, subtract, multiply = _uf(operator.add), _uf(operator.sub), _uf(operator.mul)
floor_divide, mod = _uf(operator.floordiv), _uf(operator.mod)
remainder = mod
bitwise_and, bitwise_or, bitwise_xor = _uf(operator.and_), _uf(operator.or_), _uf(operator.xor)
left_shift, right_shift = _uf(operator.lshift), _uf(operator.rshift)
equal, not_equal = _uf(operator.eq, True), _uf(operator.ne, True)
less, less_equal = _uf(operator.lt, True), _uf(operator.le, True)
greater, greater_equal = _uf(operator.gt, True), _uf(operator.ge, True)


def _tobool(a):
    if isinstance(a, (bool, SymBool)):
        return a
    a = asarray(a)
    return a if a.c.dtype.kind == "b" else a != 0


def logical_and(a, b, **k):
    return _tobool(a) & _tobool(b)


def logical_or(a, b, **k):
    return _tobool(a) | _tobool(b)


def logical_xor(a, b, **k):
    return _tobool(a) ^ _tobool(b)


def logical_not(a, **k):
    a = _tobool(a)
    return not_(a) if isinstance(a, (bool, SymBool)) else ~a


def invert(a, **k):
    return ~a


bitwise_not = invert


def negative(a, **k):
    return -a


def minimum(a, b, **k):
    return where(asarray(a) < b, a, b)


def maximum(a, b, **k):
    return where(asarray(a) > b, a, b)


def isin(a, vals, invert=False, **k):
    a = asarray(a)
    v = asarray(vals).reshape(-1)
    if not a._issym() and not v._issym():
        return _wrapc(_np.isin(a.c, v.c, invert=invert))
    vl = v._elems()
    out = []
    for x in a._elems():
        b = V.or_(*[x == y for y in vl]) if vl else False
        out.append(not_(b) if invert else b)
    return _fromlist(out, _np.dtype("bool"), a.c.shape)


in1d = isin


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def _generic(name):
    real = getattr(_np, name)
    if not callable(real):
        return real

    def f(*a, **k):
        return _wrapr(real(*[_tor(x) for x in a], **{kk: _tor(v) for kk, v in k.items()}))
    f.__name__ = name
    return f


newaxis = None
inf = _np.inf
nan = _np.nan
pi = _np.pi
__version__ = "1.22.4"
iinfo = lambda d: _np.iinfo(_dt(d))
can_cast = lambda a, b, casting="safe": _np.can_cast(_dt(a) if not isinstance(a, (int,)) else a, _dt(b), casting)
promote_types = lambda a, b: _np.promote_types(_dt(a), _dt(b))


def result_type(*a):
    d = None
    for x in a:
        x = x.dtype if isinstance(x, (ndarray, generic)) else _dt(x)
        d = x if d is None else _np.promote_types(d, x)
    return d


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if not hasattr(_np, name):
        raise AttributeError("module 'numpy' has no attribute %r" % name)
    return _generic(name)


class _R:
    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        parts = []
        for x in ix:
            if isinstance(x, slice):
                parts.append(arange(x.start or 0, x.stop, x.step or 1))
            elif isinstance(x, (int, SymInt, generic)):
                parts.append(asarray([x]))
            else:
                parts.append(asarray(x))
        return concatenate(parts)


r_ = _R()
