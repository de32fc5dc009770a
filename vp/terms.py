"""Hash-consed bit-vector / boolean terms with light simplification, and their
translation to z3.  Width 0 means Bool.  Constants are ('const', value)."""
import z3

_table = {}
_next = [1]
TRUE = FALSE = None


class Term:
    __slots__ = ("op", "args", "w", "id", "z", "lo", "hi", "__weakref__")

    def __repr__(self):
        if self.op == "const":
            return "%d:%d" % (self.args[0], self.w)
        if self.op == "var":
            return self.args[0]
        return "(%s %s)" % (self.op, " ".join(repr(a) for a in self.args))


def _mk(op, args, w, lo=0, hi=None):
    key = (op, w) + tuple(a.id if isinstance(a, Term) else ("#", a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.w = w
        t.id = _next[0]
        _next[0] += 1
        t.z = None
        t.lo = lo
        t.hi = ((1 << w) - 1 if w else 1) if hi is None else hi
        _table[key] = t
    return t


def reset():
    """Drop the intern table (ids keep growing, so stale terms stay distinct)."""
    global TRUE, FALSE
    _table.clear()
    TRUE = _mk("true", (), 0, 1, 1)
    FALSE = _mk("false", (), 0, 0, 0)


reset()


def table_size():
    return len(_table)


def const(v, w):
    v &= (1 << w) - 1
    return _mk("const", (v,), w, v, v)


def var(name, w):
    return _mk("var", (name,), w)


def boolvar(name):
    return _mk("var", (name,), 0)


def isc(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- bit vectors
def zext(t, w):
    if t.w == w:
        return t
    if isc(t):
        return const(cval(t), w)
    if t.op == "zext":
        return zext(t.args[0], w)
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], zext(t.args[1], w), zext(t.args[2], w))
    return _mk("zext", (t,), w, t.lo, t.hi)


def sext(t, w):
    if t.w == w:
        return t
    if isc(t):
        v = cval(t)
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(v, w)
    if t.hi < (1 << (t.w - 1)):
        return zext(t, w)
    if t.op == "zext":
        return zext(t.args[0], w)
    if t.op == "sext":
        return sext(t.args[0], w)
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    return _mk("sext", (t,), w)


def extract(hi, lo, t):
    w = hi - lo + 1
    if lo == 0 and w == t.w:
        return t
    if isc(t):
        return const(cval(t) >> lo, w)
    if t.hi < (1 << lo):
        return const(0, w)
    if t.op == "extract":
        return extract(hi + t.args[1], lo + t.args[1], t.args[2])
    if t.op == "zext":
        x = t.args[0]
        if lo >= x.w:
            return const(0, w)
        if hi < x.w:
            return extract(hi, lo, x)
        if lo == 0:
            return zext(x, w)
        return zext(extract(x.w - 1, lo, x), w)
    if t.op == "sext":
        x = t.args[0]
        if hi < x.w:
            return extract(hi, lo, x)
        if lo == 0:
            return sext(x, w)
    if t.op == "concat":
        a, b = t.args
        if hi < b.w:
            return extract(hi, lo, b)
        if lo >= b.w:
            return extract(hi - b.w, lo - b.w, a)
        return concat(extract(hi - b.w, 0, a), extract(b.w - 1, lo, b))
    if t.op == "ite" and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], extract(hi, lo, t.args[1]), extract(hi, lo, t.args[2]))
    if t.op in ("and", "or", "xor") and (isc(t.args[0]) or isc(t.args[1])):
        f = {"and": band_, "or": bor_, "xor": bxor_}[t.op]
        return f(extract(hi, lo, t.args[0]), extract(hi, lo, t.args[1]))
    if t.op in ("add", "sub", "mul") and lo == 0:
        f = {"add": add, "sub": sub, "mul": mul}[t.op]
        return f(extract(hi, 0, t.args[0]), extract(hi, 0, t.args[1]))
    if t.op == "shl" and isc(t.args[1]):
        k = cval(t.args[1])
        if hi < k:
            return const(0, w)
        if lo >= k:
            return extract(hi - k, lo - k, t.args[0])
    if t.op == "lshr" and isc(t.args[1]):
        k = cval(t.args[1])
        if hi + k < t.w:
            return extract(hi + k, lo + k, t.args[0])
    h = (1 << w) - 1
    if lo == 0 and t.hi <= h:
        return _mk("extract", (hi, lo, t), w, t.lo, t.hi)
    return _mk("extract", (hi, lo, t), w, 0, min(h, t.hi >> lo))


def concat(a, b):
    w = a.w + b.w
    if isc(a) and isc(b):
        return const((cval(a) << b.w) | cval(b), w)
    if isc(a) and cval(a) == 0:
        return zext(b, w)
    if a.op == "extract" and b.op == "extract" and a.args[2] is b.args[2] and a.args[1] == b.args[0] + 1:
        return extract(a.args[0], b.args[1], a.args[2])
    if a.op == "zext" and a.args[0].op == "extract" and b.op == "extract" \
            and a.args[0].args[2] is b.args[2] and a.args[0].args[1] == b.args[0] + 1:
        x = a.args[0]
        return zext(extract(x.args[0], b.args[1], x.args[2]), w)
    # re-associate so that chained byte extracts merge: concat(concat(p,q),b)
    if a.op == "concat" and b.op == "extract" and a.args[1].op == "extract" \
            and a.args[1].args[2] is b.args[2] and a.args[1].args[1] == b.args[0] + 1:
        return concat(a.args[0], extract(a.args[1].args[0], b.args[1], b.args[2]))
    if a.op == "zext":
        return zext(concat(a.args[0], b), w)
    return _mk("concat", (a, b), w, (a.lo << b.w) | b.lo, (a.hi << b.w) | b.hi)


def add(a, b):
    if isc(a) and isc(b):
        return const(cval(a) + cval(b), a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if cval(b) == 0:
            return a
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], const(cval(a.args[1]) + cval(b), a.w))
    m = (1 << a.w) - 1
    if a.hi + b.hi <= m:
        return _mk("add", (a, b), a.w, a.lo + b.lo, a.hi + b.hi)
    return _mk("add", (a, b), a.w)


def neg(a):
    return sub(const(0, a.w), a)


def sub(a, b):
    if isc(b):
        return add(a, const(-cval(b), a.w)) if cval(b) else a
    if a is b:
        return const(0, a.w)
    if a.lo >= b.hi:
        return _mk("sub", (a, b), a.w, a.lo - b.hi, a.hi - b.lo)
    return _mk("sub", (a, b), a.w)


def mul(a, b):
    if isc(a) and isc(b):
        return const(cval(a) * cval(b), a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        k = cval(b)
        if k == 0:
            return const(0, a.w)
        if k == 1:
            return a
        if k & (k - 1) == 0:
            return shl(a, const(k.bit_length() - 1, a.w))
    m = (1 << a.w) - 1
    if a.hi * b.hi <= m:
        return _mk("mul", (a, b), a.w, a.lo * b.lo, a.hi * b.hi)
    return _mk("mul", (a, b), a.w)


def udiv(a, b):
    if isc(b):
        k = cval(b)
        if k and isc(a):
            return const(cval(a) // k, a.w)
        if k == 1:
            return a
        if k and k & (k - 1) == 0:
            return lshr(a, const(k.bit_length() - 1, a.w))
        if k:
            return _mk("udiv", (a, b), a.w, a.lo // k, a.hi // k)
    return _mk("udiv", (a, b), a.w)


def urem(a, b):
    if isc(b):
        k = cval(b)
        if k and isc(a):
            return const(cval(a) % k, a.w)
        if k and a.hi < k:
            return a
        if k and k & (k - 1) == 0:
            return band_(a, const(k - 1, a.w))
        if k:
            return _mk("urem", (a, b), a.w, 0, k - 1)
    return _mk("urem", (a, b), a.w)


def band_(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        k = cval(b)
        if isc(a):
            return const(cval(a) & k, a.w)
        if k == 0:
            return b
        if k == (1 << a.w) - 1:
            return a
        n = k.bit_length()
        if k == (1 << n) - 1:
            return zext(extract(n - 1, 0, a), a.w)
        # contiguous mask: shift(extract)
        low = (k & -k).bit_length() - 1
        if (k >> low) + 1 == 1 << (n - low):
            x = extract(n - 1, low, a)
            return zext(concat(x, const(0, low)), a.w)
        return _mk("and", (a, b), a.w, 0, min(a.hi, k))
    if a is b:
        return a
    return _mk("and", (a, b), a.w, 0, min(a.hi, b.hi))


def bor_(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        k = cval(b)
        if isc(a):
            return const(cval(a) | k, a.w)
        if k == 0:
            return a
        if k == (1 << a.w) - 1:
            return b
    if a is b:
        return a
    # disjoint or of shifted pieces -> concat (keeps memory round trips simple)
    r = _disjoint(a, b)
    if r is not None:
        return r
    top = max(a.hi, b.hi).bit_length()
    return _mk("or", (a, b), a.w, max(a.lo, b.lo), (1 << top) - 1)


def _lowzeros(t):
    if t.op == "concat" and isc(t.args[1]) and cval(t.args[1]) == 0:
        return t.args[1].w
    if t.op == "zext":
        return _lowzeros(t.args[0])
    if t.op == "shl" and isc(t.args[1]):
        return cval(t.args[1])
    if isc(t) and cval(t):
        return (cval(t) & -cval(t)).bit_length() - 1
    return 0


def _disjoint(a, b):
    for x, y in ((a, b), (b, a)):
        k = _lowzeros(x)
        if 0 < k < x.w and y.hi < (1 << k):
            hi = extract(x.w - 1, k, x)
            return concat(hi, extract(k - 1, 0, y))
    return None


def bxor_(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return const(cval(a) ^ cval(b), a.w)
        if cval(b) == 0:
            return a
        if a.op == "xor" and isc(a.args[1]):
            return bxor_(a.args[0], const(cval(a.args[1]) ^ cval(b), a.w))
    if a is b:
        return const(0, a.w)
    return _mk("xor", (a, b), a.w)


def bnot_(a):
    return bxor_(a, const(-1, a.w))


def shl(a, b):
    if isc(b):
        k = cval(b)
        if k >= a.w:
            return const(0, a.w)
        if k == 0:
            return a
        if isc(a):
            return const(cval(a) << k, a.w)
        return concat(extract(a.w - 1 - k, 0, a), const(0, k))
    return _mk("shl", (a, b), a.w)


def lshr(a, b):
    if isc(b):
        k = cval(b)
        if k >= a.w:
            return const(0, a.w)
        if k == 0:
            return a
        if isc(a):
            return const(cval(a) >> k, a.w)
        return zext(extract(a.w - 1, k, a), a.w)
    return _mk("lshr", (a, b), a.w)


def ashr(a, b):
    if isc(b):
        k = min(cval(b), a.w - 1)
        if k == 0:
            return a
        if a.hi < (1 << (a.w - 1)):
            return lshr(a, const(k, a.w))
        return sext(extract(a.w - 1, k, a), a.w)
    return _mk("ashr", (a, b), a.w)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.w == 0:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "eq" and isc(a) and isc(b) and cval(a) + cval(b) == 1 and c.args[0].w and c.args[0].hi <= 1 and isc(c.args[1]) and cval(c.args[1]) == cval(a):
        # 1 exactly where a one-bit value is 1: the value itself
        y = c.args[0]
        return zext(y, a.w) if y.w <= a.w else extract(a.w - 1, 0, y)
    return _mk("ite", (c, a, b), a.w, min(a.lo, b.lo), max(a.hi, b.hi))


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), 0)


def and_(*xs):
    return conj(xs)


def conj(xs):
    out = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and&":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for i, x in list(out.items()):
        if x.op == "not" and x.args[0].id in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("and&", tuple(out.values()), 0)


def or_(*xs):
    return disj(xs)


def disj(xs):
    out = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or|":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for i, x in list(out.items()):
        if x.op == "not" and x.args[0].id in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("or|", tuple(out.values()), 0)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if a is FALSE:
            return not_(b)
        if b is TRUE:
            return a
        if b is FALSE:
            return not_(a)
        return _mk("eq", (a, b), 0)
    if isc(a):
        a, b = b, a
    if a.lo > b.hi or b.lo > a.hi:
        return FALSE
    if isc(b):
        k = cval(b)
        if isc(a):
            return boolc(cval(a) == k)
        if a.op == "zext":
            x = a.args[0]
            if k >> x.w:
                return FALSE
            return eq(x, const(k, x.w))
        if a.op == "sext":
            x = a.args[0]
            c = const(k, x.w)
            if cval(sext(c, a.w)) != k:
                return FALSE
            return eq(x, c)
        if a.op == "concat":
            p, q = a.args
            return and_(eq(p, const(k >> q.w, p.w)), eq(q, const(k, q.w)))
        if a.op == "ite":
            c, x, y = a.args
            if isc(x) or isc(y):
                return ite(c, eq(x, b), eq(y, b))
        if a.op == "add" and isc(a.args[1]):
            return eq(a.args[0], const(k - cval(a.args[1]), a.w))
        if a.op == "xor" and isc(a.args[1]):
            return eq(a.args[0], const(k ^ cval(a.args[1]), a.w))
        if a.w == 1:
            if k == 0:
                return not_(eq(a, const(1, 1)))
    else:
        if a.op == "zext" and b.op == "zext":
            x, y = a.args[0], b.args[0]
            w = max(x.w, y.w)
            if w < a.w:
                return eq(zext(x, w), zext(y, w))
        if a.op == "concat" and b.op == "concat" and a.args[0].w == b.args[0].w:
            return and_(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
        if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0])
    if a.id > b.id and not isc(b):
        a, b = b, a
    return _mk("eq", (a, b), 0)


def ult(a, b):
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if a is b:
        return FALSE
    if a.op == "zext" and isc(b) and not (cval(b) >> a.args[0].w):
        return ult(a.args[0], const(cval(b), a.args[0].w))
    if b.op == "zext" and isc(a) and not (cval(a) >> b.args[0].w):
        return ult(const(cval(a), b.args[0].w), b.args[0])
    if a.op == "zext" and b.op == "zext":
        w = max(a.args[0].w, b.args[0].w)
        if w < a.w:
            return ult(zext(a.args[0], w), zext(b.args[0], w))
    return _mk("ult", (a, b), 0)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    m = 1 << (a.w - 1)
    if a.hi < m and b.hi < m:
        return ult(a, b)
    if isc(a) and isc(b):
        x, y = cval(a), cval(b)
        x = x - 2 * m if x >= m else x
        y = y - 2 * m if y >= m else y
        return boolc(x < y)
    if a is b:
        return FALSE
    if a.lo >= m and b.hi < m:
        return TRUE
    if a.hi < m and b.lo >= m:
        return FALSE
    return _mk("slt", (a, b), 0)


def sle(a, b):
    return not_(slt(b, a))


# ---------------------------------------------------------------- z3
def to_z3(t):
    if t.z is not None:
        return t.z
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Term) and a.z is None]
        if todo:
            stack.extend(todo)
            continue
        x.z = _z(x)
        stack.pop()
    return t.z


def _z(t):
    o = t.op
    a = [x.z if isinstance(x, Term) else x for x in t.args]
    if o == "const":
        return z3.BitVecVal(a[0], t.w)
    if o == "var":
        return z3.BitVec(a[0], t.w) if t.w else z3.Bool(a[0])
    if o == "true":
        return z3.BoolVal(True)
    if o == "false":
        return z3.BoolVal(False)
    if o == "zext":
        return z3.ZeroExt(t.w - t.args[0].w, a[0])
    if o == "sext":
        return z3.SignExt(t.w - t.args[0].w, a[0])
    if o == "extract":
        return z3.Extract(a[0], a[1], a[2])
    if o == "concat":
        return z3.Concat(a[0], a[1])
    if o == "add":
        return a[0] + a[1]
    if o == "sub":
        return a[0] - a[1]
    if o == "mul":
        return a[0] * a[1]
    if o == "udiv":
        return z3.UDiv(a[0], a[1])
    if o == "urem":
        return z3.URem(a[0], a[1])
    if o == "and":
        return a[0] & a[1]
    if o == "or":
        return a[0] | a[1]
    if o == "xor":
        return a[0] ^ a[1]
    if o == "shl":
        return a[0] << a[1]
    if o == "lshr":
        return z3.LShR(a[0], a[1])
    if o == "ashr":
        return a[0] >> a[1]
    if o == "ite":
        return z3.If(a[0], a[1], a[2])
    if o == "not":
        return z3.Not(a[0])
    if o == "and&":
        return z3.And(*a)
    if o == "or|":
        return z3.Or(*a)
    if o == "eq":
        return a[0] == a[1]
    if o == "ult":
        return z3.ULT(a[0], a[1])
    if o == "slt":
        return a[0] < a[1]
    raise AssertionError(o)


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, memo):
    """Value of t under env: var name -> int (missing variables are 0)."""
    r = memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = _ev(x, env, memo)
        stack.pop()
    return memo[t.id]


def _ev(t, env, memo):
    o = t.op
    if o == "const":
        return t.args[0]
    if o == "var":
        return env.get(t.args[0], 0)
    if o == "true":
        return 1
    if o == "false":
        return 0
    a = [memo[x.id] if isinstance(x, Term) else x for x in t.args]
    m = (1 << t.w) - 1 if t.w else 1
    if o == "zext":
        return a[0]
    if o == "sext":
        w0 = t.args[0].w
        return (a[0] - (1 << w0)) & m if a[0] >> (w0 - 1) else a[0]
    if o == "extract":
        return (a[2] >> a[1]) & m
    if o == "concat":
        return (a[0] << t.args[1].w) | a[1]
    if o == "add":
        return (a[0] + a[1]) & m
    if o == "sub":
        return (a[0] - a[1]) & m
    if o == "mul":
        return (a[0] * a[1]) & m
    if o == "udiv":
        return a[0] // a[1] if a[1] else m
    if o == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if o == "and":
        return a[0] & a[1]
    if o == "or":
        return a[0] | a[1]
    if o == "xor":
        return a[0] ^ a[1]
    if o == "shl":
        return (a[0] << a[1]) & m if a[1] < t.w else 0
    if o == "lshr":
        return a[0] >> a[1] if a[1] < t.w else 0
    if o == "ashr":
        s = a[0] - (1 << t.w) if a[0] >> (t.w - 1) else a[0]
        return (s >> min(a[1], t.w)) & m
    if o == "ite":
        return a[1] if a[0] else a[2]
    if o == "not":
        return 1 - a[0]
    if o == "and&":
        return int(all(a))
    if o == "or|":
        return int(any(a))
    if o == "eq":
        return int(a[0] == a[1])
    if o == "ult":
        return int(a[0] < a[1])
    if o == "slt":
        h = 1 << (t.args[0].w - 1)
        return int((a[0] ^ h) < (a[1] ^ h))
    raise AssertionError(o)
