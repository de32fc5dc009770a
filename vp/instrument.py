"""Loads /repo's package from source for symbolic execution.

The source is re-read on every run.  The only rewriting is mechanical: calls go
through `_vp_call` (so that C builtins such as len/int/bytes accept symbolic
values), `%`-formatting, f-strings and `in` go through helpers, loops count
iterations, and bare `except:` clauses let engine control flow through.
"""
import ast
import builtins
import hashlib as _hashlib
import io as _io
import operator
import os
import struct as _struct
import sys
import types
import zlib as _zlib
import importlib
import functools

from . import engine as E
from . import symnp as NP
from . import terms as T
from .values import (SymInt, SymBool, SymSeq, SymBytes, SymStr, SymFmt, mkint, mkbytes, mkstr, mkbool, ite, and_, or_,
                     not_, is_sym, bterm, rng)

REPO = os.environ.get("VP_REPO", "/repo")
_KEEP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "_vp_call", "_vp_where"}


class Rewriter(ast.NodeTransformer):
    def _count(self, n):
        """sum(1 for x in xs if c) and len([x for x in xs if c]): added up
        without a decision for each element."""
        if not (isinstance(n.func, ast.Name) and n.func.id in ("sum", "len") and len(n.args) == 1 and not n.keywords):
            return n
        g = n.args[0]
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or len(g.generators) != 1 or len(g.generators[0].ifs) != 1 or g.generators[0].is_async:
            return n
        if n.func.id == "sum":
            if not (isinstance(g.elt, ast.Constant) and type(g.elt.value) is int):
                return n
            k = g.elt
        else:
            if not isinstance(g.elt, (ast.Constant, ast.Name)):
                return n
            k = ast.Constant(1)
        f = g.generators[0]
        elt = ast.Call(func=ast.Name(id="_vp_where", ctx=ast.Load()), args=[f.ifs[0], k], keywords=[])
        new = ast.Call(func=ast.Name(id="sum", ctx=ast.Load()), keywords=[], args=[
            ast.GeneratorExp(elt=elt, generators=[ast.comprehension(target=f.target, iter=f.iter, ifs=[], is_async=0)])])
        return ast.fix_missing_locations(ast.copy_location(new, n))

    def _counting(self, n):
        """if c: n += 1 in a loop, likewise."""
        if isinstance(n, ast.If) and len(n.body) == 1 and not n.orelse:
            a = n.body[0]
            if isinstance(a, ast.AugAssign) and isinstance(a.op, ast.Add) and isinstance(a.target, ast.Name) and isinstance(a.value, ast.Constant) and type(a.value.value) is int:
                new = ast.AugAssign(target=a.target, op=a.op, value=ast.Call(func=ast.Name(id="_vp_where", ctx=ast.Load()), args=[n.test, a.value], keywords=[]))
                return ast.fix_missing_locations(ast.copy_location(new, n))
        return n

    def visit_Call(self, n):
        n = self._count(n)
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in _KEEP:
            return n
        return ast.copy_location(ast.Call(
            func=ast.Name(id="_vp_call", ctx=ast.Load()),
            args=[n.func] + n.args, keywords=n.keywords), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.Name(id="_vp_mod", ctx=ast.Load()),
                                              args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "_vp_in" if isinstance(n.ops[0], ast.In) else "_vp_notin"
            return ast.copy_location(ast.Call(func=ast.Name(id=f, ctx=ast.Load()),
                                              args=[n.left, n.comparators[0]], keywords=[]), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            f = "_vp_is" if isinstance(n.ops[0], ast.Is) else "_vp_isnot"
            return ast.copy_location(ast.Call(func=ast.Name(id=f, ctx=ast.Load()),
                                              args=[n.left, n.comparators[0]], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        args = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant("")
                else:
                    spec = self.visit(spec)
                args.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=ast.Name(id="_vp_fstr", ctx=ast.Load()), args=args, keywords=[]), n)

    def _tick(self, n):
        if isinstance(n, ast.For):
            n.body = [self._counting(x) for x in n.body]
        self.generic_visit(n)
        t = ast.Expr(ast.Call(func=ast.Name(id="_vp_tick", ctx=ast.Load()), args=[], keywords=[]))
        n.body.insert(0, ast.copy_location(t, n.body[0]))
        return n

    visit_While = _tick
    visit_For = _tick

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        broad = n.type is None or (isinstance(n.type, ast.Name) and n.type.id == "BaseException")
        if broad:
            t = ast.Expr(ast.Call(func=ast.Name(id="_vp_reraise", ctx=ast.Load()), args=[], keywords=[]))
            n.body.insert(0, ast.copy_location(t, n.body[0]))
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return ast.copy_location(ast.Call(
                func=ast.Name(id="_vp_sub", ctx=ast.Load()), args=[n.value, n.slice], keywords=[]), n)
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.finalbody:
            # a `finally` that returns/raises must not swallow engine control flow
            n.finalbody = [ast.copy_location(ast.If(
                test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(
                    func=ast.Name(id="_vp_unwinding", ctx=ast.Load()), args=[], keywords=[])),
                body=n.finalbody, orelse=[]), n.finalbody[0])]
        return n


# ------------------------------------------------------------------ helpers
def vp_tick():
    e = E.ENG
    if e is not None:
        e.tick()


def vp_reraise():
    x = sys.exc_info()[1]
    if isinstance(x, E.Control):
        raise x


def vp_unwinding():
    return isinstance(sys.exc_info()[1], E.Control)


def _symkey(b):
    if isinstance(b, NP.generic):
        b = b.v
    return b if isinstance(b, (SymInt, SymSeq)) else None


def vp_sub(a, b):
    """Subscript load: a symbolic dictionary key forks over the present keys
    instead of being enumerated through hash()."""
    if isinstance(a, dict) and not isinstance(b, (int, str, tuple)) or isinstance(b, SymInt) and isinstance(a, dict):
        k = _symkey(b)
        if k is not None:
            for key in list(a):
                if k == key:
                    return a[key]
            if hasattr(type(a), "__missing__"):
                return a[b]
            raise KeyError(b)
    return a[b]


def vp_in(a, b):
    if is_sym(a) and isinstance(b, (str, bytes, bytearray)):
        return (SymBytes if isinstance(b, (bytes, bytearray)) else SymStr)(
            (SymBytes if isinstance(b, (bytes, bytearray)) else SymStr).lift(b)).__contains__(a)
    if isinstance(b, (dict, set, frozenset)):
        key = _symkey(a)
        if key is not None:
            return any(bool(key == k) for k in b)
    return a in b


def vp_notin(a, b):
    return not vp_in(a, b)


def vp_is(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, SymBool) or isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    return a is b


def vp_isnot(a, b):
    return not_(vp_is(a, b))


def _plain(v):
    if isinstance(v, NP.generic):
        return v.v
    return v


def _fmtparts(fmt, args):
    """Parse a %-format; returns list of str|(value, spec) or None when a
    construct is not understood."""
    out = []
    i = 0
    n = len(fmt)
    ai = 0
    seq = args if isinstance(args, tuple) else (args,)
    while i < n:
        j = fmt.find("%", i)
        if j < 0:
            out.append(fmt[i:])
            break
        out.append(fmt[i:j])
        j += 1
        k = j
        if k < n and fmt[k] == "%":
            out.append("%")
            i = k + 1
            continue
        key = None
        if k < n and fmt[k] == "(":
            e = fmt.index(")", k)
            key = fmt[k + 1:e]
            k = e + 1
        st = k
        while k < n and fmt[k] in "-+ #0123456789.":
            k += 1
        flags, conv = fmt[st:k], fmt[k]
        if key is not None:
            v = args[key]
        else:
            if ai >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[ai]
            ai += 1
        v = _plain(v)
        i = k + 1
        if conv in "di":
            if isinstance(v, SymBool):
                v = v._int()
            if isinstance(v, (SymInt,)):
                out.append((v, flags + "d" if not flags.startswith("-") else "<" + flags[1:] + "d"))
            else:
                if v is None or isinstance(v, (str, bytes, SymSeq)):
                    raise TypeError("%d format: a number is required, not " + type(v).__name__)
                out.append(("%" + flags + conv) % v)
        elif conv in "xXob":
            if isinstance(v, (SymInt,)):
                out.append((v, flags + conv))
            else:
                out.append(("%" + flags + conv) % v)
        elif conv in "sr":
            if isinstance(v, SymFmt) and not flags and conv == "s":
                out.append(v)
            elif isinstance(v, SymStr) and conv == "s":
                w = flags.lstrip("-0")
                if flags == "":
                    out.append(v)
                elif flags.startswith("-") and w.isdigit():
                    out.append(v.ljust(int(w)))
                elif w.isdigit():
                    out.append(v.rjust(int(w)))
                else:
                    return None
            elif isinstance(v, SymInt):
                if flags:
                    return None
                out.append((v, "d"))
            elif isinstance(v, SymSeq):
                out.append("<sym>")
            else:
                s = vp_str(v) if conv == "s" else repr(v)
                if isinstance(s, str):
                    out.append(("%" + flags + "s") % s)
                else:
                    out.append(s)
        elif conv == "c":
            out.append(vp_chr(v) if not isinstance(v, (str, SymSeq)) else v)
        else:
            out.append(("%" + flags + conv) % (v.conc() if is_sym(v) else v))
    if not isinstance(args, dict) and ai < len(seq):
        raise TypeError("not all arguments converted during string formatting")
    return out


def _joinparts(out):
    if any(isinstance(p, (tuple, SymFmt)) for p in out):
        return SymFmt(out)
    if any(isinstance(p, SymStr) for p in out):
        cs = []
        for p in out:
            cs.extend(SymStr.lift(p))
        return mkstr(cs)
    return "".join(out)


def vp_mod(a, b):
    if isinstance(a, str):
        bb = b if isinstance(b, (tuple, dict)) else (b,)
        if isinstance(bb, dict) or True:
            try:
                out = _fmtparts(a, b)
            except (IndexError, ValueError):
                out = None
        if out is None:
            return a % _deep(b)
        return _joinparts(out)
    if isinstance(a, (bytes, bytearray)):
        bs = b if isinstance(b, tuple) else (b,)
        if any(is_sym(x) or hasattr(x, "__vp_array__") or hasattr(x, "__vp_scalar__") for x in bs):
            return _bytesfmt(bytes(a), bs)
        return a % b
    return a % b


def _bytesfmt(fmt, args):
    out = []
    i = ai = 0
    while i < len(fmt):
        j = fmt.find(b"%", i)
        if j < 0:
            out.extend(fmt[i:])
            break
        out.extend(fmt[i:j])
        k = j + 1
        if fmt[k:k + 1] == b"%":
            out.append(37)
            i = k + 1
            continue
        st = k
        while chr(fmt[k]) in "-+ #0123456789.":
            k += 1
        flags, conv = fmt[st:k].decode(), chr(fmt[k])
        v = args[ai]
        ai += 1
        i = k + 1
        if conv in "sb":
            if hasattr(v, "__vp_array__"):
                v = v.tobytes()
            cs = list(SymBytes.lift(v))
            w = flags
            prec = None
            if "." in w:
                w, prec = w.split(".")
                cs = cs[:int(prec)]
            left = w.startswith("-")
            w = w.lstrip("-")
            if w:
                pad = [32] * (int(w) - len(cs))
                cs = cs + pad if left else pad + cs
            out.extend(cs)
        elif conv == "c":
            if isinstance(v, (bytes, SymBytes)):
                out.extend(SymBytes.lift(v))
            else:
                out.append(_plain(v))
        else:
            v = _plain(v)
            out.extend((b"%" + flags.encode() + conv.encode()) % (v.conc() if is_sym(v) else v))
    return mkbytes(out)


def vp_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        v = _plain(v)
        if isinstance(spec, SymFmt):
            spec = spec.conc()
        if conv == 114:
            out.append(repr(v))
        elif isinstance(v, SymInt) and conv == -1:
            out.append((v, spec if spec else "d"))
        elif isinstance(v, SymFmt) and not spec:
            out.append(v)
        elif isinstance(v, SymStr):
            if not spec:
                out.append(v)
            elif spec.lstrip("<-").rstrip("s").isdigit():
                out.append(v.ljust(int(spec.lstrip("<-").rstrip("s"))))
            else:
                out.append(format(v.conc(), spec))
        elif isinstance(v, SymSeq):
            out.append("<sym>")
        elif isinstance(v, SymBool):
            out.append(format(bool(v), spec))
        else:
            s = vp_str(v) if (conv == 115 or not spec) else v
            out.append(s if isinstance(s, SymSeq) else format(s, spec))
    return _joinparts(out)


def _deep(x):
    """Concretise (by forking) every symbolic value in x."""
    if isinstance(x, (SymInt, SymSeq)):
        return x.conc()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, NP.generic):
        return x.conc()
    if isinstance(x, tuple):
        return tuple(_deep(y) for y in x)
    if isinstance(x, list):
        return [_deep(y) for y in x]
    if isinstance(x, dict):
        return {_deep(k): _deep(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ builtins
def vp_len(x):
    if hasattr(x, "vp_len"):
        return x.vp_len()
    f = type(x).__dict__.get("__len__")
    if isinstance(f, types.FunctionType):
        return x.__len__()          # may be symbolic
    for k in type(x).__mro__:
        f = k.__dict__.get("__len__")
        if f is not None:
            return x.__len__() if isinstance(f, types.FunctionType) else len(x)
    return len(x)


def vp_int(*a):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, (SymStr, SymBytes, SymFmt)):
        base = a[1] if len(a) > 1 else 10
        return _parse_int(x, base)
    if len(a) > 1:
        return int(*a)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, NP.generic):
        return x.v
    if isinstance(x, NP.ndarray):
        return x.vp_int()
    f = getattr(type(x), "__int__", None) or getattr(type(x), "__index__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return int(x)


def _parse_int(x, base):
    """int(text, base) on a symbolic ASCII string (CPython's grammar)."""
    if isinstance(x, SymFmt):
        return int(x.conc(), base)
    cs = list(x.strip().cs) if isinstance(x.strip(), SymSeq) else None
    if cs is None:
        return int(x.strip(), base)
    sign = 1
    if cs and (cs[0] == 43 or cs[0] == 45):
        if cs[0] == 45:
            sign = -1
        cs = cs[1:]
    bad = ValueError("invalid literal for int()")
    if base == 0 or base == 16 and len(cs) >= 2 and cs[0] == 48 and (cs[1] == 120 or cs[1] == 88):
        if base == 0:
            return int(x.conc(), 0)
        cs = cs[2:]
        if cs and cs[0] == 95:
            cs = cs[1:]
    elif base == 2 and len(cs) >= 2 and cs[0] == 48 and (cs[1] == 98 or cs[1] == 66):
        cs = cs[2:]
        if cs and cs[0] == 95:
            cs = cs[1:]
    elif base == 8 and len(cs) >= 2 and cs[0] == 48 and (cs[1] == 111 or cs[1] == 79):
        cs = cs[2:]
        if cs and cs[0] == 95:
            cs = cs[1:]
    v = 0
    prev_us = True
    if not cs:
        raise bad
    for c in cs:
        if not prev_us and c == 95:
            prev_us = True
            continue
        if c >= 48 and c <= 57:
            d = c - 48
        elif c >= 97 and c <= 122:
            d = c - 87
        elif c >= 65 and c <= 90:
            d = c - 55
        elif c >= 128:
            return int(x.conc(), base)
        else:
            raise bad
        if not (d < base):
            raise bad
        v = v * base + d
        prev_us = False
    if prev_us:
        raise bad
    return v * sign


def vp_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], SymInt):
        return a[0] != 0
    if a and isinstance(a[0], NP.generic):
        return a[0].v != 0
    return bool(*a)


def vp_bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, NP.ndarray):
        return x.tobytes()
    if isinstance(x, NP.generic):
        # bytes(np.uint8(5)): numpy scalars export the buffer protocol
        return x.tobytes()
    if isinstance(x, SymStr):
        return x.encode(*a[1:])
    if isinstance(x, SymInt):
        return bytes(x.conc())
    if isinstance(x, (list, tuple)) and any(is_sym(y) or isinstance(y, NP.generic) for y in x):
        out = []
        for y in x:
            y = _plain(y)
            if y < 0 or y > 255:
                raise ValueError("bytes must be in range(0, 256)")
            out.append(y)
        return mkbytes(out)
    if hasattr(x, "__bytes__") and not isinstance(x, (bytes, str)):
        return x.__bytes__()
    if not isinstance(x, (bytes, bytearray, str, int, memoryview, list, tuple)) and hasattr(x, "__iter__"):
        return vp_bytes([y for y in x])
    return bytes(*a, **k)


class SymByteArray(list):
    """bytearray stand-in able to hold symbolic bytes."""

    def __add__(self, o):
        return SymByteArray(list(self) + list(SymBytes.lift(o) if not isinstance(o, list) else o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        if isinstance(o, NP.ndarray):
            o = o.tobytes()
        if isinstance(o, (SymBytes, bytes, bytearray)):
            o = SymBytes.lift(o)
        list.extend(self, [_plain(x) for x in o])

    def __bytes__(self):
        return mkbytes(self)

    def tobytes(self):
        return mkbytes(self)

    def vp_getvalue(self):
        return mkbytes(self)

    def decode(self, *a):
        return mkbytes(self).decode(*a)

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return SymByteArray(r) if isinstance(i, slice) else r


def vp_bytearray(*a):
    if a and not isinstance(a[0], (int,)):
        x = a[0]
        if isinstance(x, SymInt):
            return SymByteArray([0] * x.conc())
        b = vp_bytes(x)
        return SymByteArray(SymBytes.lift(b))
    return SymByteArray([0] * (a[0] if a else 0))


def vp_str(*a):
    if not a:
        return ""
    x = a[0]
    if isinstance(x, (SymStr, SymFmt)):
        return x
    if isinstance(x, SymBytes) and len(a) > 1:
        return x.decode(*a[1:])
    if isinstance(x, NP.generic):
        x = x.v
    if isinstance(x, SymInt):
        return SymFmt([(x, "d")])
    if len(a) == 1:
        f = type(x).__dict__.get("__str__")
        for k in type(x).__mro__:
            f = k.__dict__.get("__str__")
            if f is not None:
                break
        if isinstance(f, types.FunctionType):
            return f(x)
    return str(*a)


def vp_format(v, spec=""):
    return vp_fstr((v, -1, spec))


def vp_chr(x):
    x = _plain(x)
    if isinstance(x, SymInt):
        if x < 0 or x > 0x10ffff:
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([x])
    return chr(x)


def vp_ord(x):
    if isinstance(x, SymSeq):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.cs[0]
    return ord(x)


def vp_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(vp_isinstance(x, c) for c in cls)
    if isinstance(x, SymInt):
        return cls in (int, object)
    if isinstance(x, SymBool):
        return cls in (bool, int, object)
    if isinstance(x, (SymStr, SymFmt)):
        return cls in (str, object)
    if isinstance(x, SymBytes):
        return cls in (bytes, object)
    if isinstance(x, SymByteArray):
        return cls in (bytearray, object)
    return isinstance(x, cls)


def vp_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, (SymStr, SymFmt)):
            return str
        if isinstance(x, SymBytes):
            return bytes
        if isinstance(x, SymByteArray):
            return bytearray
        if isinstance(x, NP._LazyIdx):
            return NP.ndarray
        return type(x)
    return type(*a)


def vp_divmod(a, b):
    return divmod(a, b)


def vp_hex(x):
    x = _plain(x)
    return hex(x.conc()) if isinstance(x, SymInt) else hex(x)


def vp_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def vp_min(*a, **k):
    return min(*a, **k)


def vp_range(*a):
    return range(*[operator.index(x) for x in a])


def vp_hash(x):
    return hash(_deep(x))


def vp_sorted(x, **k):
    return sorted(x, **k)


def vp_all(it):
    for x in it:
        if not x:
            return False
    return True


def vp_list(*a):
    if a and isinstance(a[0], (SymSeq,)):
        return [x for x in a[0]]
    return list(*a)


# ------------------------------------------------------------------ struct
def _sfmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "<"
    native = True
    if fmt and fmt[0] in "<>=!@":
        order = {"<": "<", ">": ">", "=": "<", "!": ">", "@": "<"}[fmt[0]]
        native = fmt[0] == "@"
        fmt = fmt[1:]
    items, num = [], ""
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else 1
        num = ""
        if ch == "s":
            items.append(("s", n))
        else:
            items.extend([(ch, 1)] * n)
    return order, items


_SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "?": 1, "c": 1}


def s_unpack_from(fmt, buf, offset=0):
    if isinstance(buf, NP.ndarray):
        buf = buf.tobytes()
    if isinstance(buf, SymByteArray):
        buf = mkbytes(buf)
    if isinstance(buf, (bytes, bytearray, memoryview)):
        return _struct.unpack_from(fmt, buf, offset)
    order, items = _sfmt(fmt)
    if len(buf) - offset < _struct.calcsize(fmt):
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % _struct.calcsize(fmt))
    out = []
    p = offset
    for ch, n in items:
        if ch == "s":
            out.append(mkbytes(buf.cs[p:p + n]))
            p += n
            continue
        k = _SZ[ch]
        cs = buf.cs[p:p + k]
        p += k
        if ch == "x":
            continue
        if ch == "c":
            out.append(mkbytes(cs))
            continue
        if order == ">":
            cs = cs[::-1]
        a = NP._fromlist(cs, NP._np.dtype("u1"), (k,)).view(("u" if ch.isupper() else "i") + str(k))[0].v
        out.append(a)
    return tuple(out)


def s_unpack(fmt, buf):
    n = _struct.calcsize(fmt)
    if len(buf) != n:
        raise _struct.error("unpack requires a buffer of %d bytes" % n)
    return s_unpack_from(fmt, buf, 0)


def s_pack(fmt, *vals):
    vals = [_plain(v) for v in vals]
    if not any(is_sym(v) for v in vals):
        return _struct.pack(fmt, *vals)
    order, items = _sfmt(fmt)
    out = []
    vi = 0
    for ch, n in items:
        if ch == "x":
            out.append(0)
            continue
        v = vals[vi]
        vi += 1
        if ch == "s":
            cs = list(SymBytes.lift(v))[:n]
            out.extend(cs + [0] * (n - len(cs)))
            continue
        if ch == "c":
            out.extend(SymBytes.lift(v))
            continue
        k = _SZ[ch]
        if isinstance(v, SymBool):
            v = v._int()
        lo, hi = (0, (1 << 8 * k) - 1) if ch.isupper() or ch == "?" else (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1)
        if v < lo or v > hi:
            raise _struct.error("argument out of range")
        a = NP._fromlist([v], NP._np.dtype(("u" if lo == 0 else "i") + str(k)), (1,)).tobytes()
        cs = list(SymBytes.lift(a))
        out.extend(cs if order == "<" else cs[::-1])
    return mkbytes(out)


def s_pack_into(fmt, buf, offset, *vals):
    d = s_pack(fmt, *vals)
    if isinstance(buf, NP.ndarray):
        buf[offset:offset + len(d)] = NP.frombuffer(d, "u1")
    elif isinstance(buf, SymByteArray):
        buf[offset:offset + len(d)] = list(SymBytes.lift(d))
    else:
        buf[offset:offset + len(d)] = d if isinstance(d, bytes) else d.conc()


def int_from_bytes(b, byteorder="big", signed=False):
    if isinstance(b, NP.ndarray):
        b = b.tobytes()
    if isinstance(b, (list, tuple, SymByteArray)):
        b = vp_bytes(list(b))
    if isinstance(b, bytes):
        return int.from_bytes(b, byteorder, signed=signed)
    cs = b.cs if byteorder == "little" else b.cs[::-1]
    r = 0
    for i, c in enumerate(cs):
        r = r + (c << (8 * i) if is_sym(c) else c << (8 * i))
    if signed:
        n = 8 * len(cs)
        r = ite(r >= (1 << (n - 1)), r - (1 << n), r)
    return r


# ------------------------------------------------------------------ io
class SymBytesIO:
    """io.BytesIO over possibly symbolic bytes."""

    def __init__(self, data=b""):
        self.buf = list(SymBytes.lift(vp_bytes(data)))
        self.pos = 0

    def read(self, n=-1):
        n = -1 if n is None else operator.index(n)
        e = len(self.buf) if n < 0 else self.pos + n
        r = mkbytes(self.buf[self.pos:e])
        self.pos = min(e, max(len(self.buf), self.pos))
        return r

    def write(self, d):
        cs = list(SymBytes.lift(vp_bytes(d)))
        if self.pos > len(self.buf):
            self.buf.extend([0] * (self.pos - len(self.buf)))
        self.buf[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def seek(self, p, whence=0):
        p = operator.index(p)
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.buf) + p
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return mkbytes(self.buf)

    def vp_getvalue(self):
        return mkbytes(self.buf)

    def getbuffer(self):
        return mkbytes(self.buf)

    def truncate(self, n=None):
        del self.buf[self.pos if n is None else n:]

    def close(self):
        pass

    def flush(self):
        pass

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def vp_BytesIO(*a):
    if a and (is_sym(a[0]) or isinstance(a[0], (NP.ndarray,))):
        return SymBytesIO(*a)
    return _io.BytesIO(*a)


class _Sha:
    def __init__(self, d):
        self.d = d

    def digest(self):
        # nondeterministic stub: a symbolic message hashes to "no known digest"
        return b"\0symbolic-message-digest\0"

    def hexdigest(self):
        return "0symbolic"

    def update(self, d):
        pass


def vp_sha1(*a, **k):
    if a and isinstance(a[0], NP.ndarray):
        a = (a[0].tobytes(),)
    if a and is_sym(a[0]):
        return _Sha(a[0])
    return _hashlib.sha1(*a, **k)


def vp_crc32(d, *a):
    if isinstance(d, NP.ndarray):
        d = d.tobytes()
    if is_sym(d):
        name = "crc32!%d" % len(E.ENG.vars)
        t = T.var(name, 32)
        return mkint(t)
    return _zlib.crc32(d, *a)


def vp_getattr(o, n, *d):
    return getattr(o, n.conc() if isinstance(n, SymSeq) else n, *d)


def vp_print(*a, **k):
    if CAPTURE is not None:
        CAPTURE.append(a)


CAPTURE = None

OV = {
    len: vp_len, int: vp_int, bool: vp_bool, bytes: vp_bytes, bytearray: vp_bytearray, str: vp_str,
    format: vp_format, chr: vp_chr, ord: vp_ord, isinstance: vp_isinstance, type: vp_type, hex: vp_hex,
    sum: vp_sum, range: vp_range, hash: vp_hash, list: vp_list, print: vp_print,
    _struct.unpack: s_unpack, _struct.unpack_from: s_unpack_from, _struct.pack: s_pack, _struct.pack_into: s_pack_into,
    _io.BytesIO: vp_BytesIO, _hashlib.sha1: vp_sha1, _hashlib.sha256: vp_sha1, _hashlib.md5: vp_sha1,
    _zlib.crc32: vp_crc32,
}
EXTRA = {}

_BT = (types.BuiltinFunctionType, type)


def _symarg(x):
    return is_sym(x) or isinstance(x, SymByteArray)


def vp_call(f, /, *a, **k):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        if EXTRA:
            o = EXTRA.get(f)
            if o is not None:
                return o(*a, **k)
        return f(*a, **k)
    if tf is type or tf is types.BuiltinFunctionType:
        o = EXTRA.get(f) or OV.get(f)
        if o is not None:
            return o(*a, **k)
        if tf is types.BuiltinFunctionType:
            me = f.__self__
            if isinstance(me, str):
                n = f.__name__
                if n == "format":
                    return me.format(*[_deep(x) for x in a], **{q: _deep(v) for q, v in k.items()})
                if n == "join":
                    items = list(a[0])
                    if any(_symarg(x) for x in items):
                        if any(isinstance(x, SymFmt) for x in items):
                            parts = []
                            for i, x in enumerate(items):
                                if i:
                                    parts.append(me)
                                parts.append(x)
                            return _joinparts(parts)
                        return SymStr(SymStr.lift(me)).join(items)
                    return me.join(items)
                if any(_symarg(x) for x in a):
                    return getattr(SymStr(SymStr.lift(me)), n)(*a, **k)
            elif isinstance(me, (bytes, bytearray)):
                n = f.__name__
                if n == "join":
                    items = [x.tobytes() if isinstance(x, (NP.ndarray, SymByteArray)) else x for x in a[0]]
                    if any(_symarg(x) for x in items):
                        return SymBytes(SymBytes.lift(me)).join(items)
                    return me.join(items)
                if any(_symarg(x) for x in a):
                    return getattr(SymBytes(SymBytes.lift(me)), n)(*a, **k)
            elif me is int and f.__name__ == "from_bytes":
                return int_from_bytes(*a, **k)
            elif isinstance(me, dict) and a and _symkey(a[0]) is not None and f.__name__ in ("get", "pop", "__getitem__", "setdefault"):
                sk = _symkey(a[0])
                for key in list(me):
                    if sk == key:
                        return f(key, *a[1:])
                if f.__name__ == "setdefault":
                    return f(a[0], *a[1:]) if isinstance(sk, SymInt) else f(sk.conc(), *a[1:])
                if len(a) > 1:
                    return a[1]
                if f.__name__ == "get":
                    return None
                raise KeyError(a[0])
            elif isinstance(me, int) and not isinstance(me, bool) and f.__name__ == "to_bytes":
                return f(*[_deep(x) for x in a], **k)
    try:
        o = EXTRA.get(f)
    except TypeError:
        o = None
    if o is not None:
        return o(*a, **k)
    return f(*a, **k)


def vp_where(c, k):
    """k where c is true, else 0."""
    if isinstance(c, NP.generic):
        c = c.v
    if isinstance(c, SymInt):
        c = c != 0
    if isinstance(c, SymBool):
        return c._int() if k == 1 else c._int() * k
    return k if c else 0


NAMES = {"_vp_where": vp_where, "_vp_call": vp_call, "_vp_mod": vp_mod, "_vp_fstr": vp_fstr, "_vp_in": vp_in, "_vp_sub": vp_sub, "_vp_notin": vp_notin,
         "_vp_is": vp_is, "_vp_isnot": vp_isnot, "_vp_tick": vp_tick, "_vp_reraise": vp_reraise,
         "_vp_unwinding": vp_unwinding}

_modules = {}
_code = {}
_bi = None


class _JsonShim(types.ModuleType):
    pass


def _builtins():
    """Builtins namespace whose __import__ serves numpy from the shim and the
    repository's package from instrumented source."""
    global _bi
    if _bi is None:
        _bi = types.ModuleType("builtins")
        _bi.__dict__.update(builtins.__dict__)
        _bi.__dict__.update(NAMES)
        _bi.__import__ = vp_import
    return _bi


def _find(name):
    rel = name.replace(".", "/")
    for p in SEARCH:
        f = os.path.join(p, rel, "__init__.py")
        if os.path.isfile(f):
            return f, True
        f = os.path.join(p, rel + ".py")
        if os.path.isfile(f):
            return f, False
    return None, False


SEARCH = [REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
ROOTS = ("atrcopy", "harness")


def load(name):
    m = _modules.get(name)
    if m is not None:
        return m
    if "." in name:
        load(name.rsplit(".", 1)[0])
        if name in _modules:
            return _modules[name]
    f, pkg = _find(name)
    if f is None:
        if name == "harness":
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(SEARCH[-1], "harness")]
            _modules[name] = m
            return m
        raise ModuleNotFoundError("No module named %r" % name, name=name)
    code = _code.get(f)
    if code is None:
        src = open(f, "rb").read()
        tree = ast.parse(src, f)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, f, "exec")
        _code[f] = code
    m = types.ModuleType(name)
    m.__file__ = f
    m.__package__ = name if pkg else name.rpartition(".")[0]
    if pkg:
        m.__path__ = [os.path.dirname(f)]
    m.__dict__["__builtins__"] = _builtins()
    _modules[name] = m
    try:
        exec(code, m.__dict__)
    except BaseException:
        _modules.pop(name, None)
        raise
    if "." in name:
        p, _, leaf = name.rpartition(".")
        setattr(_modules[p], leaf, m)
    return m


def vp_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals["__package__"]
        for _ in range(level - 1):
            pkg = pkg.rpartition(".")[0]
        full = pkg + "." + name if name else pkg
    else:
        full = name
    root = full.split(".")[0]
    if root == "numpy":
        return NP
    if root in ROOTS:
        m = load(full)
        if fromlist:
            for x in fromlist:
                if x != "*" and not hasattr(m, x) and hasattr(m, "__path__"):
                    try:
                        load(full + "." + x)
                    except ModuleNotFoundError as e:
                        if e.name != full + "." + x:
                            raise
            return m
        return _modules[root] if not level else m
    return builtins.__import__(name, globals, locals, fromlist, level)


def fresh():
    """Forget loaded modules (module level state) but keep compiled code."""
    _modules.clear()
