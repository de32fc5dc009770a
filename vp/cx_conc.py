"""Harness context, concrete side (runs on the real interpreter and numpy)."""
import numpy as np


class CheckFailed(Exception):
    def __init__(self, label, detail=None):
        Exception.__init__(self, "%s %s" % (label, detail))
        self.label = label
        self.detail = detail


class AssumeFailed(Exception):
    pass


class Cx:
    symbolic = False
    np = np

    def __init__(self, inputs):
        self.inputs = inputs
        self.reached = {}
        self.checks = 0
        self._patched = []

    def _get(self, name):
        return int(self.inputs.get(name, 0))

    def byte(self, name):
        return self._get(name) & 255

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = lo + self._get(name)
        if v > hi:
            raise AssumeFailed(name)
        return v

    def bool(self, name):
        return bool(self._get(name))

    def bytelist(self, name, n):
        return [self.byte("%s[%d]" % (name, i)) for i in range(n)]

    def bytes(self, name, n):
        return bytes(self.bytelist(name, n))

    def text(self, name, n, lo=32, hi=126):
        return "".join(chr(self.int("%s[%d]" % (name, i), lo, hi)) for i in range(n))

    def array(self, name, n):
        return np.array(self.bytelist(name, n), dtype=np.uint8)

    def choose(self, name, items):
        items = list(items)
        if len(items) == 1:
            return items[0]
        return items[self.int(name, 0, len(items) - 1)]

    def concrete(self, v):
        return v

    def mktext(self, l):
        return "".join(chr(c) for c in l)

    def mkbytes(self, l):
        return bytes([int(x) for x in l])

    def mkarray(self, l):
        return np.array([int(x) for x in l], dtype=np.uint8)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label, detail=None):
        self.checks += 1
        if not c:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=None):
        raise CheckFailed(label, detail)

    def reach(self, label):
        self.reached[label] = 1

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def all(self, it):
        return all(bool(c) for c in list(it))

    def any(self, it):
        return any(bool(c) for c in list(it))

    def eq(self, a, b):
        la, lb = self._seq(a), self._seq(b)
        if la is None or lb is None:
            return bool(a == b)
        return la == lb

    def _seq(self, x):
        if isinstance(x, np.ndarray):
            return x.reshape(-1).tolist()
        if isinstance(x, (bytes, bytearray)):
            return list(x)
        if isinstance(x, str):
            return [ord(c) for c in x]
        if isinstance(x, (list, tuple)):
            return [y.item() if isinstance(y, np.generic) else y for y in x]
        return None

    def lst(self, x):
        r = self._seq(x)
        return list(x) if r is None else r

    def plain(self, x):
        return x.item() if isinstance(x, np.generic) else x

    def fmt(self, f, *args):
        return f % tuple(args)

    def snapshot(self, arr):
        return arr.copy()

    def same_except(self, a, b, skip):
        if a.shape != b.shape:
            return False
        m = np.ones(a.shape[0], dtype=bool)
        idx = [x for x in skip if 0 <= x < len(m)]
        if idx:
            m[idx] = False
        return bool((a[m] == b[m]).all())

    def changed(self, a, b):
        return [int(i) for i in np.nonzero(a != b)[0]]

    def deepfork(self, x):
        return x

    def gather(self, n):
        pass

    def stub(self, fn, repl):
        """Replace a function for the duration of the run: fn is located by
        identity in the loaded modules."""
        import sys
        import builtins
        hit = False
        for m in [builtins] + list(sys.modules.values()):
            d = getattr(m, "__dict__", None)
            if not d:
                continue
            name = getattr(m, "__name__", "")
            if not (name == "builtins" or name.startswith("atrcopy") or name in ("os", "os.path", "posixpath", "glob", "io",
                    "gzip", "bz2", "lzma", "zipfile", "shutil", "hashlib", "zlib", "binascii")):
                continue
            for k, v in list(d.items()):
                if v is fn:
                    self._patched.append((m, k, v))
                    setattr(m, k, repl)
                    hit = True
        return hit

    def unstub(self):
        for m, k, v in reversed(self._patched):
            setattr(m, k, v)
        self._patched = []
