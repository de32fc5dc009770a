"""A file system in memory.  It stands in for open() and the os / os.path
functions while a command runs, so that nothing real can be touched and every
access is recorded."""
import builtins
import bz2
import functools
import glob
import gzip
import io
import lzma
import os
import shutil
import tempfile

TMP = tempfile.gettempdir()
ROOT = "/w"        # the current directory of the commands


# the real functions, out of reach of the stand-ins
SYS = {"open": functools.partial(os.open), "unlink": functools.partial(os.unlink), "file": functools.partial(builtins.open),
       "exists": functools.partial(os.path.exists), "isdir": functools.partial(os.path.isdir), "isfile": functools.partial(os.path.isfile),
       "listdir": functools.partial(os.listdir), "glob": functools.partial(glob.glob)}


class VFile:
    def __init__(self, fs, key, mode, text):
        self.fs, self.key, self.text = fs, key, text
        self.name = key
        self.mode = mode
        self.closed = False
        self.at = 0
        self.w = mode[0] in "wax" or "+" in mode
        self.dirty = False
        self._real = None
        self.whole = b"" if mode[0] in "wx" else fs.content(key)
        self._buf = None
        if mode[0] == "a":
            self.at = len(self.whole)
        if self.w:
            self.flush()

    # the content is either one bytes object or, once it is worked on, a list
    @property
    def buf(self):
        if self._buf is None:
            self._buf = self.fs.cx.lst(self.whole)
            self._buf = list(self._buf)
        return self._buf

    @buf.setter
    def buf(self, v):
        self._buf = v

    def readable(self):
        return True

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def read(self, n=-1):
        if (n is None or n < 0) and self.at == 0 and self._buf is None:
            self.at = len(self.whole)
            return self.whole.decode("utf-8") if self.text else self.whole
        if n is None or n < 0:
            n = len(self.buf)
        r = self.buf[self.at:self.at + n]
        self.at += len(r)
        r = self.fs.cx.mkbytes(r)
        return r.decode("utf-8") if self.text else r

    def write(self, data):
        if not self.w:
            raise io.UnsupportedOperation("not writable")
        if self.text:
            data = data.encode("utf-8")
        if self.at == 0 and self._buf is None and len(self.whole) == 0 and not hasattr(data, "dtype"):
            self.whole = data
            self.at = len(data)
            self.flush()
            return len(data)
        d = self.fs.cx.lst(data)
        self.buf[self.at:self.at + len(d)] = d
        self.at += len(d)
        self.flush()
        return len(d)

    def writelines(self, items):
        for i in items:
            self.write(i)

    # numpy writes through the descriptor
    def fileno(self):
        if self._real is None:
            path = os.path.join(TMP, "vfs-%d-%d" % (os.getpid(), id(self)))
            self._real = SYS["open"](path, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o600)
            SYS["unlink"](path)
        return self._real

    def flush(self):
        if self.w:
            self.fs.put(self.key, self.whole if self._buf is None else self.fs.cx.mkbytes(self._buf))

    def tell(self):
        if self._real is not None:
            return os.lseek(self._real, 0, 1)
        return self.at

    def seek(self, n, whence=0):
        if self._real is not None:
            return os.lseek(self._real, n, whence)
        self.at = n if whence == 0 else self.at + n if whence == 1 else len(self.buf) + n
        return self.at

    def truncate(self, n=None):
        n = self.at if n is None else n
        self.buf = self.buf[:n] + [0] * (n - len(self.buf))
        self.flush()
        return n

    def close(self):
        if self._real is not None:
            os.lseek(self._real, 0, 0)
            d = b""
            while True:
                x = os.read(self._real, 1 << 20)
                if not x:
                    break
                d += x
            os.close(self._real)
            self._real = None
            if d:
                self.whole, self._buf = d, None
        if not self.closed:
            self.flush()
        self.closed = True

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _refuse(*a, **k):
    raise OSError("not compressed data")


def _refuse_lzma(*a, **k):
    raise lzma.LZMAError("not compressed data")


def nocodecs(cx):
    """Images here are not compressed: the decompressors refuse the data."""
    for m in (gzip, bz2, lzma):
        for n in ("GzipFile", "BZ2File", "LZMAFile", "open", "decompress"):
            if hasattr(m, n):
                cx.stub(getattr(m, n), _refuse_lzma if m is lzma else _refuse)


class VFS:
    """files: list of [path, bytes]; dirs: list of paths.  Paths are absolute
    and may contain symbolic characters."""

    def __init__(self, cx, real=()):
        self.cx = cx
        self.files = []
        self.dirs = ["/", ROOT]
        self.log = []
        self.real = ["/dev/urandom"] + list(real)     # existing paths that may be read for real
        self.said = []

    # -- content
    def norm(self, path):
        path = self.fspath(path)
        if not path.startswith("/"):
            path = ROOT + "/" + path
        parts = []
        for p in path.split("/"):
            if len(p) == 0 or p == ".":
                continue
            if p == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(p)
        return "/" + "/".join(parts)

    def fspath(self, p):
        if hasattr(p, "__fspath__"):
            p = p.__fspath__()
        return p

    def find(self, key):
        for f in self.files:
            if f[0] == key:
                return f
        return None

    def content(self, key):
        return self.find(key)[1]

    def put(self, key, data):
        f = self.find(key)
        if f is None:
            self.files.append([key, data])
        else:
            f[1] = data

    def add(self, path, data):
        self.put(self.norm(path), data.tobytes() if hasattr(data, "tobytes") else self.cx.mkbytes(self.cx.lst(data)))

    def has(self, path):
        return self.find(self.norm(path)) is not None

    def get(self, path):
        return self.content(self.norm(path))

    def isdirkey(self, key):
        for d in self.dirs:
            if d == key:
                return True
        return False

    def isreal(self, key):
        if not isinstance(key, str):
            return False
        return any(key == r or key.startswith(r + "/") for r in self.real)

    def parent(self, key):
        i = key.rfind("/")
        return key[:i] if i > 0 else "/"

    # -- stand-ins
    def open(self, file, mode="r", *a, **k):
        key = self.norm(file)
        binary = "b" in mode
        w = mode[0] in "wax" or "+" in mode
        if not w and self.isreal(key):
            return SYS["file"](key, mode, *a, **k)
        if self.isdirkey(key):
            raise IsADirectoryError(21, "Is a directory", str(file))
        f = self.find(key)
        if w:
            if mode[0] == "x" and f is not None:
                raise FileExistsError(17, "File exists")
            if not self.isdirkey(self.parent(key)):
                raise FileNotFoundError(2, "No such file or directory")
            if f is None and mode[0] == "r":
                raise FileNotFoundError(2, "No such file or directory")
            self.log.append(("write", key, f is not None))
        elif f is None:
            raise FileNotFoundError(2, "No such file or directory")
        else:
            self.log.append(("read", key, True))
        return VFile(self, key, mode, not binary)

    def exists(self, path):
        key = self.norm(path)
        if self.isreal(key):
            return SYS["exists"](key)
        return self.isdirkey(key) or self.find(key) is not None

    def isfile(self, path):
        key = self.norm(path)
        if self.isreal(key):
            return SYS["isfile"](key)
        return self.find(key) is not None

    def isdir(self, path):
        key = self.norm(path)
        if self.isreal(key):
            return SYS["isdir"](key)
        return self.isdirkey(key)

    def getsize(self, path):
        f = self.find(self.norm(path))
        if f is None:
            raise FileNotFoundError(2, "No such file or directory")
        return len(f[1])

    def access(self, path, mode, *a, **k):
        return self.exists(path)

    def mkdir(self, path, *a, **k):
        key = self.norm(path)
        if self.isdirkey(key) or self.find(key) is not None:
            raise FileExistsError(17, "File exists")
        if not self.isdirkey(self.parent(key)):
            raise FileNotFoundError(2, "No such file or directory")
        self.log.append(("mkdir", key, False))
        self.dirs.append(key)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        key = self.norm(path)
        if self.isdirkey(key):
            if not exist_ok:
                raise FileExistsError(17, "File exists")
            return
        if not self.isdirkey(self.parent(key)):
            self.makedirs(self.parent(key), mode, True)
        self.mkdir(key)

    def remove(self, path, *a, **k):
        key = self.norm(path)
        f = self.find(key)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory")
        self.log.append(("remove", key, True))
        self.files = [x for x in self.files if x is not f]

    def rename(self, src, dst, *a, **k):
        s, d = self.norm(src), self.norm(dst)
        f = self.find(s)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory")
        g = self.find(d)
        self.log.append(("remove", s, True))
        self.log.append(("write", d, g is not None))
        data = f[1]
        self.files = [x for x in self.files if x is not f]
        self.put(d, data)
        return dst

    def copyfile(self, src, dst, *a, **k):
        if self.isdir(dst):
            dst = self.join(dst, self.basename(src))
        with self.open(src, "rb") as i:
            with self.open(dst, "wb") as o:
                o.write(i.read())
        return dst

    def osopen(self, path, flags, *a, **k):
        if path in ("/dev/urandom", "/dev/null", b"/dev/urandom"):
            return SYS["open"](path, flags, *a, **k)
        raise OSError(95, "not available")

    def forbidden(self, *a, **k):
        raise OSError(95, "not available")

    # path arithmetic on text that may be symbolic
    def join(self, a, *p):
        a = self.fspath(a)
        for b in p:
            b = self.fspath(b)
            if b.startswith("/"):
                a = b
            elif len(a) == 0 or a.endswith("/"):
                a = a + b
            else:
                a = a + "/" + b
        return a

    def split(self, p):
        p = self.fspath(p)
        i = p.rfind("/") + 1
        head, tail = p[:i], p[i:]
        if len(head) and head != "/" * len(head):
            head = head.rstrip("/")
        return head, tail

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def splitext(self, p):
        p = self.fspath(p)
        sep = p.rfind("/")
        dot = p.rfind(".")
        if dot > sep:
            i = sep + 1
            while i < dot:
                if p[i] != ".":
                    return p[:dot], p[dot:]
                i += 1
        return p, p[:0]

    def isabs(self, p):
        return self.fspath(p).startswith("/")

    def abspath(self, p):
        return self.norm(p)

    def normpath(self, p):
        p = self.fspath(p)
        root = "/" if p.startswith("/") else ""
        parts = []
        for x in p.split("/"):
            if len(x) == 0 or x == ".":
                continue
            if x == "..":
                if parts and parts[-1] != "..":
                    parts.pop()
                    continue
                if root:
                    continue
            parts.append(x)
        r = root + "/".join(parts)
        return r if len(r) else "."

    def relpath(self, p, start=ROOT):
        p, s = self.norm(p), self.norm(start)
        if p == s:
            return "."
        if p.startswith(s + "/"):
            return p[len(s) + 1:]
        return p

    def commonpath(self, ps):
        ps = [self.norm(p).split("/")[1:] for p in ps]
        out = []
        for i in range(min(len(p) for p in ps)):
            if all(bool(p[i] == ps[0][i]) for p in ps):
                out.append(ps[0][i])
            else:
                break
        return "/" + "/".join(out)

    def getcwd(self):
        return ROOT

    def listdir(self, path="."):
        key = self.norm(path)
        if self.isreal(key):
            return SYS["listdir"](key)
        return [f[0][len(key) + 1:] for f in self.files if self.parent(f[0]) == key]

    def glob(self, pattern, *a, **k):
        pattern = self.norm(pattern)
        if isinstance(pattern, str) and self.isreal(self.parent(pattern)):
            return SYS["glob"](pattern)
        return []

    def say(self, *a, **k):
        self.said.append(a[0] if len(a) == 1 else a)

    def install(self):
        cx = self.cx
        P = os.path
        cx.stub(print, self.say)
        cx.stub(builtins.open, self.open)
        nocodecs(cx)
        if cx.symbolic:
            cx.stub(glob.glob, self.glob)
        for f, r in ((P.exists, self.exists), (P.lexists, self.exists), (P.isfile, self.isfile), (P.isdir, self.isdir), (P.getsize, self.getsize),
                     (P.join, self.join), (P.split, self.split), (P.basename, self.basename), (P.dirname, self.dirname), (P.splitext, self.splitext),
                     (P.isabs, self.isabs), (P.abspath, self.abspath), (P.realpath, self.abspath), (P.normpath, self.normpath), (P.relpath, self.relpath),
                     (P.commonpath, self.commonpath),
                     (os.access, self.access), (os.mkdir, self.mkdir), (os.makedirs, self.makedirs), (os.remove, self.remove), (os.unlink, self.remove),
                     (os.rename, self.rename), (os.replace, self.rename), (os.getcwd, self.getcwd), (os.listdir, self.listdir),
                     (shutil.copyfile, self.copyfile), (shutil.copy, self.copyfile), (shutil.copy2, self.copyfile), (shutil.move, self.rename),
                     (shutil.rmtree, self.forbidden), (os.rmdir, self.forbidden), (os.link, self.forbidden), (os.symlink, self.forbidden),
                     (os.open, self.osopen), (os.truncate, self.forbidden)):
            cx.stub(f, r)

    # -- what happened
    def changes(self):
        return [x for x in self.log if x[0] != "read"]
