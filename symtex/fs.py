"""symtex.fs -- files with symbolic text.  Folders are real scratch folders and every file
operation of the code under test is the real one; only the symbolic characters of a file
are kept on disk as private-use characters, which become symbolic again when text is read."""
import os
import shutil
import sys
import tempfile
import types

FIRST, LAST = 0xE300, 0xF8FF
chars = []  # symbolic characters written to files on this path
_base = None
session = None  # of a virtual file system (hlib/vfs.py)
SCRATCH = os.environ.get("SYMTEX_SCRATCH")  # given by the run that this is part of


def reset():
    global session
    session = None
    tempfile.tempdir = None
    chars.clear()
    if _base is not None:
        shutil.rmtree(_base, ignore_errors=True)


def base():
    """the scratch folder of this process"""
    global _base
    if _base is None:
        _base = os.path.join(SCRATCH or tempfile.gettempdir(), "symtex-fs-%d" % os.getpid())
    return _base


def to_native(s):
    if type(s) is str:
        return s
    from .values import SymStr, SymChar
    from .core import Unsupported

    if type(s) is not SymStr:
        return s
    out = []
    for it in s.items:
        if isinstance(it, int):
            out.append(chr(it))
        elif type(it) is SymChar:
            if FIRST + len(chars) > LAST:
                raise Unsupported("too many symbolic characters in files")
            out.append(chr(FIRST + len(chars)))
            chars.append(it)
        else:
            raise Unsupported("opaque text written to a file")
    return "".join(out)


def to_symbolic(s):
    from .values import mkstr

    if not chars or not any(FIRST <= ord(c) <= LAST for c in s):
        return s
    return mkstr([chars[ord(c) - FIRST] if FIRST <= ord(c) < FIRST + len(chars) else ord(c) for c in s])


def sample(b):
    """bytes with an ordinary letter for each symbolic character"""
    out, i = bytearray(), 0
    while i < len(b):
        if 0xEE <= b[i] <= 0xEF and i + 2 < len(b):
            try:
                c = ord(bytes(b[i : i + 3]).decode("utf-8"))
            except (UnicodeDecodeError, TypeError):
                c = 0
            if FIRST <= c < FIRST + len(chars):
                out += b"x"
                i += 3
                continue
        out.append(b[i])
        i += 1
    return bytes(out)


def native_args(a):
    return [x.realize() if hasattr(x, "realize") else x for x in a]


class TextFile:
    """an open text file with symbolic text"""

    def __init__(self, text):
        self.text = text
        self.pos = 0

    def read(self, n=-1):
        end = len(self.text) if n is None or n < 0 else min(len(self.text), self.pos + n)
        s = self.text[self.pos : end]
        self.pos = end
        return to_symbolic(s)

    def readline(self):
        j = self.text.find("\n", self.pos)
        return self.read(-1 if j < 0 else j + 1 - self.pos)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while self.pos < len(self.text):
            yield self.readline()

    def seek(self, p, *a):
        self.pos = p

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Writer:
    def __init__(self, f):
        self.f = f

    def write(self, s):
        return self.f.write(to_native(s))

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)


def in_tree(path):
    """whether a path lies in the virtual file system"""
    return session is not None and not isinstance(path, int) and within_tree(path)


def within_tree(path):
    return not hasattr(path, "realize") and str(path).startswith(session.base) or hasattr(path, "realize") and bool(path.startswith(session.base))


def dispatch(name, real, lexical=None):
    """a file function of the virtual file system, if there is one, or else the real one"""

    def g(*a, **k):
        a = [x.__fspath__() if hasattr(x, "__fspath__") else x for x in a]
        if lexical and any(hasattr(x, "realize") or isinstance(x, (list, tuple)) for x in a):
            from hlib import vfs

            return vfs.LEXICAL[name](*a, **k)
        if session is not None and a and not lexical and in_tree(a[-1] if name == "symlink" else a[0]):
            return getattr(session.fsys, name)(*a, **k)
        return real(*native_args(a), **{x: native_args([v])[0] for x, v in k.items()})

    g.__name__ = name
    return g


class VPath:
    """a path of the virtual file system"""

    def __init__(self, *a):
        from hlib import vfs

        self.vfs = vfs
        a = [x.__fspath__() if hasattr(x, "__fspath__") else x for x in a] or ["."]
        self.text = vfs.normalized(vfs.join(*a))

    def __fspath__(self):
        return self.text

    def __str__(self):
        return self.text.realize() if hasattr(self.text, "realize") else self.text

    def __truediv__(self, other):
        return VPath(self.text, other)

    joinpath = __truediv__

    def __eq__(self, other):
        return hasattr(other, "text") and bool(self.text == other.text)

    def __hash__(self):
        return 0

    parts = property(lambda self: (("/",) if self.is_absolute() else ()) + tuple(self.vfs.names(self.text)))
    name = property(lambda self: self.vfs.basename(self.text))
    parent = property(lambda self: VPath(self.vfs.dirname(self.text) or "."))
    suffix = property(lambda self: self.vfs.splitext(self.name)[1])
    stem = property(lambda self: self.vfs.splitext(self.name)[0])

    @property
    def parents(self):
        out, p = [], self
        while p.parent.text is not p.text and not bool(p.parent.text == p.text):
            p = p.parent
            out.append(p)
        return out

    def is_absolute(self):
        return bool(self.text.startswith("/"))

    def resolve(self, strict=False):
        return VPath(session.fsys.realpath(self.text))

    def absolute(self):
        return VPath(self.vfs.join(os.getcwd(), self.text))

    def is_relative_to(self, other, *more):
        other = VPath(other, *more)
        return self.is_absolute() == other.is_absolute() and bool(self.vfs.within(self.vfs.names(self.text), other.vfs.names(other.text)))

    def relative_to(self, other, *more):
        other = VPath(other, *more)
        if not self.is_relative_to(other):
            raise ValueError("not in the subpath")
        return VPath("/".join(self.vfs.names(self.text)[len(other.vfs.names(other.text)) :]) or ".")

    def exists(self):
        return session.fsys.exists(self.text)

    def is_file(self):
        return session.fsys.isfile(self.text)

    def is_dir(self):
        return session.fsys.isdir(self.text)

    def is_symlink(self):
        return session.fsys.islink(self.text)

    def readlink(self):
        return VPath(session.fsys.readlink(self.text))

    def unlink(self, missing_ok=False):
        if not missing_ok or session.fsys.lexists(self.text):
            session.fsys.unlink(self.text)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            session.fsys.makedirs(self.text, exist_ok=exist_ok)
        elif not exist_ok or not self.is_dir():
            session.fsys.mkdir(self.text)

    def iterdir(self):
        return [VPath(self.text, n) for n in session.fsys.listdir(self.text)]

    def rglob(self, pattern):
        if not pattern.startswith("*") or "*" in pattern[1:]:
            from .core import Unsupported

            raise Unsupported("glob")
        for top, dirs, files in session.fsys.walk(self.text):
            for n in dirs + files:
                if n.endswith(pattern[1:]):
                    yield VPath(top, n)

    def open(self, mode="r", *a, **k):
        return session.fsys.open(self.text, mode, *a, **k)

    def read_bytes(self):
        return self.open("rb").read()

    def read_text(self, encoding=None, errors=None):
        return self.open("r", encoding=encoding, errors=errors).read()

    def write_bytes(self, data):
        return self.open("wb").write(data)


def sx_open(file, mode="r", *a, **k):
    if session is not None:
        path = file.__fspath__() if hasattr(file, "__fspath__") else file
        if in_tree(path):
            return session.fsys.open(path, mode, *a, **k)
    file, mode = native_args([file, mode])
    f = open(file, mode, *native_args(a), **{x: native_args([v])[0] for x, v in k.items()})
    if "b" in mode or not chars:
        return f
    if "r" in mode and "+" not in mode:
        with f:
            return TextFile(f.read())
    return Writer(f)


def module_with(real, **new):
    m = types.ModuleType(real.__name__)
    for n in dir(real):
        try:
            setattr(m, n, getattr(real, n))
        except Exception:
            pass
    for n, v in new.items():
        setattr(m, n, v)
    return m


def natively(f):
    def g(*a, **k):
        return f(*native_args(a), **{x: native_args([v])[0] for x, v in k.items()})

    return g


def _functions(real):
    return {n: natively(f) for n, f in vars(real).items() if isinstance(f, (types.FunctionType, types.BuiltinFunctionType))}


def install(table, builtins):
    import codecs
    import io
    import json
    import pathlib
    from .core import E
    from .values import SymStr

    E.on_path.append(reset)
    builtins["open"] = sx_open
    path = module_with(os.path, **_functions(os.path))
    osm = module_with(os, **_functions(os))
    osm.path = path
    for n in "isabs join split dirname basename splitext normpath abspath relpath commonpath commonprefix".split():
        setattr(path, n, dispatch(n, getattr(os.path, n), lexical=True))
    for n in "realpath exists lexists isfile isdir islink".split():
        setattr(path, n, dispatch(n, getattr(os.path, n)))
    for n in "readlink mkdir makedirs symlink link unlink remove listdir walk".split():
        setattr(osm, n, dispatch(n, getattr(os, n)))
    osm.open = os.open
    import tarfile
    import zipfile

    def mkdtemp(*a, **k):
        return tempfile.mkdtemp(*a, **k) if session is None else session.fsys.mkdtemp(*a, **k)

    class TemporaryDirectory:
        def __init__(self, *a, **k):
            self.name = mkdtemp()

        def cleanup(self):
            osm_shutil.rmtree(self.name, ignore_errors=True)

        def __enter__(self):
            return self.name

        def __exit__(self, *a):
            self.cleanup()

    table["tempfile"] = module_with(tempfile, mkdtemp=mkdtemp, TemporaryDirectory=TemporaryDirectory)

    def known(path):
        return session is not None and session.knows(path)

    def open_tar(name=None, mode="r", *a, **k):
        return session.open_tar(name, mode) if known(name) else tarfile.open(*native_args([name, mode, *a]), **k)

    def open_zip(file, mode="r", *a, **k):
        return session.open_zip(file, mode) if known(file) else zipfile.ZipFile(*native_args([file, mode, *a]), **k)

    table["tarfile"] = module_with(tarfile, open=open_tar, is_tarfile=lambda f: known(f) or tarfile.is_tarfile(f))
    table["zipfile"] = module_with(zipfile, ZipFile=open_zip, is_zipfile=lambda f: known(f) or zipfile.is_zipfile(f))
    table["os"] = osm
    table["os.path"] = path
    osm_shutil = table["shutil"] = module_with(shutil, **_functions(shutil))
    osm_shutil.rmtree = dispatch("rmtree", shutil.rmtree)
    table["io"] = module_with(io, open=sx_open)
    table["codecs"] = module_with(codecs, open=lambda f, mode="r", encoding=None, errors="strict", *a: sx_open(f, mode, encoding=encoding, errors=errors))

    class Path(type(pathlib.Path())):
        def __init__(self, *a):
            super().__init__(*native_args(a))

        def __new__(cls, *a, **k):
            if session is not None and a and (any(hasattr(x, "realize") or type(x) is VPath for x in a) or in_tree(a[0])):
                return VPath(*a)
            return super().__new__(cls, *native_args(a), **k)

        def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
            return sx_open(str(self), mode, encoding=encoding, errors=errors) if "b" not in mode else super().open(mode)

        def read_text(self, encoding=None, errors=None):
            with self.open("r", encoding=encoding, errors=errors) as f:
                return f.read()

        def write_text(self, data, encoding=None, errors=None, newline=None):
            with self.open("w", encoding=encoding, errors=errors) as f:
                return f.write(data)

    table["pathlib"] = module_with(pathlib, Path=Path)

    def plain(x):
        """for json, which has no say in characters that need no escape"""
        if type(x) is SymStr:
            for c in '"\\' + "".join(map(chr, range(32))):
                if c in x:
                    return x.realize()
            return to_native(x)
        if isinstance(x, dict):
            return {plain(k): plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(v) for v in x]
        return x.realize() if hasattr(x, "realize") else x

    def dumps(obj, *a, **k):
        from .values import contains_symbolic

        if not contains_symbolic(obj) or k.get("ensure_ascii", True):
            return json.dumps(native_deep(obj), *a, **k)
        return to_symbolic(json.dumps(plain(obj), *a, **k))

    def native_deep(x):
        if isinstance(x, dict):
            return {native_deep(k): native_deep(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [native_deep(v) for v in x]
        return x.realize() if hasattr(x, "realize") else x

    def back(x):
        if isinstance(x, str):
            return to_symbolic(x)
        if isinstance(x, dict):
            from .values import SymDict

            return SymDict([(back(k), back(v)) for k, v in x.items()])
        if isinstance(x, list):
            return [back(v) for v in x]
        return x

    def loads(s, *a, **k):
        return back(json.loads(plain_text(s), *a, **k))

    def plain_text(s):
        # only ever text that dumps made: its symbolic characters are within strings
        return to_native(s) if type(s) is SymStr else s

    table["json"] = module_with(json, dumps=dumps, loads=loads, dump=lambda o, f, *a, **k: f.write(dumps(o, *a, **k)), load=lambda f, *a, **k: loads(f.read(), *a, **k))
    try:
        import chardet
    except ImportError:
        return
    from chardet import universaldetector

    def detect(b, *a, **k):
        if session is not None and session.guess is not None:
            return session.guess()
        return chardet.detect(sample(b), *a, **k)

    class UniversalDetector:
        def __init__(self, *a, **k):
            self.reset()

        def reset(self):
            self.data, self.done, self.result = b"", False, {"encoding": None, "confidence": 0.0, "language": None}

        def feed(self, b):
            self.data = self.data + b

        def close(self):
            self.result = detect(self.data)
            return self.result

    table["chardet"] = module_with(chardet, detect=detect, UniversalDetector=UniversalDetector)
    table["chardet.universaldetector"] = module_with(universaldetector, UniversalDetector=UniversalDetector)
    table["codecs"].decode = lambda b, encoding="utf-8", errors="strict": b.decode(encoding, errors) if hasattr(b, "decode") else codecs.decode(b, encoding, errors)


# ---- what harnesses use


def write_tree(root, files, dirs=()):
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for rel, content in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, (bytes, bytearray)):
            with open(p, "wb") as f:
                f.write(content)
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(to_native(content))
    return root


_made = []
_undo = []


def temp_folder(symbolic):
    """a scratch folder that temporary files are made in from now on"""
    p = new_folder(symbolic)
    tempfile.tempdir = p
    return p


def pack(path, files):
    """write a real archive, by its extension (a single file for plain .gz)"""
    import gzip
    import io
    import tarfile
    import zipfile

    def content(x):
        return bytes(x) if isinstance(x, (bytes, bytearray)) else to_native(x).encode("utf-8")

    if path.endswith(".zip"):
        with zipfile.ZipFile(path, "w") as z:
            for n, x in files.items():
                z.writestr(n, content(x))
        return path
    if path.endswith((".tar.gz", ".tgz", ".tar")):
        with tarfile.open(path, "w" if path.endswith(".tar") else "w:gz") as t:
            for n, x in files.items():
                m = tarfile.TarInfo(n)
                m.size = len(content(x))
                t.addfile(m, io.BytesIO(content(x)))
        return path
    with gzip.open(path, "wb") as f:
        for x in files.values():
            f.write(content(x))
    return path


def use_files(s, symbolic):
    """let the code under test see the files and archives of a session"""
    global session
    if symbolic:
        session = s
        return
    import tarfile
    import zipfile

    while _undo:
        _undo.pop()()
    if s is None:
        return

    def swap(module, name, value):
        old = getattr(module, name)
        setattr(module, name, value)
        _undo.append(lambda: setattr(module, name, old))

    real_tar, real_zip, is_tar, is_zip = tarfile.open, zipfile.ZipFile, tarfile.is_tarfile, zipfile.is_zipfile
    swap(tarfile, "open", lambda name=None, *a, **k: s.open_tar(name) if s.knows(name) else real_tar(name, *a, **k))
    swap(zipfile, "ZipFile", lambda file, *a, **k: s.open_zip(file) if s.knows(file) else real_zip(file, *a, **k))
    swap(tarfile, "is_tarfile", lambda f: s.knows(f) or is_tar(f))
    swap(zipfile, "is_zipfile", lambda f: s.knows(f) or is_zip(f))
    swap(tempfile, "tempdir", s.base)
    if s.guess is not None:
        import chardet

        swap(chardet, "detect", s.guess)


def new_folder(symbolic):
    """an empty scratch folder"""
    if symbolic:
        n = 0
        while True:
            p = os.path.join(base(), "d%d" % n)
            if not os.path.exists(p):
                os.makedirs(p)
                return p
            n += 1
    p = tempfile.mkdtemp(prefix="symtex-run-", dir=SCRATCH)
    _made.append(p)
    return p


def clean_up():
    """the folders made in replays"""
    use_files(None, False)
    tempfile.tempdir = None
    while _made:
        shutil.rmtree(_made.pop(), ignore_errors=True)
