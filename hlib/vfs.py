"""A small POSIX file system whose names may be symbolic, and stand-ins for archives.

In symbolic runs the file functions of the code under test work on a `Tree`; in replays they
are the real ones, within a scratch folder.  In both, archives are stand-ins: what they
extract follows the real modules, but nothing is ever written outside of the scratch folder:
such a write is recorded instead."""
import errno
import io
import os
import tarfile
import tempfile
import zipfile
from hlib import codec


# ---- paths as text


def isabs(path):
    return path.startswith("/")


def join(path, *more):
    for p in more:
        if p.startswith("/"):
            path = p
        elif path == "" or path.endswith("/"):
            path = path + p
        else:
            path = path + "/" + p
    return path


def split(path):
    i = path.rfind("/") + 1
    head, tail = path[:i], path[i:]
    if head != "" and head != "/" * len(head):
        head = head.rstrip("/")
    return head, tail


def dirname(path):
    return split(path)[0]


def basename(path):
    return split(path)[1]


def splitext(path):
    i, j = path.rfind("."), path.rfind("/") + 1
    k = j
    while k < i:
        if path[k] != ".":
            return path[:i], path[i:]
        k += 1
    return path, ""


def parts(path):
    return [c for c in path.split("/") if c != "" and c != "."]


def normpath(path):
    if path == "":
        return "."
    absolute = path.startswith("/")
    out = []
    for c in parts(path):
        if c != ".." or (not absolute and (out == [] or out[-1] == "..")):
            out.append(c)
        elif out:
            out.pop()
    s = "/".join(out)
    if absolute:
        return "/" + s
    return s if out else "."


def abspath(path):
    return normpath(path if isabs(path) else join(os.getcwd(), path))


def relpath(path, start=None):
    a = parts(abspath(path))
    b = parts(abspath(start if start is not None else os.getcwd()))
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return "/".join([".."] * (len(b) - n) + a[n:]) or "."


def commonpath(paths):
    paths = list(paths)
    if not paths:
        raise ValueError("commonpath() arg is an empty sequence")
    absolute = isabs(paths[0])
    if any(isabs(p) != absolute for p in paths):
        raise ValueError("Can't mix absolute and relative paths")
    split_paths = [parts(p) for p in paths]
    out = []
    for i, c in enumerate(split_paths[0]):
        if any(len(p) <= i or p[i] != c for p in split_paths):
            break
        out.append(c)
    return ("/" if absolute else "") + "/".join(out)


def commonprefix(paths):
    paths = list(paths)
    n = 0
    while all(len(p) > n for p in paths) and all(p[n] == paths[0][n] for p in paths):
        n += 1
    return paths[0][:n] if paths else ""


def normalized(path):
    """as pathlib writes it"""
    return ("/" if isabs(path) else "") + "/".join(parts(path)) or "."


def names(path):
    return parts(path)


LEXICAL = dict(
    isabs=isabs, join=join, split=split, dirname=dirname, basename=basename, splitext=splitext,
    normpath=normpath, abspath=abspath, relpath=relpath, commonpath=commonpath, commonprefix=commonprefix,
)


def within(path, folder):
    """whether the parts of the path begin with those of the folder"""
    return len(path) >= len(folder) and all(a == b for a, b in zip(path, folder))


# ---- the tree


class Node:
    def __init__(self, kind, data=b"", target=None):
        self.kind = kind  # dir, file, link
        self.data = data
        self.target = target
        self.children = []


def failed(code, path):
    return OSError(code, os.strerror(code), "...")


class Tree:
    """the file system of symbolic runs"""

    def __init__(self, base):
        self.root = Node("dir")
        self.base = base
        self.created = []  # the places that were written to, in parts
        self.n_temp = 0
        self.makedirs(base, exist_ok=True)
        self.created = []

    # resolution

    def child(self, node, name):
        for n, c in node.children:
            if n == name:
                return c
        return None

    def resolve(self, path, follow=True, strict=False):
        """names and nodes (None where there is none) of the real place of a path"""
        stack = [("", self.root)]
        todo = parts(path if isabs(path) else join(os.getcwd(), path))
        hops = []
        lexical = folder_only = False
        while todo:
            c, todo = todo[0], todo[1:]
            here = stack[-1][1]
            if strict and (here is None or here.kind != "dir"):
                raise failed(errno.ENOENT if here is None else errno.ENOTDIR, path)
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            node = None if here is None or lexical else self.child(here, c)
            if node is not None and node.kind == "link" and (todo or follow):
                if any(h is node for h in hops) and (strict or len(hops) > 40 or self.loops(node, hops)):
                    if strict:
                        raise failed(errno.ELOOP, path)
                    lexical = True
                    stack.append((c, None))
                    continue
                hops.append(node)
                folder_only = folder_only or (not todo and (node.target.endswith("/") or node.target.endswith("/.")))
                todo = parts(node.target) + todo
                if isabs(node.target):
                    stack = [("", self.root)]
                continue
            stack.append((c, node))
        if strict and folder_only and (stack[-1][1] is None or stack[-1][1].kind != "dir"):
            raise failed(errno.EISDIR, path)
        return stack

    def loops(self, node, hops):
        return sum(1 for h in hops if h is node) > 8

    def place(self, path, follow=True):
        return [n for n, _ in self.resolve(path, follow)[1:]]

    def node(self, path, follow=True):
        """the node at a path, or None"""
        try:
            return self.resolve(path, follow, strict=True)[-1][1]
        except OSError:
            return None

    def spot(self, path, follow=True):
        """the folder node and name where a path leads"""
        stack = self.resolve(path, follow, strict=True)
        if len(stack) < 2:
            raise failed(errno.EISDIR, path)
        return stack[-2][1], stack[-1][0], stack[-1][1]

    def put(self, path, node, follow=True):
        folder, name, old = self.spot(path, follow)
        if old is not None:
            raise failed(errno.EEXIST, path)
        folder.children.append([name, node])
        self.created.append(self.place(path, follow))

    # what os and os.path offer

    def realpath(self, path, strict=False):
        return "/" + "/".join(self.place(path))

    def exists(self, path):
        return self.node(path) is not None

    def lexists(self, path):
        return self.node(path, False) is not None

    def isfile(self, path):
        n = self.node(path)
        return n is not None and n.kind == "file"

    def isdir(self, path):
        n = self.node(path)
        return n is not None and n.kind == "dir"

    def islink(self, path):
        n = self.node(path, False)
        return n is not None and n.kind == "link"

    def readlink(self, path):
        n = self.node(path, False)
        if n is None or n.kind != "link":
            raise failed(errno.EINVAL, path)
        return n.target

    def mkdir(self, path, mode=0o777):
        self.put(path, Node("dir"), False)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        n = self.node(path)
        if n is not None:
            if exist_ok and n.kind == "dir":
                return
            raise FileExistsError(errno.EEXIST, "exists", "...")
        head = dirname(path.rstrip("/"))
        if head != "" and head != path and self.node(head) is None:
            self.makedirs(head, exist_ok=True)
        if not self.exists(path):
            self.mkdir(path)

    def symlink(self, target, path):
        if target == "":
            raise failed(errno.ENOENT, target)
        self.put(path, Node("link", target=target), False)

    def link(self, source, path, follow_symlinks=True):
        n = self.node(source, False)
        if n is None:
            raise failed(errno.ENOENT, source)
        if n.kind == "dir":
            raise failed(errno.EPERM, source)
        self.put(path, n, False)

    def unlink(self, path):
        folder, name, node = self.spot(path, False)
        if node is None:
            raise failed(errno.ENOENT, path)
        if node.kind == "dir":
            raise failed(errno.EISDIR, path)
        folder.children = [e for e in folder.children if e[1] is not node or e[0] != name]

    remove = unlink

    def rmtree(self, path, ignore_errors=False, *a, **k):
        if self.islink(path) or not self.isdir(path):
            if ignore_errors:
                return
            raise failed(errno.ENOTDIR if self.lexists(path) else errno.ENOENT, path)
        folder, name, node = self.spot(path)
        folder.children = [e for e in folder.children if e[1] is not node]

    def listdir(self, path="."):
        n = self.node(path)
        if n is None or n.kind != "dir":
            raise failed(errno.ENOTDIR, path)
        return [e[0] for e in n.children]

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        n = self.node(top)
        if n is None or n.kind != "dir":
            return
        dirs = [e[0] for e in n.children if self.isdir(join(top, e[0]))]
        files = [e[0] for e in n.children if not self.isdir(join(top, e[0]))]
        if topdown:
            yield top, dirs, files
        for d in dirs:
            if followlinks or not self.islink(join(top, d)):
                yield from self.walk(join(top, d), topdown, onerror, followlinks)
        if not topdown:
            yield top, dirs, files

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        self.n_temp += 1
        path = join(dir or self.base, "tmp%d" % self.n_temp)
        before = self.created
        self.mkdir(path)
        self.created = before
        return path

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        if "w" in mode or "a" in mode or "x" in mode:
            self.write(path, b"")
            return Writer(self, path)
        n = self.node(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "no such file", "...")
        if n.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "is a folder", "...")
        if "b" in mode:
            return io.BytesIO(n.data) if isinstance(n.data, bytes) else Reader(n.data)
        if "U" in mode or encoding is not None and not isinstance(encoding, str):
            raise TypeError("invalid argument for open")
        s = codec.decode(n.data, encoding or "utf-8", errors or "strict")
        return Reader(codec.lines(s, newline))

    # what the stand-ins need

    def write(self, path, data):
        """as open(path, "wb").write(data)"""
        folder, name, old = self.spot(path)
        if old is None:
            self.put(path, Node("file", data))
        elif old.kind == "dir":
            raise failed(errno.EISDIR, path)
        else:
            old.data = data
            self.created.append(self.place(path))

    def read(self, path):
        n = self.node(path)
        return n.data if n is not None and n.kind == "file" else None

    def all_links(self, path):
        out = []
        for top, dirs, files in self.walk(path):
            out += [join(top, f) for f in files + dirs if self.islink(join(top, f))]
        return out


class Reader:
    """an open file with symbolic contents"""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        s = self.data[self.pos : end]
        self.pos = end
        return s

    def readline(self):
        j = self.data.find("\n" if hasattr(self.data, "upper") else b"\n", self.pos)
        return self.read(-1 if j < 0 else j + 1 - self.pos)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while self.pos < len(self.data):
            yield self.readline()

    def seek(self, p, *a):
        self.pos = p

    def tell(self):
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Writer:
    def __init__(self, tree, path):
        self.tree, self.path, self.data = tree, path, b""

    def write(self, data):
        self.data += data if isinstance(data, bytes) else data.encode("utf-8")
        self.tree.write(self.path, self.data)
        return len(data)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Real:
    """the same on the real file system, within the base folder"""

    def __init__(self, base):
        self.base = os.path.realpath(base)
        self.created = []
        os.makedirs(self.base, exist_ok=True)

    def allowed(self, path, follow):
        place = os.path.realpath(path) if follow else join(os.path.realpath(dirname(path)), basename(path))
        self.created.append(parts(place))
        return within(parts(place), parts(self.base))

    def place(self, path, follow=True):
        return parts(os.path.realpath(path))

    realpath = staticmethod(os.path.realpath)
    exists = staticmethod(os.path.exists)
    lexists = staticmethod(os.path.lexists)
    isdir = staticmethod(os.path.isdir)
    islink = staticmethod(os.path.islink)
    listdir = staticmethod(os.listdir)

    def mkdir(self, path):
        if self.allowed(path, False):
            os.mkdir(path)

    def makedirs(self, path, exist_ok=False):
        if not os.path.exists(path):
            head = dirname(path.rstrip("/"))
            if head and head != path:
                self.makedirs(head)
            if not os.path.exists(path):
                self.mkdir(path)

    def symlink(self, target, path):
        if self.allowed(path, False):
            os.symlink(target, path)

    def link(self, source, path):
        if self.allowed(path, False) and self.inside_base(source):
            os.link(source, path, follow_symlinks=False)

    def inside_base(self, path):
        return within(parts(os.path.realpath(path)), parts(self.base))

    def unlink(self, path):
        if self.allowed(path, False):
            os.unlink(path)

    def write(self, path, data):
        if self.allowed(path, True):
            with open(path, "wb") as f:
                f.write(data)

    def read(self, path):
        if not os.path.isfile(path) or not self.inside_base(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    def all_links(self, path):
        out = []
        for top, dirs, files in os.walk(path):
            out += [join(top, f) for f in files + dirs if os.path.islink(join(top, f))]
        return out


# ---- archives


class Tar:
    """a tarfile.TarFile of these members, opened for reading"""

    def __init__(self, fsys, members):
        self.fsys = fsys
        self.members = members  # TarInfo with .data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def getmembers(self):
        return list(self.members)

    def __iter__(self):
        return iter(self.members)

    def getnames(self):
        return [m.name for m in self.members]

    def getmember(self, name, before=None):
        known = before is None
        for m in reversed(self.members):
            if known and (m.name is name or m.name == name):
                return m
            known = known or m is before
        raise KeyError("filename not found")

    def extractall(self, path=".", members=None, *, numeric_owner=False, filter=None):
        for m in self.members if members is None else members:
            self.extract(m, path, filter=filter)

    def extractfile(self, member):
        m = self.getmember(member) if not isinstance(member, tarfile.TarInfo) else member
        if m.islnk() or m.issym():
            name = m.linkname if m.islnk() else normpath(join(dirname(m.name), m.linkname))
            return self.extractfile(self.getmember(name))
        return io.BytesIO(m.data) if m.isreg() else None

    def filtered(self, m, path, filter):
        """what tarfile.tar_filter and data_filter refuse"""
        if filter is None or filter == "fully_trusted" or filter is getattr(tarfile, "fully_trusted_filter", 0):
            return m
        if filter == "data" or filter == "tar" or filter in (tarfile.data_filter, tarfile.tar_filter):
            data = filter == "data" or filter is tarfile.data_filter
            name = m.name.lstrip("/")
            top = parts(self.fsys.realpath(path))
            if not within(self.fsys.place(join(path, name)), top):
                raise tarfile.OutsideDestinationError(m, "...")
            if data and (m.islnk() or m.issym()):
                if isabs(m.linkname):
                    raise tarfile.AbsoluteLinkError(m)
                at = join(path, dirname(name)) if m.issym() else path
                if not within(self.fsys.place(join(at, m.linkname)), top):
                    raise tarfile.LinkOutsideDestinationError(m, "...")
            elif data and not (m.isfile() or m.isdir()):
                raise tarfile.SpecialFileError(m)
            return member(m.type, name, m.linkname, m.data)
        return filter(m, path)

    def extract(self, m, path="", set_attrs=True, *, numeric_owner=False, filter=None):
        fsys = self.fsys
        m = self.getmember(m) if not isinstance(m, tarfile.TarInfo) else m
        m = self.filtered(m, path, filter)
        if m is None:
            return
        target = join(path, m.name).rstrip("/")
        upper = dirname(target)
        if upper != "" and not fsys.exists(upper):
            fsys.makedirs(upper, exist_ok=True)
        if m.isreg():
            fsys.write(target, m.data)
        elif m.isdir():
            if not fsys.lexists(target):
                fsys.mkdir(target)
            elif not fsys.isdir(target):
                raise FileExistsError(errno.EEXIST, "exists", "...")
        elif m.issym():
            if fsys.lexists(target):
                fsys.unlink(target)
            fsys.symlink(m.linkname, target)
        elif m.islnk():
            source = join(path, m.linkname)
            if fsys.exists(source):
                fsys.link(source, target)
            else:
                try:
                    linked = self.getmember(m.linkname, before=m)
                except KeyError:
                    raise tarfile.ExtractError("unable to resolve link inside archive")
                self.extract(member(linked.type, m.name, linked.linkname, linked.data), path)
        else:
            fsys.write(target, b"special")


def member(kind, name, linkname="", data=b""):
    m = Member("x")
    m.name, m.type, m.linkname, m.size = name, kind, linkname, len(data)
    m.data = data
    return m


class Member(tarfile.TarInfo):
    pass


class ZipMember:
    def __init__(self, filename, data):
        self.filename = filename
        self.data = data
        self.file_size = self.compress_size = len(data)
        self.external_attr = 0
        self.compress_type = 0
        self.flag_bits = 0
        self.date_time = (1980, 1, 1, 0, 0, 0)

    def is_dir(self):
        return self.filename.endswith("/")


class Zip:
    """a zipfile.ZipFile of these members, opened for reading"""

    def __init__(self, fsys, members):
        self.fsys = fsys
        self.members = members
        self.filelist = members

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def namelist(self):
        return [m.filename for m in self.members]

    def infolist(self):
        return list(self.members)

    def getinfo(self, name):
        for m in reversed(self.members):
            if m is name or m.filename is name or m.filename == name:
                return m
        raise KeyError("There is no item named ... in the archive")

    def read(self, name, pwd=None):
        return self.getinfo(name).data

    def open(self, name, mode="r", pwd=None):
        return io.BytesIO(self.read(name))

    def testzip(self):
        return None

    def extractall(self, path=None, members=None, pwd=None):
        for m in self.namelist() if members is None else members:
            self.extract(m, path)

    def extract(self, member, path=None, pwd=None):
        fsys = self.fsys
        m = self.getinfo(member)
        path = os.getcwd() if path is None else path
        names = [c for c in parts(m.filename) if c != ".."]
        target = normpath(join(path, "/".join(names)))
        upper = dirname(target)
        if upper != "" and not fsys.exists(upper):
            fsys.makedirs(upper, exist_ok=True)
        if m.is_dir():
            if not fsys.isdir(target):
                fsys.mkdir(target)
            return target
        fsys.write(target, m.data)
        return target


class Session:
    """with Session(cx) as fs: ... the code under test sees the archives made by fs"""

    def __init__(self, cx, guess=None):
        self.cx = cx
        self.archives = {}
        self.guess = guess  # what chardet says about encodings

    def __enter__(self):
        self.scratch = self.cx.folder({}, ["a/b/c/d/work"])
        self.base = os.path.join(self.scratch, "a/b/c/d/work")
        self.fsys = Tree(self.base) if self.cx.symbolic else Real(self.base)
        self.cx.use_files(self)
        return self

    def __exit__(self, *a):
        self.cx.use_files(None)
        return False

    def archive(self, name, members):
        """a tar or zip archive, by its extension"""
        path = os.path.join(self.scratch, name)
        with open(path, "wb") as f:
            f.write(b"\x1f\x8b stand-in")
        self.archives[path] = members
        return path

    def open_tar(self, name=None, mode="r", *a, **k):
        return Tar(self.fsys, self.archives[str(name)])

    def open_zip(self, file, mode="r", *a, **k):
        return Zip(self.fsys, self.archives[str(file)])

    def knows(self, path):
        return str(path) in self.archives

    def outside(self, top):
        """what was written outside of a folder"""
        return [p for p in self.fsys.created if not within(p, parts(top))]
