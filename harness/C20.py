"""C20 archives cannot write outside their folder and leave nothing behind"""
import os
import tarfile
from symtex.api import harness, LETTERS, DIGITS, LOWER
from latex2json.tex_file_extractor import TexFileExtractor
from latex2json.tex_reader import TexReader
from hlib.vfs import Session, member, ZipMember, parts, within, join

MAIN = b"\\documentclass{article}"
PATHS = "./ab"


def tar_or_zip(cx, fs, kind, members):
    if kind == "zip":
        return fs.archive("x.zip", [ZipMember(n + "/" if k == "d" and not n.endswith("/") else n, data) for k, n, t, data in members])
    types = {"f": tarfile.REGTYPE, "d": tarfile.DIRTYPE, "l": tarfile.SYMTYPE, "h": tarfile.LNKTYPE, "p": tarfile.FIFOTYPE, "c": tarfile.CHRTYPE}
    return fs.archive("x." + kind, [member(types[k], n, t, data) for k, n, t, data in members])


def harmless(name):
    """whether this is the name of a file below the folder, that does not go up on its way"""
    return name != "" and not name.startswith("/") and not name.endswith("/") and not any(p == ".." for p in parts(name)) and not name.endswith("/.") and name != "."


@harness(
    bounds="zip and tar archives of a main file and a file with a name of 0..4 (6) characters among point, slash and two letters (two letters or more in a row, by solver constraint, never the name of the main file)",
    covers=["harmless", "other"],
)
def names(cx):
    n = cx.str("n", 0, cx.bound(4, 6), alpha=PATHS)
    kind = cx.pick("kind", ["zip", "tar.gz", "tgz"])
    first = cx.flag("first")
    with Session(cx) as fs:
        ms = [("f", "m.tex", "", MAIN), ("f", n, "", b"data")]
        path = tar_or_zip(cx, fs, kind, ms if first else ms[::-1])
        ok = harmless(n)
        try:
            with TexFileExtractor.from_compressed(path) as (main, folder):
                cx.check_eq(fs.outside(folder), [], "nothing is written outside of the folder")
                cx.check_eq(main, "m.tex", "main file")
                cx.check_eq(fs.fsys.read(join(folder, "m.tex")), MAIN, "main file extracted")
                if ok:
                    cx.cover("harmless")
                    cx.check_eq(fs.fsys.read(join(folder, n)), b"data", "a regular member is extracted")
                else:
                    cx.cover("other")
        except (OSError, tarfile.TarError):
            if ok:
                cx.fail("extraction of a regular member fails")
            cx.check_eq(fs.outside(fs.base), [], "nothing is written outside of the folder")
        cx.check_eq(fs.fsys.listdir(fs.base), [], "the folder is removed")


def leads_outside(fs, folder):
    """links below the folder that lead out of it"""
    top = fs.fsys.place(folder)
    return [link for link in fs.fsys.all_links(folder) if not within(fs.fsys.place(link), top)]


def copies_of(fs, folder, data):
    out = []
    for name in fs.fsys.listdir(folder):
        path = join(folder, name)
        if fs.fsys.isdir(path) and not fs.fsys.islink(path):
            out += copies_of(fs, path, data)
        elif fs.fsys.read(path) == data:
            out.append(path)
    return out


@harness(
    bounds="tar archives of a symbolic or hard link with a target of 0..4 characters among point, slash, a and b, another link with a target of 1 (0..2) characters, and a file named below or as one of them, in each order; a secret file lies beside the extraction folder",
    covers=["links", "none"],
)
def links(cx):
    t = cx.str("t", 0, 4, alpha=PATHS)
    u = cx.str("u", cx.bound(1, 0), cx.bound(1, 2), alpha=PATHS)
    first = cx.pick("first", [("l", "a"), ("h", "a"), ("l", "l.tex"), ("l", "a/a")][: cx.bound(3, 4)])
    second = cx.pick("second", [("l", "b"), ("l", "a"), ("h", "b"), None][: cx.bound(3, 4)])
    third = cx.pick("third", ["a", "a/b", "b/b", "a/b/b"][: cx.bound(2, 4)])
    ms = [(first[0], first[1], t, b"")]
    if second:
        ms.append((second[0], second[1], u, b""))
    ms.append(("f", third, "", b"data"))
    if cx.flag("turned"):
        ms = ms[::-1]
    with Session(cx) as fs:
        fs.fsys.write(join(fs.base, "b"), b"secret")
        fs.fsys.created = []
        path = tar_or_zip(cx, fs, "tar.gz", [("f", "m.tex", "", MAIN)] + ms)
        try:
            with TexFileExtractor.from_compressed(path) as (main, folder):
                cx.check_eq(fs.outside(folder), [], "nothing is written outside of the folder")
                cx.check_eq(leads_outside(fs, folder), [], "no link leads out of the folder")
                cx.check_eq(copies_of(fs, folder, b"secret"), [], "no file from outside of the folder")
                cx.cover("links" if fs.fsys.all_links(folder) else "none")
        except (OSError, tarfile.TarError):
            cx.check_eq(fs.outside(fs.base), [], "nothing is written outside of the folder")
        cx.check_eq(fs.fsys.read(join(fs.base, "b")), b"secret", "files outside stay as they are")
        cx.check_eq(fs.fsys.listdir(fs.base), ["b"], "the folder is removed")


def dump(tokens):
    return [t.model_dump(mode="json", exclude_none=True) for t in tokens]


@harness(
    bounds="the kinds of archives (.zip, .tar.gz, .tgz, a tar named .gz, a plain .gz of one file) x place of the main file (at the top, in a folder, in a folder of a folder) x where the included file lies x with and without an entry for the folders, a text of 1..2 letters, digits or blanks in each file",
    covers=["several", "single"],
    tiers=("quick", "thorough"),
)
def formats(cx):
    s = cx.str("s", 1, cx.bound(1, 2), alpha=LETTERS + DIGITS + " ")
    t = cx.str("t", 1, cx.bound(1, 2), alpha=LETTERS + DIGITS + ".")
    name = cx.pick("name", ["x.zip", "x.tar.gz", "x.tgz", "x.gz", "x.tex.gz", "x.y.tar.gz", "plain.gz", "plain.tex.gz"])
    plain = name.startswith("plain")
    main = cx.pick("main", ["m.tex"] if plain else ["m.tex", "a/m.tex", "a/b c/m.tex"])
    sec = cx.pick("sec", [None] if plain else [None, "s.tex", "sub/s.tex"])
    text = "\\documentclass{article}\\title{A" + s + "}\\begin{document}\\section{B" + s + "}x" + ("\\input{" + sec + "}" if sec else t) + "\\label{l}\\end{document}"
    files = {main: text}
    top = os.path.dirname(main)
    if sec:
        files[os.path.join(top, sec)] = "p" + t + "\\newcommand{\\q}{r}\\q"
    other = cx.flag("other") if not plain else False
    if other:
        files["z.tex"] = "\\section{no main file}"
        files["fig.png"] = b"\x89PNG\x00"
    cx.cover("single" if len(files) == 1 else "several")
    temp = cx.temp_folder()
    from_folder = TexReader(logger=cx.logger).process(cx.folder(files))
    if plain:
        path = os.path.join(cx.folder(), name)
        cx.archive(path, files)
    else:
        path = os.path.join(cx.folder(), name)
        inner = path[:-3] + ".tar.gz" if name in ("x.gz", "x.tex.gz") else path
        cx.archive(inner, files)
        if inner != path:
            os.rename(inner, path)
    result = TexReader(logger=cx.logger).process(path, cleanup=True)
    cx.check_eq(dump(result.tokens), dump(from_folder.tokens), "an archive is read as the folder it holds")
    cx.check_eq(result.color_map, from_folder.color_map, "colors")
    cx.check_eq(os.listdir(temp), [], "the extracted files are removed")


@harness(
    bounds="archives that are processed, and such that hold no main file, are cut off, hold no archive at all, or whose main file cannot be read; a text of 1..3 characters; cleanup at once, later, and by leaving the context",
    covers=["ok", "fails"],
    tiers=("quick", "thorough"),
)
def cleanup(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS + " {}\\$%")
    name = cx.pick("name", ["x.zip", "x.tar.gz", "x.tgz", "x.gz"])
    what = cx.pick("what", ["document", "no main file", "empty", "cut off", "garbage", "error"])
    how = cx.pick("how", ["at once", "later", "compressed", "compressed kept", "context"])
    text = {"no main file": "x" + s, "empty": ""}.get(what, "\\documentclass{article}\\begin{document}x" + s + "\\end{document}")
    temp = cx.temp_folder()
    path = os.path.join(cx.folder(), name)
    if what == "garbage":
        with open(path, "wb") as f:
            f.write(b"PK\x03\x04 no archive")
    else:
        cx.archive(path, {"m.tex": text, "sub/t.tex": "y"} if name != "x.gz" else {"m.tex": text})
        if what == "cut off":
            with open(path, "rb") as f:
                data = f.read()
            with open(path, "wb") as f:
                f.write(data[: len(data) * 2 // 3])
    reader = TexReader(logger=cx.logger)
    if what == "error":
        reader.parser = Failing(reader.parser)
    try:
        if how == "context":
            with TexFileExtractor.from_compressed(path) as (main, folder):
                cx.check_eq(os.listdir(temp), [os.path.basename(folder)], "one folder with the extracted files")
                if what == "error":
                    raise ValueError("error of the caller")
            result = None
        elif how.startswith("compressed"):
            result = reader.process_compressed(path, cleanup=how == "compressed")
        else:
            result = reader.process(path, cleanup=how == "at once")
    except Exception as e:
        cx.check(what != "document", "a document in an archive is processed: %s" % type(e).__name__)
        cx.cover("fails")
        cx.check_eq(os.listdir(temp), [], "nothing is left behind after a failure")
        return
    cx.check(what == "document", "no error for an archive that cannot be processed")
    cx.cover("ok")
    if how in ("later", "compressed kept"):
        cx.check_eq(os.listdir(temp), [os.path.basename(str(result.temp_dir))], "the extracted files are kept until they are cleaned up")
        cx.check(os.path.exists(str(result.main_tex_path)), "the main file is kept, too")
        result.cleanup()
    cx.check_eq(os.listdir(temp), [], "the extracted files are removed")
    if result:
        result.cleanup()


class Failing:
    """a parser that fails on files"""

    def __init__(self, parser):
        self._parser = parser

    def __getattr__(self, name):
        return getattr(self._parser, name)

    def parse_file(self, path):
        raise RuntimeError("stand-in for a failure of the parser")


@harness(
    bounds="tar archives with members that are neither files nor folders nor links (fifo, device), folders named as files and links of the archive, files twice, in every order; each member name is 1..2 characters among point, slash and a",
    covers=["kept"],
    tiers=("quick", "thorough"),
)
def kinds(cx):
    n = cx.str("n", 1, cx.bound(2, 3), alpha="./a")
    kind = cx.pick("kind", ["p", "c", "d"])
    other = cx.pick("other", [("f", "a", ""), ("d", "a", ""), ("l", "a", "m.tex"), ("l", "a", "../a"), ("l", "a", "."), ("f", "a/a", ""), None])
    order = cx.pick("order", [0, 1, 2])
    ms = [(kind, n, "", b"")]
    if other:
        ms.append((other[0], other[1], other[2], b"data"))
    ms.insert(order, ("f", "m.tex", "", MAIN))
    with Session(cx) as fs:
        path = tar_or_zip(cx, fs, "tar.gz", ms)
        try:
            with TexFileExtractor.from_compressed(path) as (main, folder):
                cx.check_eq(fs.outside(folder), [], "nothing is written outside of the folder")
                cx.check_eq(leads_outside(fs, folder), [], "no link leads out of the folder")
                cx.check_eq(fs.fsys.read(join(folder, "m.tex")), MAIN, "the main file is extracted")
                cx.check_eq(copies_of(fs, folder, b"special"), [], "no devices and pipes")
                cx.cover("kept")
        except (OSError, tarfile.TarError):
            cx.check_eq(fs.outside(fs.base), [], "nothing is written outside of the folder")
        cx.check_eq(fs.fsys.listdir(fs.base), [], "the folder is removed")
