"""C25 the main document is found and decoded"""
import os
from pathlib import Path
from symtex.api import harness, LETTERS, DIGITS, LATIN1
from latex2json.tex_file_extractor import TexFileExtractor
from latex2json.tex_reader import TexReader
from latex2json.utils.encoding import read_file
from hlib.vfs import Session, join
from hlib import codec
from hlib.common import flat, squeeze

GUESSES = [
    {"encoding": e, "confidence": c, "language": None}
    for e, c in [
        (None, 0.0),
        (None, None),
        ("ascii", 1.0),
        ("utf-8", 0.99),
        ("UTF-8-SIG", 1.0),
        ("ISO-8859-1", 0.73),
        ("Windows-1252", 0.9),
        ("Windows-1252", 0.1),
        ("UTF-16", 1.0),
        ("utf-16-le", 0.9),
        ("utf-16-be", 0.5),
        ("utf-7", 0.95),
        ("no such encoding", 0.99),
    ]
]


class guesses:
    """what chardet guesses, if it is asked"""

    def __init__(self, cx):
        self.cx, self.made = cx, None

    def __call__(self, *a, **k):
        if self.made is None:
            self.made = self.cx.pick("guess", GUESSES)
        return dict(self.made)


def as_bytes(cx, s):
    """bytes, given by the Latin-1 characters with these codes"""
    return codec.wrap(s) if cx.symbolic else s.encode("latin-1")


def utf8_bytes(cx, s):
    return codec.of_text(s) if cx.symbolic else s.encode("utf-8")


def read(cx, fs, data):
    path = join(fs.base, "f.tex")
    fs.fsys.write(path, data)
    return read_file(path)


@harness(
    bounds="files of valid UTF-8: 0..3 (4) characters up to U+00FF without escapes, NULs and carriage returns, before, after, or around a character beyond, a line end, or a text as long as the sample for guesses; x 13 guesses of the encoding",
    covers=["ascii", "accents"],
)
def utf8(cx):
    s = cx.str("s", 0, cx.bound(3, 4), alpha=[c for c in range(256) if c not in (0, 13, 27)])
    around = cx.pick("around", ["%s", "\u65e5%s", "%s\u20ac", "\u201c%s\u201d\n", "%s\U0001f600", "%s\n\n\u0141", "9999%s", "9998%s\u00e9"])
    pre, post = around.split("%s")
    pre = "x" * int(pre) if pre.isdigit() else pre
    with Session(cx, guesses(cx)) as fs:
        got = read(cx, fs, pre.encode("utf-8") + utf8_bytes(cx, s) + post.encode("utf-8"))
    want = pre + s + post
    cx.cover("ascii" if s.isascii() else "accents")
    cx.check_eq(got, want, "valid UTF-8 is read unchanged")


@harness(
    bounds="files of 0..3 (4) bytes of any value but carriage return, alone or in a text of ASCII characters and of UTF-8, x 13 guesses of the encoding",
    covers=["utf-8", "other"],
)
def other(cx):
    s = cx.str("s", 0, cx.bound(3, 4), alpha=[c for c in range(256) if c != 13])
    pre, post = cx.pick("around", [("", ""), ("\\title{a}\n", "z"), ("a\u00e9\u00e9", ""), ("", "\u65e5\u672c")])
    with Session(cx, guesses(cx)) as fs:
        got = read(cx, fs, pre.encode("utf-8") + as_bytes(cx, s) + post.encode("utf-8"))
    cx.cover("utf-8" if s.isascii() else "other")
    guess = fs.guess.made["encoding"] if fs.guess.made else None
    if guess is None or "16" not in guess and guess != "utf-7":
        want = ascii_of(pre) + ascii_of(s) + ascii_of(post)
        cx.check_eq(ascii_of(got), want, "ASCII characters are kept, whatever encoding is guessed")


def ascii_of(s):
    return "".join(c for c in s if ord(c) < 128)


MARKS = ["\\documentclass{article}", "\\begin{document}", "\\documentclass[a4paper]{amsart}\n\\begin{document}x\\end{document}"]


def commented(before):
    """whether what follows this text on its line is a comment"""
    hidden, i = False, 0
    while i < len(before):
        c = before[i]
        if c == "\n":
            hidden = False
        elif c == "%":
            hidden = True
        elif c == "\\" and not hidden:
            i += 1
            if i < len(before) and before[i] == "\n":
                hidden = False
        i += 1
    return hidden


@harness(
    bounds="folders of up to three .tex files, at the top or below, and others: two files with a mark of a main document (a class, a document start, both) after 0..3 (4) characters among per cent, backslash, line end and a; another file, or a folder named like a file",
    covers=["none", "one", "both"],
    tiers=("quick", "thorough"),
)
def main(cx):
    a = cx.str("a", 0, cx.bound(2, 4), alpha="%\\\na")
    b = cx.str("b", 0, cx.bound(2, 3), alpha="%\\\na")
    names = cx.pick("names", [("a.tex", "b.tex"), ("sub/a.tex", "b.tex"), ("a.tex", "x/y/b.v2.tex")])
    marks = cx.pick("marks", [(0, 0), (0, 1), (1, 2)])
    # a backslash right before a mark makes it text after a line break
    cx.assume(not (a.endswith("\\") or b.endswith("\\")))
    files = {names[0]: "x" + a + MARKS[marks[0]] + "\ny", names[1]: "x\n" + b + MARKS[marks[1]] + "\n"}
    more = cx.pick("more", [{}, {"c.tex": "\\section{s}", "main.txt": MARKS[0], "tex": MARKS[0]}, {"c.tex/d": MARKS[0]}, {"0.tex": ""}])
    files.update(more)
    folder = cx.folder(files)
    good = [n for n, s, m in zip(names, (a, b), marks) if m == 2 or not commented(s)]
    cx.cover(["none", "one", "both"][len(good)])
    try:
        found, where = TexFileExtractor.from_folder(folder)
    except FileNotFoundError:
        cx.check(not good, "no main file is found")
        return
    cx.check(found in good, "the main file holds a document class or document start")
    cx.check_eq(os.path.realpath(where), os.path.realpath(os.path.join(folder, os.path.dirname(found))), "the folder of the main file")


ORDERS = [lambda n: sorted(n), lambda n: sorted(n, reverse=True)]


@harness(
    bounds="a folder of 4 .tex entries listed in either order: a main document and a part with 0..2 (3) symbolic characters before a mark, and two that cannot be read (a link to nowhere, a link to a folder, not allowed) or are not text; at the top or in a folder",
    covers=["one", "none"],
    tiers=("quick", "thorough"),
)
def unreadable(cx):
    s = cx.str("s", 0, cx.bound(2, 3), alpha="%\n\\a")
    cx.assume(not s.endswith("\\"))
    at = cx.pick("at", ["", "sub/"])
    names = cx.pick("names", [["a.tex", "b.tex", "c.tex", "d.tex"], ["b.tex", "d.tex", "a.tex", "c.tex"], ["b.tex", "a.tex", "c.tex", "sub/x/y.tex"], ["d.tex", "c.tex", "b.tex", "a.tex"]])
    bad = cx.pick("bad", ["nowhere", "folder", "loop", "bytes"])
    order = cx.pick("order", ORDERS)
    files = {at + names[0]: s + MARKS[cx.pick("mark", [0, 1])], at + names[1]: "\\section{a}"}
    for i in (2, 3):
        if bad == "bytes":
            files[at + names[i]] = bytes(range(128, 256)) + b"\0\xff\xfe"
    folder = cx.folder(files, [at + "folder", at + "sub/x"])
    for i in (2, 3):
        if bad != "bytes":
            link = os.path.join(folder, at + names[i])
            os.symlink({"nowhere": os.path.join(folder, "gone.tex"), "folder": os.path.join(folder, at + "folder"), "loop": link}[bad], link)
    walk = os.walk

    def listed(top, *a, **k):
        # the order in which a folder is listed is up to the file system
        for root, dirs, found in walk(top, *a, **k):
            dirs[:] = order(dirs)
            yield root, dirs, order(found)

    os.walk = listed
    try:
        found, where = TexFileExtractor.from_folder(folder)
    except FileNotFoundError:
        cx.cover("none")
        cx.check(commented(s), "the main file is found")
        return
    finally:
        os.walk = walk
    cx.cover("one")
    cx.check_eq(found, at + names[0], "the main file")
    cx.check_eq(os.path.realpath(where), os.path.realpath(os.path.join(folder, os.path.dirname(found))), "its folder")


@harness(
    bounds="folders with two main documents and a part of one, with a text of 1..2 letters each; the folder, each file by its path (relative and absolute, with and without a dot) is processed; a name that does not exist",
    covers=["folder", "file", "missing"],
    tiers=("quick", "thorough"),
)
def explicit(cx):
    s = cx.str("s", 1, 2, alpha=LETTERS)
    t = cx.str("t", 1, 2, alpha=LETTERS)
    folder = cx.folder({
        "sub/a.tex": MARKS[0] + "\\begin{document}A" + s + "\\input{part}\\end{document}",
        "sub/part.tex": "P" + t,
        "part.tex": "Q" + s,
        "b.tex": MARKS[0] + "\\begin{document}B" + t + "\\input{part}\\end{document}",
        "c.tex": "C" + s,
    })
    name = cx.pick("name", ["", "sub/a.tex", "b.tex", "part.tex", "c.tex", "sub", "sub/../b.tex", "./sub/part.tex", "d.tex", "sub/b.tex", "e"])
    reader = TexReader(logger=cx.logger)
    path = os.path.join(folder, name)
    path = cx.pick("as", [str, Path])(path)
    known = {"sub/a.tex": "A" + s + "P" + t, "b.tex": "B" + t + "Q" + s, "part.tex": "Q" + s, "c.tex": "C" + s, "sub": "A" + s + "P" + t, "sub/../b.tex": "B" + t + "Q" + s, "./sub/part.tex": "P" + t}
    try:
        result = reader.process(path)
    except FileNotFoundError:
        cx.cover("missing")
        cx.check(name not in known and name != "", "a file that exists is processed")
        return
    got = squeeze(flat([x.model_dump(mode="json", exclude_none=True) for x in result.tokens]))
    if name == "":
        cx.cover("folder")
        cx.check(got == known["b.tex"] or got == known["sub/a.tex"], "one of the main files")
    else:
        cx.cover("file")
        cx.check(name in known, "a file that does not exist is not processed")
        cx.check_eq(got, known[name], "the file that is named is processed")
