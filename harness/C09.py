"""C09 section hierarchy and section numbers"""
from symtex.api import harness, PLAIN
from hlib.common import parse, build, text
from latex2json.structure.builder import TokenBuilder

# (command, kind, level, numbered)
HEADS = [
    ("\\part", "section", 0, True), ("\\part*", "section", 0, False),
    ("\\chapter", "section", 1, True), ("\\section", "section", 1, True), ("\\section*", "section", 1, False),
    ("\\subsection", "section", 2, True), ("\\subsection*", "section", 2, False),
    ("\\subsubsection", "section", 3, True), ("\\subsubsection*", "section", 3, False),
    ("\\paragraph", "paragraph", 1, None), ("\\subparagraph", "paragraph", 2, None), ("\\subparagraph*", "paragraph", 2, None),
]
FEW = [HEADS[i] for i in (0, 3, 4, 5, 7, 9, 10)]


class Outline:
    """the expected tree, written down directly from LaTeX's rules"""

    def __init__(self):
        self.root = []
        self.open = []  # (rank, content) of the headings still open
        self.count = [0] * 7
        self.letters = False

    def here(self):
        return self.open[-1][1] if self.open else self.root

    def add(self, token):
        self.here().append(token)

    def number(self, level):
        for l in range(level + 1, 7):
            if level >= 1:
                self.count[l] = 0
        self.count[level] += 1
        if level == 0:
            return "%d" % self.count[0]
        first = "ABCDEFGHI"[self.count[1] - 1] if self.letters and self.count[1] else "%d" % self.count[1]
        if self.letters and not self.count[1]:
            first = "@"
        return ".".join([first] + ["%d" % self.count[l] for l in range(2, level + 1)])

    def head(self, kind, level, numbered, title):
        rank = level if kind == "section" else 10 + level
        while self.open and self.open[-1][0] >= rank:
            self.open.pop()
        t = {"type": kind, "title": title, "level": level, "content": []}
        if kind == "section" and numbered:
            t["numbering"] = self.number(level)
        self.here().append(t)
        self.open.append((rank, t["content"]))

    def appendix(self):
        t = {"type": "appendix", "content": []}
        (self.outer if self.letters else self.root).append(t)
        if not self.letters:
            self.outer = self.root
        self.root = t["content"]
        self.open = []
        self.count = [self.count[0]] + [0] * 6
        self.letters = True

    def result(self):
        return self.outer if self.letters else self.root


def trim(ts):
    out = []
    for t in ts:
        t = dict(t)
        if t["type"] == "bibliography":
            out.append("BIB")
            continue
        if t["type"] == "text":
            t["content"] = t["content"].strip()
        if isinstance(t["content"], list):
            t["content"] = trim(t["content"])
        out.append(t)
    return out


@harness(
    bounds="all sequences of <=3 (thorough 4) headings out of 12 kinds, starred or not, text before, between and after them; the last title and text symbolic",
    covers=["done"],
)
def sequences(cx):
    n = cx.pick("n", list(range(1, cx.bound(4, 5))))
    o = Outline()
    src = "a0 "
    o.add(text("a0"))
    for i in range(n):
        cmd, kind, level, numbered = cx.pick("h%d" % i, HEADS)
        if i == n - 1:
            title, body = cx.str("t", 1, 2, alpha=PLAIN), cx.str("b", 1, 2, alpha=PLAIN)
            cx.assume("--" not in title and "--" not in body)
        else:
            title, body = "t%d" % i, "b%d" % i
        src += cmd + "{" + title + "}" + body + "\n\n"
        o.head(kind, level, numbered, [text(title)])
        o.add(text(body))
    got = build(cx, parse(cx, src))
    cx.cover("done")
    cx.check_eq(trim(got), o.result(), "section tree")


@harness(
    bounds="all sequences of <=3 (thorough 4) headings out of 7 kinds with \\appendix (or a bibliography) before any of them or at the end; with and without preprocessing",
    covers=["appendix", "bibliography"],
)
def appendix(cx):
    n = cx.pick("n", list(range(1, cx.bound(4, 5))))
    k = cx.pick("k", list(range(0, n + 1)))
    what = cx.pick("what", ["\\appendix", "\\appendices", "\\begin{thebibliography}{9}\\bibitem{k} r\\end{thebibliography}"])
    pre = cx.flag("pre")
    o = Outline()
    src = ""
    for i in range(n + 1):
        if i == k:
            src += what + "\n"
            if what[1] == "a":
                cx.cover("appendix")
                o.appendix()
            else:
                cx.cover("bibliography")
                o.open = []
                o.add("BIB")
        if i < n:
            cmd, kind, level, numbered = cx.pick("h%d" % i, FEW)
            src += cmd + "{t%d}b%d\n" % (i, i)
            o.head(kind, level, numbered, [text("t%d" % i)])
            o.add(text("b%d" % i))
    got = build(cx, parse(cx, src, pre))

    cx.check_eq(trim(got), o.result(), "section tree")


@harness(
    bounds="token sequences given to the builder directly: <=5 (thorough 6) headings of 7 kinds with appendix at any place or nowhere",
    covers=["done", "appendix"],
)
def deep_sequences(cx):
    n = cx.bound(5, 6)
    kinds = [("section", 0), ("section", 1), ("section", 2), ("section", 3), ("paragraph", 1)]
    k = cx.pick("k", [-1, 2, n])
    star = cx.pick("star", [-1, 1, 3])
    toks = []
    o = Outline()
    for i in range(n):
        if i == k:
            toks.append({"type": "appendix"})
            o.appendix()
            cx.cover("appendix")
        kind, level = cx.pick("h%d" % i, kinds)
        t = {"type": kind, "level": level, "title": [text("t%d" % i)]}
        if kind == "section":
            t["numbered"] = i != star
        toks.append(t)
        o.head(kind, level, i != star, [text("t%d" % i)])
    got = TokenBuilder(logger=cx.logger).organize_content(toks)

    def norm(ts):
        out = []
        for t in ts:
            t = dict(t)
            if "numbered" in t:
                del t["numbered"]
            t["content"] = norm(t["content"]) if t["type"] != "text" else t["content"]
            out.append(t)
        return out

    cx.cover("done")
    cx.check_eq(norm(got), o.result(), "section tree")


@harness(
    bounds="a heading of each kind (starred or not, symbolic title of <=3 characters, one of 6 short titles or none) inside each of 6 surroundings, followed by text",
    covers=["done"],
)
def placed(cx):
    cmd, kind, level, numbered = cx.pick("h", HEADS)
    t = cx.str("t", 0, 3, alpha=PLAIN)
    cx.assume("--" not in t and "``" not in t)
    sp = cx.pick("sp", ["", " ", "\n", "[s]", " [sub] ", "[s*]", "[{a]}]", "[\\emph{s}]", "[]"])
    l, r, depth = cx.pick("in", [("", "", 0), ("{", "}", 0), ("\\begin{document}", "\\end{document}", 0), ("\\begin{center}", "\\end{center}", 1), ("\\begingroup ", "\\endgroup", 0), ("x ", "", 0)])
    got = parse(cx, l + cmd + sp + "{" + t + "} b" + r)
    from hlib.common import of_type, flat

    hs = of_type(got, kind)
    cx.cover("done")
    cx.check(len(hs) == 1, "one heading")
    cx.check_eq(flat(hs[0]["title"]), t.strip(), "its title")
    cx.check_eq(hs[0]["level"], level, "its level")
    if kind == "section":
        cx.check_eq(hs[0].get("numbered"), numbered, "numbered or not")
    cx.check(flat(got).strip().endswith("b"), "the text after it")


DEEP = [("\\" + "sub" * i + "section" + star, "section", i + 1, not star) for i in range(5) for star in ("", "*") if i != 1 or not star]


@harness(
    bounds="all sequences of 4 (thorough 5) headings of 6 kinds, from sections down to four levels below, some starred; \\appendix at one place or nowhere",
    covers=["done", "appendix"],
)
def depths(cx):
    n = cx.bound(4, 5)
    kinds = [DEEP[i] for i in (0, 2, 3, 5, 7)] + [("\\paragraph", "paragraph", 1, None)]
    k = cx.pick("k", [-1, 3])
    starred = cx.pick("starred", [-1, 0, 2])
    o = Outline()
    src = ""
    for i in range(n):
        if i == k:
            cx.cover("appendix")
            src += "\\appendix\n"
            o.appendix()
        cmd, kind, level, numbered = cx.pick("h%d" % i, kinds)
        if i == starred:
            cmd, numbered = cmd + "*", False
        src += cmd + "{t%d}b%d\n" % (i, i)
        o.head(kind, level, numbered, [text("t%d" % i)])
        o.add(text("b%d" % i))
    cx.cover("done")
    cx.check_eq(trim(build(cx, parse(cx, src))), o.result(), "section tree")
