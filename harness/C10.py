"""C10 numbers of equations, floats and theorems"""
from symtex.api import harness, LETTERS
from hlib.common import parse, build, build_tex, walk

# (source, counter, numbered)
OBJ = [
    ("\\begin{equation}a\\end{equation}", "equation", True),
    ("\\begin{equation*}a\\end{equation*}", "equation", False),
    ("\\begin{align}a&b\\\\c&d\\end{align}", "equation", True),
    ("\\begin{align*}a&b\\end{align*}", "equation", False),
    ("\\[a\\]", "equation", False),
    ("$$a$$", "equation", False),
    ("$a$", "equation", False),
    ("\\begin{equation}a\\nonumber\\end{equation}", "equation", False),
    ("\\begin{figure}[h]a\\end{figure}", "figure", True),
    ("\\begin{figure*}\\caption{a}\\end{figure*}", "figure", True),
    ("\\begin{table}[h]\\begin{tabular}{c}a\\end{tabular}\\end{table}", "table", True),
    ("\\begin{table*}a\\end{table*}", "table", True),
    ("\\begin{tabular}{c}a\\end{tabular}", "tabular", False),
    ("\\begin{algorithm}a\\end{algorithm}", "algorithm", True),
    ("\\begin{theorem}a\\end{theorem}", "math_env", True),
    ("\\begin{lemma}[t]a\\end{lemma}", "math_env", True),
    ("\\begin{theorem*}a\\end{theorem*}", "math_env", False),
    ("\\begin{proof}a\\end{proof}", "math_env", False),
    ("\\begin{qqthm}a\\end{qqthm}", "math_env", True),
    ("\\section{s}", "section", True),
    ("\\section*{s}", "section", False),
    ("\\subsection{s}", "subsection", True),
    ("\\part{s}", "part", True),
    ("\\appendix", "appendix", True),
]
PRE = "\\newtheorem{qqthm}{Definition}"
COUNTED = ["equation", "figure", "table", "algorithm", "math_env"]


class Counters:
    def __init__(self):
        self.n = {}
        self.section = 0
        self.theorem = 0
        self.lettered = False
        self.want = []

    def add(self, kind, numbered):
        if kind == "section":
            if numbered:
                self.section += 1
                self.theorem = 0
        elif kind == "appendix":
            self.section = 0
            self.lettered = True
        elif kind == "math_env":
            num = None
            if numbered:
                self.theorem += 1
                s = "ABCDEF"[self.section - 1] if self.lettered and self.section else "%d" % self.section
                num = s + ".%d" % self.theorem
            self.want.append((kind, num))
        elif kind in COUNTED:
            num = None
            if numbered:
                self.n[kind] = self.n.get(kind, 0) + 1
                num = "%d" % self.n[kind]
            self.want.append((kind, num))


def numbers(out):
    return [(t["type"], t.get("numbering")) for t in walk(out) if t["type"] in COUNTED]


@harness(
    bounds="all sequences of 3 (thorough 4) objects out of %d kinds: equations, floats, theorems, starred or not, headings, appendix" % len(OBJ),
    covers=["done"],
)
def sequences(cx):
    n = cx.bound(3, 4)
    c = Counters()
    src = PRE
    apps = 0
    for i in range(n):
        o, kind, numbered = cx.pick("o%d" % i, OBJ)
        if kind == "appendix":
            apps += 1
        src += o + " "
        c.add(kind, numbered)
    cx.assume(apps <= 1)
    cx.cover("done")
    cx.check_eq(numbers(build_tex(cx, src)), c.want, "numbers in document order")


WRAP = [
    ("\\begin{theorem}", "\\end{theorem}", "math_env", True),
    ("\\begin{proof}", "\\end{proof}", "math_env", False),
    ("\\begin{figure}", "\\end{figure}", "figure", True),
    ("\\begin{figure}\\begin{subfigure}{1cm}", "\\end{subfigure}\\end{figure}", "figure", True),
    ("\\begin{table}", "\\end{table}", "table", True),
    ("\\begin{itemize}\\item ", "\\end{itemize}", "list", False),
    ("\\begin{itemize}\\item a\\begin{enumerate}\\item ", "\\end{enumerate}\\end{itemize}", "list", False),
    ("\\begin{center}", "\\end{center}", "group", False),
    ("\\begin{qqenv}", "\\end{qqenv}", "environment", False),
    ("\\begin{subequations}", "\\end{subequations}", "group", False),
    ("{", "}", "group", False),
    ("\\textbf{", "}", "text", False),
    ("\\footnote{", "}", "footnote", False),
    ("\\begin{quote}", "\\end{quote}", "quote", False),
    ("\\begin{abstract}", "\\end{abstract}", "abstract", False),
]
INNER = [o for o in OBJ if o[1] in COUNTED]


@harness(
    bounds="%d surroundings holding two objects of %d kinds, an equation, a theorem and a figure before and after; in a section or before the first" % (len(WRAP), len(INNER)),
    covers=["done"],
)
def nested(cx):
    l, r, kind, numbered = cx.pick("outer", WRAP)
    a, akind, anum = cx.pick("a", INNER)
    b, bkind, bnum = cx.pick("b", INNER)
    c = Counters()
    probes = [OBJ[0], OBJ[14], OBJ[8]]
    src = PRE
    if cx.flag("section"):
        src += "\\section{s}"
        c.add("section", True)
    for p in probes:
        src += p[0]
        c.add(p[1], p[2])
    src += l + a + " " + b + r
    c.add(kind, numbered)
    c.add(akind, anum)
    c.add(bkind, bnum)
    for p in probes:
        src += p[0]
        c.add(p[1], p[2])
    cx.cover("done")
    cx.check_eq(numbers(build_tex(cx, src)), c.want, "numbers in document order")


EQS = ["equation", "align", "gather", "multline", "eqnarray", "flalign", "alignat", "dmath"]


@harness(
    bounds="every equation environment, starred or not, with \\nonumber, \\notag, \\tag or a longer command name made of one of them and <=2 symbolic letters; an equation after it",
    covers=["suppressed", "longer name", "starred"],
)
def suppressed(cx):
    e = cx.pick("env", EQS)
    star = cx.pick("star", ["", "*"])
    cmd = cx.pick("cmd", ["", "\\nonumber", "\\notag", "\\tag"])
    s = cx.str("s", 0, 2, alpha="axZ")
    arg = "{2}" if e == "alignat" else ""
    src = "\\begin{" + e + star + "}" + arg + "q " + cmd + s + "{w}\\end{" + e + star + "} "
    c = Counters()
    off = cmd != "" and s == ""
    if star:
        cx.cover("starred")
    if off:
        cx.cover("suppressed")
    elif cmd:
        cx.cover("longer name")
    c.add("equation", not star and not off)
    c.add("equation", True)
    cx.check_eq(numbers(build_tex(cx, src + OBJ[0][0])), c.want, "numbers in document order")


THMS = ["theorem", "lemma", "proposition", "corollary", "definition", "conjecture", "axiom", "example", "exercise", "remark", "observation"]


@harness(
    bounds="every theorem-like environment, starred or not, capitalised or not, declared by the document under a symbolic name of 1..2 letters or used directly, in numbered or unnumbered sections",
    covers=["declared", "direct"],
)
def theorems(cx):
    t = cx.pick("t", THMS)
    star = cx.pick("star", ["", "*"])
    sec = cx.pick("sec", ["", "\\section{a}", "\\section*{a}", "\\section{a}\\section{b}", "\\chapter{a}\\subsection{b}"])
    c = Counters()
    for x in sec.split("\\")[1:]:
        c.add("section" if x[0] != "s" or x[1] == "e" else "sub", "*" not in x)
    name = t
    src = ""
    if cx.flag("declared"):
        cx.cover("declared")
        name = "q" + cx.str("n", 1, 2, alpha="aZ")
        src = "\\newtheorem{" + name + "}{" + t[0].upper() + t[1:] + "}"
    else:
        cx.cover("direct")
    use = "\\begin{" + name + star + "}a\\end{" + name + star + "}"
    src += sec + use + "\\begin{theorem}b\\end{theorem}" + use
    c.add("math_env", not star)
    c.add("math_env", True)
    c.add("math_env", not star)
    cx.check_eq(numbers(build_tex(cx, src)), c.want, "numbers in document order")


MARKS = ["", "\\nonumber", "\\notag", "\\tag{x}", " \\nonumber ", "\\label{k}"]


@harness(
    bounds="every equation environment with 1..3 rows, each with or without \\nonumber, \\notag or \\tag and a symbolic letter; an equation after it: one number unless every row is without one, in one-number environments unless any is",
    covers=["all", "some", "none"],
)
def rows(cx):
    e = cx.pick("env", EQS)
    n = cx.pick("n", [1, 2, 3])
    parts, off = [], []
    for i in range(n):
        m = cx.pick("m%d" % i, MARKS)
        parts.append(cx.str("s%d" % i, 1, 1, alpha="axZ") + "&1" + m)
        off.append("no" in m or "tag" in m)
    end = cx.pick("end", ["", "\\\\", "\\\\ "])
    src = "\\begin{" + e + "}" + ("{2}" if e == "alignat" else "") + "\\\\".join(parts) + end + "\\end{" + e + "} "
    cx.cover("all" if all(off) else "some" if any(off) else "none")
    c = Counters()
    c.add("equation", not (any(off) if e in ("equation", "multline", "dmath") else all(off)))
    c.add("equation", True)
    cx.check_eq(numbers(build_tex(cx, src + OBJ[0][0])), c.want, "numbers in document order")
