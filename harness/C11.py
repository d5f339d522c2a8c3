"""C11 labels end up on the object they label"""
from symtex.api import harness, LETTERS, DIGITS, PRINTABLE
from hlib.common import parse, build, build_tex, walk, flat

# (source with <1>, <2> for labels and <0> for one of the surrounding object,
#  the labelled tokens in reading order, the text contributed)
FRAG = [
    ("\\begin{equation}a<1>\\end{equation}", [("equation", "1")], "<a>"),
    ("\\begin{align}<1>a&b\\\\c&d<2>\\end{align}", [("equation", "12")], "<a&b\\\\c&d>"),
    ("\\[<1>a\\]", [("equation", "1")], "<a>"),
    ("$$a<1>$$", [("equation", "1")], "<a>"),
    ("$a<1>$", [("equation", "1")], "<a>"),
    ("\\begin{figure}x<1>\\caption{y}\\end{figure}", [("figure", "1")], "xy"),
    ("\\begin{figure}\\caption{y}<1>\\end{figure}<0>", [("caption", "1")], "y"),
    ("\\begin{figure}\\caption{y<1>}<2>\\end{figure}", [("caption", "12")], "y"),
    ("\\begin{figure}<1>\\caption{x}<2>\\caption{y}\\end{figure}", [("figure", "1"), ("caption", "2")], "xy"),
    ("\\begin{table}\\begin{tabular}{c}x<1>\\end{tabular}<2>\\end{table}", [("table", "12")], "x"),
    ("\\begin{itemize}\\item x<1>\\item[y] z<2>\\end{itemize}<0>", [("item", "1"), ("item", "2")], "xz"),
    ("\\begin{enumerate}\\item x<1>\\begin{itemize}\\item y<2>\\end{itemize}z<3>\\item w\\end{enumerate}", [("item", "13"), ("item", "2")], "xyzw"),
    ("\\begin{theorem}[t]<1>x\\end{theorem}", [("math_env", "1")], "x"),
    ("\\begin{theorem}x\\begin{proof}y<2>\\end{proof}<1>\\end{theorem}", [("math_env", "1"), ("math_env", "2")], "xy"),
    ("\\begin{quote}x<1>\\end{quote}", [("quote", "1")], "x"),
    ("\\begin{minipage}{1cm}x<1>\\end{minipage}", [("group", "1")], "x"),
    ("\\begin{qqenv}x<1>\\end{qqenv}y<0>", [("environment", "1")], "xy"),
    ("x\\footnote{y<1>}z<0>", [("footnote", "1")], "xyz"),
    ("x\\footnote{y $a<1>$}z", [("equation", "1")], "xy<a>z"),
    ("\\begin{algorithm}<1>x\\end{algorithm}", [("algorithm", "1")], "x"),
    ("x<0>y", [], "xy"),
    ("<0>", [], ""),
    ("{\\bf x<0>}\\textit{y<0>}", [], "xy"),
    ("%<1>\nx", [], "x"),
    ("\\ref{k}x\\cite{k}<0>", [], None),
    ("\\begin{center}x\\end{center}<0>", [], "x"),
    ("\\begin{tabular}{c}x\\end{tabular}<0>", [], "x"),
    ("\\includegraphics{k}<0>", [], None),
]

OUTER = [
    ("\\section{s}", "", "section"),
    ("\\section*{s}", "", "section"),
    ("\\section{s}\\subsection{t}", "", "section"),
    ("\\section{s}\\paragraph{t}", "", "paragraph"),
    ("\\part{s}", "", "section"),
    ("\\section{s}\\begin{figure}", "\\end{figure}", "figure"),
    ("\\section{s}\\begin{table}", "\\end{table}", "table"),
    ("\\begin{itemize}\\item ", "\\end{itemize}", "item"),
    ("\\begin{itemize}\\item q\\begin{enumerate}\\item[r] ", "\\item p\\end{enumerate}\\end{itemize}", "item"),
    ("\\begin{theorem}", "\\end{theorem}", "math_env"),
    ("\\section{s}\\begin{proof}", "\\end{proof}", "math_env"),
    ("\\begin{quote}", "\\end{quote}", "quote"),
    ("\\section{s}\\begin{minipage}{1cm}", "\\end{minipage}", "group"),
    ("\\begin{qqenv}", "\\end{qqenv}", "environment"),
    ("\\section{s}\\footnote{", "}", "footnote"),
    ("\\begin{document}\\section{s}", "\\end{document}", "section"),
]


def labelled(out):
    return [(t["type"], t["labels"]) for t in walk(out) if t.get("labels")]


def add(src, frag, k, want, outer):
    s = frag[0]
    for d in "123":
        s = s.replace("<" + d + ">", "\\label{l%d%s}" % (k, d))
    parts = s.split("<0>")
    for i in range(len(parts) - 1):
        outer.append("o%d.%d" % (k, i))
        parts[i] += "\\label{o%d.%d}" % (k, i)
    for typ, ds in frag[1]:
        want.append((typ, ["l%d%s" % (k, d) for d in ds]))
    return src + "".join(parts)


@harness(
    bounds="every surrounding of %d kinds holding two fragments of %d kinds with up to three labels each, and a label of its own at the end" % (len(OUTER), len(FRAG)),
    covers=["done"],
    excludes="groups and unknown environments that hold nothing but labels (empty ones yield no token)",
)
def attachment(cx):
    l, r, typ = cx.pick("outer", OUTER)
    f1 = cx.pick("f1", FRAG)
    f2 = cx.pick("f2", FRAG)
    pre = cx.flag("pre")
    want = []
    outer = []
    src = add(l, f1, 1, want, outer)
    src = add(src + " ", f2, 2, want, outer)
    if cx.flag("end"):
        src += " \\label{end}"
        outer.append("end")
    src += r
    cx.assume(typ not in ("group", "environment") or f1[2] != "" or f2[2] != "")
    want = ([(typ, outer)] if outer else []) + want
    cx.cover("done")
    out = build_tex(cx, src, pre)
    cx.check_eq(labelled(out), want, "labels and the tokens that carry them")
    cx.check("label" not in flat(out), "no label in the text")


HEAD = ["\\section{h}", "\\section*{h}", "\\subsection{h}", "\\part{h}", "\\paragraph{h}", "\\subparagraph{h}", "\\chapter{h}"]


@harness(
    bounds="all sequences of 3 (thorough 4) headings of 7 kinds, each with 0 to 2 labels right after it or after its text or an environment",
    covers=["done"],
)
def headings(cx):
    n = cx.bound(3, 4)
    src = ""
    want = []
    for i in range(n):
        h = cx.pick("h%d" % i, HEAD)
        ls = cx.pick("l%d" % i, ["", "<>", "<> t <>", " t <>", "\\begin{itemize}\\item a\\end{itemize}<>"])
        src += h
        parts = ls.split("<>")
        labels = []
        for j in range(len(parts) - 1):
            labels.append("k%d%d" % (i, j))
            parts[j] += "\\label{k%d%d}" % (i, j)
        src += "".join(parts)
        if labels:
            want.append(("section" if "section" in h or "part" in h or "chapter" in h else "paragraph", labels))
    cx.cover("done")
    cx.check_eq(labelled(build_tex(cx, src)), want, "labels and the tokens that carry them")


NAMECHARS = LETTERS + DIGITS + ":.-_*+/'^ ,;!?()=&#~"
TARGET = [
    ("\\section{s}<>t", "section"),
    ("\\section{s}t <> u", "section"),
    ("\\section{s}\\begin{equation}a<>b\\end{equation}", "equation"),
    ("\\section{s}\\[<>a\\]", "equation"),
    ("\\begin{figure}\\caption{c}<>\\end{figure}", "caption"),
    ("\\begin{table}<>a\\end{table}", "table"),
    ("\\begin{enumerate}\\item a<>\\end{enumerate}", "item"),
    ("\\begin{lemma}[u]<>a\\end{lemma}", "math_env"),
    ("\\begin{proof}<>a\\end{proof}", "math_env"),
    ("\\section{s}a\\footnote{b<>}", "footnote"),
]


@harness(
    bounds="label names of 1..4 (thorough 8) symbolic characters over letters, digits and name punctuation, a nested brace pair or none, on every kind of labelled object, with and without a second label",
    covers=["braces", "two"],
    excludes="names holding backslashes, percent or unbalanced braces; leading and trailing blanks",
)
def names(cx):
    src, typ = cx.pick("target", TARGET)
    s = cx.str("s", 1, cx.bound(4, 8), alpha=NAMECHARS)
    cx.assume(s == s.strip())
    if cx.flag("braces"):
        cx.cover("braces")
        s = "x{" + s + "}y"
    lab = "\\label{" + s + "}"
    want = [s]
    if cx.flag("two"):
        cx.cover("two")
        lab += "\\label{two}"
        want = [s, "two"]
    out = build_tex(cx, src.replace("<>", lab))
    cx.check_eq(labelled(out), [(typ, want)], "the label's name")


@harness(
    bounds="a label and 1..3 (thorough 5) symbolic characters before and after it, in section, item, caption, footnote and theorem text",
    covers=["done"],
)
def text_kept(cx):
    l, r = cx.pick("place", [("\\section{s}", ""), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\\begin{figure}\\caption{", "}\\end{figure}"), ("\\section{s}\\footnote{", "}"), ("\\begin{theorem}", "\\end{theorem}")])
    a = cx.str("a", 1, cx.bound(3, 5), alpha=LETTERS + DIGITS + ".,:;()[]")
    b = cx.str("b", 1, cx.bound(3, 5), alpha=LETTERS + DIGITS + ".,:;()[]")
    cx.cover("done")
    cx.assume(l[-1] == "}" or l[-1] == "{" or a[0] != "[")
    cx.assume(a[0] != "[")
    out = build_tex(cx, l + a + "\\label{k}" + b + r)
    cx.check_eq(flat(out), a + b, "text around a label")
    cx.check_eq([x[1] for x in labelled(out)], [["k"]], "one label")


SUBFLOATS = [
    ("\\subfloat[a<l>]{b}", "caption"), ("\\subfloat[a]{b<l>}", "caption"), ("\\subfloat[s][a<l>]{b}", "caption"), ("\\subfigure[a<l>]{b}", "caption"), ("\\subtable[a]{b<l>}", "caption"), ("\\subcaptionbox{a<l>}{b}", "caption"),
    ("\\subcaptionbox[s]{a<l>}[2cm]{b}", "caption"), ("\\subcaptionbox{a}{b<l>}", "caption"), ("\\subfloat{b<l>}", "figure"), ("\\begin{subfigure}{2cm}b\\caption{a}<l>\\end{subfigure}", "caption"), ("\\begin{subfigure}{2cm}b<l>\\end{subfigure}", "subfigure"),
]


@harness(
    bounds="a label with a name of 1-2 symbolic letters and digits in the caption or content of a sub-float (%d forms) in a figure, alone or with another one and with the figure's own caption and label" % len(SUBFLOATS),
    covers=["alone", "both"],
)
def subfloat(cx):
    form, kind = cx.pick("form", SUBFLOATS)
    k = cx.str("k", 1, 2, alpha=LETTERS + DIGITS)
    both = cx.flag("both")
    cx.cover("both" if both else "alone")
    src = form.replace("<l>", "\\label{" + k + "}")
    want = [(kind, [k])]
    if both:
        other, kind2 = cx.pick("other", SUBFLOATS[:1] + SUBFLOATS[9:])
        src += other.replace("<l>", "\\label{o-}") + "\\caption{w}\\label{w-}"
        want += [(kind2, ["o-"]), ("caption", ["w-"])]
    out = build_tex(cx, "x\\begin{figure}" + src + "\\end{figure}y")
    got = labelled(out)
    want = sorted(want, key=lambda t: t[0] != "figure")
    cx.check_eq(sorted(got, key=lambda t: t[0] != "figure"), want, "labels and the tokens that carry them")
