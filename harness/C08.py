"""C08 documents do not influence each other"""
import os
from symtex.api import harness, LETTERS
from hlib.common import build, flat, squeeze
from hlib import forms
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
from latex2json.tex_reader import TexReader

# (first document, second document): what the first one sets, the second one would show
STATE = [
    ("\\newcommand{\\q@}{first}", "x \\q@{} y"),
    ("\\newcommand{\\q@}[2][d]{first#1#2}", "x \\q@{a} y"),
    ("\\def\\q@#1.{first#1}", "x \\q@ a. y"),
    ("\\edef\\q@{first}", "x \\q@ y"),
    ("\\let\\q@=\\textbf", "x \\q@{a} y"),
    ("\\newcommand{\\s}{first}\\let\\q@=\\s", "x \\q@{a} y"),
    ("\\DeclareMathOperator{\\q@}{first}", "$x \\q@ y$"),
    ("\\DeclarePairedDelimiter{\\q@}{<}{>}", "$x \\q@{a} y$"),
    ("\\expandafter\\def\\csname q@\\endcsname{first}", "x \\q@{} \\csname q@\\endcsname y"),
    ("\\@namedef{q@}{first}", "x \\q@{} y"),
    ("\\newif\\ifq@\\q@true", "x \\ifq@ a\\else b\\fi y"),
    ("\\newif\\ifq@", "x \\q@true \\q@false y"),
    ("\\newtoggle{q@}\\toggletrue{q@}", "x \\iftoggle{q@}{a}{b} y"),
    ("\\newlength{\\q@}\\newcounter{q@}", "x \\q@{} y"),
    ("\\newtheorem{q@}{First}", "\\begin{q@}[t]a\\end{q@} y"),
    ("\\newtheorem*{q@}{First}", "\\begin{q@}a\\end{q@} y"),
    ("\\newenvironment{q@}[1]{first #1}{last}", "\\begin{q@}{a}b\\end{q@} y"),
    ("\\renewenvironment{quote}{first}{last}", "\\begin{quote}a\\end{quote} y"),
    ("\\newenvironment{theorem}{first}{last}", "\\begin{theorem}a\\end{theorem} y"),
    ("\\newfloat{q@}{t}{l}\\floatname{q@}{First}", "\\begin{q@}a\\end{q@} y"),
    ("\\floatname{algorithm}{First}", "\\begin{algorithm}a\\end{algorithm} y"),
    ("\\definecolor{q@}{HTML}{112233}", "\\textcolor{q@}{a} {\\color{q@} b} y"),
    ("\\sbox{\\q@}{first}\\savebox{\\q@}{first}", "x \\usebox{\\q@} y"),
    ("\\setbox\\q@\\hbox{first}", "x \\box\\q@ \\copy\\q@ y"),
    ("\\begin{lrbox}{\\q@}first\\end{lrbox}", "x \\usebox{\\q@} y"),
    ("\\setbox3\\hbox{first}", "x \\box3 \\copy3 y"),
    ("\\defcitealias{q@}{First}", "x \\citetalias{q@} \\citepalias{q@} y"),
    ("\\define@key{f}{q@}[c]{first #1}", "\\setkeys{f}{q@=b} \\setkeys{f}{q@} y"),
    ("\\newcolumntype{q@}{c}", "\\begin{tabular}{q@}a\\end{tabular}"),
    ("\\foreach \\q@ in {a,b} {\\q@}", "x \\q@{} y"),
    ("\\newcommand{\\s}{a}\\pretocmd{\\s}{first}{}{}", "\\newcommand{\\s}{b}\\s y"),
    ("\\section{a}\\label{q@}", "x \\label{q@}\\ref{q@}"),
    ("\\begin{figure}a", "x \\label{q@} y"),
    ("\\footnote{a}", "x \\label{q@} y"),
    ("\\caption{a}", "\\label{q@} y"),
    ("a\\section{b}", "\\label{q@} y"),
    ("\\q@{a}", "x \\q@{b} y"),
    ("\\begin{q@}a\\end{q@}", "\\begin{q@}b\\end{q@} y"),
    ("\\appendix\\section{a}", "\\section{b}\\begin{theorem}a\\end{theorem}"),
    ("\\section{a}\\begin{equation}a\\end{equation}\\begin{figure}\\caption{a}\\end{figure}", "\\section{b}\\begin{equation}b\\end{equation}\\begin{figure}\\caption{a}\\end{figure}\\begin{theorem}a\\end{theorem}\\part{c}"),
    ("\\part{a}\\begin{table}\\caption{a}\\end{table}\\begin{algorithm}a\\end{algorithm}", "\\part{b}\\begin{table}\\caption{a}\\end{table}\\begin{algorithm}a\\end{algorithm}"),
    ("a ", "b"),
    ("a {", "b"),
    ("\\begin{verbatim}a", "b\\end{verbatim}"),
    ("\\verb|a|", "\\verb|b|"),
    ("\\bibitem{q@} a", "\\cite{q@}"),
    ("\\newcommand{\\section}{first}", "\\section{a} y"),
    ("\\def\\textbf{first}", "\\textbf{a} y"),
    ("\\newcommand{\\'}{first}", "\\'{e} y"),
    ("{\\bf a", "b"),
    ("\\documentclass{revtex}\\usepackage[a]{b}", "x \\author{a}\\affiliation{b} y"),
    ("\\newcommand\\q@{\\begin{itemize}}", "x \\q@{} y"),
    ("\\makeatletter\\def\\q@{first}\\makeatother", "x \\q@{} y"),
    ("\\crefname{q@}{a}{b}", "\\cref{q@}"),
    ("\\pgfkeys{/q@/.code=first}", "\\pgfkeys{/q@=a} y"),
    ("\\tikzset{q@/.style={first}}", "\\begin{tikzpicture}[q@]a\\end{tikzpicture}"),
    ("\\titleformat{\\section}{first}{a}{1pt}{b}", "\\section{a} y"),
]
NAMES = "QZ"


def fill(doc, n):
    return n.join(doc.split("@"))


def run(cx, p, doc, pre):
    return p.parse(doc, preprocess=pre)


def fresh(cx, doc, pre):
    return run(cx, LatexParser(logger=cx.logger), doc, pre)


@harness(
    bounds="each of %d state-setting documents with a symbolic name of 1..2 letters, then clear(), then the document that would show that state, its name symbolic too; with and without preprocessing on either side" % len(STATE),
    covers=["same name", "other name", "pre"],
)
def cleared(cx):
    a, b = cx.pick("state", STATE)
    n = cx.str("n", 1, 2, alpha=NAMES)
    m = cx.str("m", 1, 2, alpha=NAMES)
    pre_a, pre_b = cx.flag("pre_a"), cx.flag("pre_b")
    p = LatexParser(logger=cx.logger)
    run(cx, p, fill(a, n), pre_a)
    p.clear()
    doc = fill(b, m)
    got = run(cx, p, doc, pre_b)
    cx.cover("same name" if n == m else "other name")
    if pre_a:
        cx.cover("pre")
    cx.check_eq(got, fresh(cx, doc, pre_b), "cleared parser behaves like a fresh one")
    cx.check_eq(p.get_colors(), {}, "no colours left") if "color" in a else None


@harness(
    bounds="each of the %d setting documents followed by each of the %d showing documents (thorough: both orders of preprocessing)" % (len(STATE), len(STATE)),
    covers=["done"],
)
def cleared_cross(cx):
    a = cx.pick("a", [s[0] for s in STATE])
    b = cx.pick("b", [s[1] for s in STATE])
    n = cx.str("n", 1, 1, alpha=NAMES)
    pre = cx.pick("pre", cx.bound([False], [False, True]))
    p = LatexParser(logger=cx.logger)
    run(cx, p, fill(a, n), pre)
    p.clear()
    doc = fill(b, n)
    got = run(cx, p, doc, pre)
    cx.cover("done")
    cx.check_eq(got, fresh(cx, doc, pre), "cleared parser behaves like a fresh one")


PROBE = (
    "x \\qa{}\\qb{} \\begin{qa}[t]a\\end{qa}\\begin{theorem}a\\end{theorem}\\usebox{\\qa}\\textcolor{a}{b}"
    "\\setkeys{qa}{b=c}\\ifqa a\\else b\\fi\\iftoggle{qa}{a}{b}\\citetalias{a}\\label{l} "
    "\\section{a}\\label{a}\\begin{figure}\\caption{a}\\end{figure}$\\qa$\\begin{algorithm}a\\end{algorithm} y"
)


@harness(
    bounds="each of the %d known constructs cut off at each of its characters, then clear(), then a document probing every kind of state" % len(forms.ALL),
    covers=["cut", "whole"],
)
def cleared_any(cx):
    f = cx.pick("form", forms.ALL)
    step = cx.bound(4, 1)
    k = cx.pick("k", list(range(0, 20)))
    cx.assume(k * step < len(f))
    src = f[: len(f) - k * step]
    p = LatexParser(logger=cx.logger)
    run(cx, p, src, False)
    p.clear()
    cx.cover("cut" if k else "whole")
    cx.check_eq(run(cx, p, PROBE, False), fresh(cx, PROBE, False), "cleared parser behaves like a fresh one")


@harness(
    bounds="%d setting documents parsed by one parser between creating another parser and using it, the showing document before or after" % len(STATE),
    covers=["before", "after"],
)
def other_parser(cx):
    a, b = cx.pick("state", STATE)
    n = cx.str("n", 1, 1, alpha=NAMES)
    m = cx.str("m", 1, 1, alpha=NAMES)
    pre = cx.flag("pre")
    p = LatexParser(logger=cx.logger)
    doc = fill(b, m)
    want = fresh(cx, doc, pre)
    if cx.flag("created_before"):
        q = LatexParser(logger=cx.logger)
        run(cx, p, fill(a, n), pre)
        cx.cover("before")
    else:
        run(cx, p, fill(a, n), pre)
        q = LatexParser(logger=cx.logger)
        cx.cover("after")
    cx.check_eq(run(cx, q, doc, pre), want, "another parser's document has no effect")


@harness(
    bounds="two documents from the list parsed alternately by two parsers in two parts each (definition, then use)",
    covers=["done"],
)
def interleaved(cx):
    a, b = cx.pick("first", STATE)
    c, d = cx.pick("second", STATE)
    n = cx.str("n", 1, 1, alpha="Q")
    p, q, r = [LatexParser(logger=cx.logger) for _ in range(3)]
    # alone
    run(cx, r, fill(a, n), False)
    want = run(cx, r, fill(b, n), False)
    # with another document in between
    run(cx, p, fill(a, n), False)
    run(cx, q, fill(c, n), False)
    got = run(cx, p, fill(b, n), False)
    run(cx, q, fill(d, n), False)
    cx.cover("done")
    cx.check_eq(got, want, "a parser keeps its own state only")


BUILT = [s[1] for s in STATE] + [s[0] for s in STATE] + forms.ENV + [
    "\\section{a}\\subsection{b}\\begin{equation}a\\end{equation}\\begin{equation}b\\end{equation}",
    "\\begin{itemize}\\item a\\begin{enumerate}\\item b\\end{enumerate}\\end{itemize}",
    "\\begin{theorem}a\\end{theorem}\\begin{proof}a\\end{proof}\\appendix\\section{a}\\begin{lemma}b\\end{lemma}",
    "\\begin{tabular}{cc}\\multicolumn{2}{c}{a $b$}\\\\a&\\textbf{c}\\end{tabular}",
    "a $b$ c \\textbf{d} e \\cite{f} g",
]


@harness(
    bounds="each of %d documents built twice by one builder, and after another document, against a fresh builder" % len(BUILT),
    covers=["done"],
)
def builder(cx):
    doc = cx.pick("doc", BUILT)
    n = cx.str("n", 1, 1, alpha="Qa")
    other = cx.pick("other", cx.bound([37, 39, 40, 111, 113], list(range(len(STATE))) + list(range(len(BUILT) - 5, len(BUILT)))))
    tokens = fresh(cx, fill(doc, n), False)
    again = fresh(cx, fill(doc, n), False)
    others = fresh(cx, fill(BUILT[other % len(BUILT)], n), False)
    b = TokenBuilder(logger=cx.logger)
    first = dump(b.build(tokens))
    cx.check_eq(tokens, again, "building leaves the tokens alone")
    second = dump(b.build(tokens))
    dump(b.build(others))
    third = dump(b.build(tokens))
    cx.cover("done")
    cx.check_eq(second, first, "building again gives the same")
    cx.check_eq(third, first, "building after another document gives the same")
    cx.check_eq(first, build(cx, again), "a fresh builder gives the same")


def dump(tokens):
    return [t.model_dump(mode="json", exclude_none=True) for t in tokens]


@harness(
    bounds="one document in a file, with an included one, read twice by one parser or reader, with clear() between or not; texts of 1..2 letters",
    covers=["parser", "cleared", "reader"],
)
def same_file(cx):
    s = cx.str("s", 1, 2, alpha=LETTERS)
    t = cx.str("t", 1, 2, alpha=LETTERS)
    d = cx.folder({"main.tex": "\\documentclass{article}\\begin{document}" + s + " \\input{f} z\\end{document}", "f.tex": t})
    how = cx.pick("how", ["parser", "cleared", "reader"])
    cx.cover(how)
    main = os.path.join(d, "main.tex")
    if how == "reader":
        reader = TexReader(logger=cx.logger)
        first = [x.model_dump(exclude_none=True) for x in reader.process(d).tokens]
        again = [x.model_dump(exclude_none=True) for x in reader.process(d).tokens]
    else:
        p = LatexParser(logger=cx.logger)
        first = p.parse_file(main)
        if how == "cleared":
            p.clear()
        again = p.parse_file(main)
    cx.check_eq(squeeze(flat(first)), s + t + "z", "text of the document")
    cx.check_eq(squeeze(flat(again)), s + t + "z", "text of the document read again")
