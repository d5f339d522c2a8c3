"""C34 the preamble holds what the document is read with"""
from symtex.api import harness, LETTERS, DIGITS, LOWER
from latex2json.parser.tex_parser import LatexParser
from latex2json.parser.tex_preamble import LatexPreamble
from hlib.common import parse, flat, text

CLASS = "\\documentclass[a4]{article}\n"
BEGIN = "\n\\begin{document}\n"

# definition, use of it in the body
DEFS = [
    ("\\newcommand{\\qa}{<>}", "\\qa{} z"), ("\\newcommand*{\\qa}[1]{<>#1}", "\\qa{v} z"), ("\\newcommand\\qa[2][<>]{#1-#2}", "\\qa{v} \\qa[w]{v}"), ("\\renewcommand{\\qa}{<>}", "\\qa{}"), ("\\providecommand{\\qa}{<>}", "\\qa{}"),
    ("\\def\\qa{<>}", "\\qa{}"), ("\\def\\qa#1.{(#1<>)}", "\\qa v. z"), ("\\gdef\\qa{<>}", "\\qa{}"), ("\\edef\\qa{<>}", "\\qa{}"), ("\\long\\def\\qa#1{<>#1}", "\\qa{v}"), ("\\newcommand{\\qa}{<>}\\let\\qb\\qa", "\\qb{}"),
    ("\\DeclareRobustCommand{\\qa}{<>}", "\\qa{}"), ("\\DeclareMathOperator{\\qa}{<>}", "$\\qa x$"), ("\\DeclarePairedDelimiter{\\qa}{|}{<>}", "$\\qa{x}$"), ("\\newcommand{\\qa}[1]{\\newcommand{\\qb}{#1<>}}", "\\qa{v}\\qb{}"),
    ("\\newcommand{\\qa}{\\begin{document}<>}", "z"), ("\\newcommand{\\qa}{a{b}<>\\{}", "\\qa{}"), ("\\newcommand{\\qa}{%\n  <>%\n}", "\\qa{} z"), ("\\expandafter\\def\\csname qa\\endcsname{<>}", "\\qa{}"), ("\\makeatletter\\newcommand{\\q@a}{<>}\\def\\qa{\\q@a}\\makeatother", "\\qa{}"),
    ("\\newenvironment{qe}{<>}{w}", "\\begin{qe}v\\end{qe}"), ("\\newenvironment{qe}[1]{#1<>}{w}", "\\begin{qe}{u}v\\end{qe}"), ("\\newenvironment*{qe}[2][<>]{#1#2}{w}", "\\begin{qe}{u}v\\end{qe}"), ("\\renewenvironment{qe}\n{<>}\n{w}", "\\begin{qe}v\\end{qe}"),
    ("\\newtheorem{qt}{Lemma}[section]", "\\begin{qt}<>\\end{qt}"), ("\\newtheorem*{qt}{Some <>}", "\\begin{qt}v\\end{qt}"), ("\\newtheorem{qs}{Theorem}\\newtheorem{qt}[qs]{T <>}", "\\begin{qt}v\\end{qt}"),
    ("\\newif\\ifqf", "\\ifqf <>\\else v\\fi"), ("\\newif\\ifqf\\qftrue", "\\ifqf <>\\else v\\fi"), ("\\newif\\ifqf\\qftrue\\qffalse", "\\ifqf v\\else <>\\fi"), ("\\newbool{qf}\\booltrue{qf}", "\\ifbool{qf}{<>}{v}"), ("\\newbool{qf}", "\\ifbool{qf}{<>}{v}"), ("\\newbool{qf}\\setbool{qf}{true}", "\\notbool{qf}{<>}{v}"),
    ("\\iftrue\\newcommand{\\qa}{<>}\\else\\newcommand{\\qa}{w}\\fi", "\\qa{}"), ("\\iffalse\\newcommand{\\qa}{w}\\else\\newcommand{\\qa}{<>}\\fi", "\\qa{}"), ("\\newcommand{\\qa}{<>}\\iffalse\\renewcommand{\\qa}{w}\\fi", "\\qa{}"),
    ("\\@ifundefined{qa}{\\newcommand{\\qa}{<>}}{\\renewcommand{\\qa}{w}}", "\\qa{}"), ("\\newif\\ifqf\\qftrue\\ifqf\\newcommand{\\qa}{<>}\\fi", "\\qa{}"), ("\\ifx\\qu\\qv\\def\\qa{<>}\\fi", "\\qa{}"),
    ("\\definecolor{qc}{rgb}{<>}", "\\textcolor{qc}{v}"), ("\\colorlet{qc}{<>}", "{\\color{qc} v}"), ("\\crefname{figure}{<>}{fs}", "\\cref{v}"), ("\\floatname{algorithm}{<>}", "\\begin{algorithm}v\\end{algorithm}"), ("\\newlength{\\ql}\\setlength{\\ql}{2pt}", "v<>"), ("\\newcounter{qn}", "v<>"),
]
# what stands around it and leaves no text in the body
NOISE = [
    "", "\\title{T}\n", "\\hypersetup{a=b}", "%\\newcommand{\\qa}{c}\n", "\\usepackage[a,b]{amsmath, amssymb}", "\\setlength{\\parindent}{0pt}", "\\pagestyle{empty}\\thispagestyle{plain}", "\\author{A \\and B}", "\\theoremstyle{plain}",
    "\\begin{filecontents}{x.tex}\\newcommand{\\qa}{c}\\begin{document}\\end{filecontents}", "\\usetikzlibrary{arrows}", "\\makeatletter\n", "\\bibliographystyle{plain}", "\\date{\\today}",
]


def preamble(cx, src):
    return LatexPreamble(logger=cx.logger).get_preamble(src)


def body_of(tokens):
    """tokens of the document environment"""
    docs = [t for t in tokens if t.get("type") == "document"]
    return docs[-1]["content"] if docs else tokens


def state(cx, src):
    p = LatexParser(logger=cx.logger)
    tokens = p.parse(src)
    return body_of(tokens), p.get_colors()


@harness(
    bounds="%d definitions (commands, environments, theorems, flags, conditional ones, colors, names) with 1-2 (thorough 3) symbolic letters and digits, before or after each of %d other pieces of a preamble, with and without a document class before, after or around it: a body read after the preamble alone is the body of the document" % (len(DEFS), len(NOISE)),
    covers=["class", "no class", "late class"],
    max_ticks=400000,
)
def definitions(cx):
    d, use = cx.pick("def", DEFS)
    noise = cx.pick("noise", cx.bound(NOISE, NOISE))
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS)
    head = cx.pick("class", ["class", "no class", "late class"])
    after = cx.flag("after")
    cx.assume(noise != "" or not after)
    cx.assume(cx.tier == "thorough" or head == "class" or noise in NOISE[:3])
    cx.cover(head)
    d, use = d.replace("<>", s), use.replace("<>", s)
    pieces = d + "\n" + noise if after else noise + "\n" + d
    src = {"class": CLASS + pieces, "no class": pieces, "late class": pieces + "\n" + CLASS}[head]
    doc = src + BEGIN + "x " + use + " y\n\\newcommand{\\qz}{body}\\usepackage{body}\\makeatother\\end{document}"
    got = preamble(cx, doc)
    cx.check("body" not in got and "documentclass" not in got, "nothing of the body or the class")
    cx.check("%" not in got or "%" in doc.replace("%\n", ""), "no comments")
    alone = BEGIN + "x " + use + " y\n\\end{document}"
    want, want_colors = state(cx, d + alone)
    tokens, colors = state(cx, got + alone)
    cx.check_eq(tokens, want, "the body after the preamble alone")
    cx.check_eq(colors, want_colors, "colors of the preamble")
    cx.check_eq(preamble(cx, got), got, "the preamble of the preamble is the same")


@harness(
    bounds="2 (thorough 3) definitions of the same or different names in 12 forms, in every order, values with one symbolic letter or digit: a body read after the preamble is that of the document",
    excludes="commands that call each other endlessly",
    covers=["done"],
    max_ticks=400000,
)
def orders(cx):
    forms = [
        "\\newcommand{\\qa}{<>}", "\\renewcommand{\\qa}{<>}", "\\providecommand{\\qa}{<>}", "\\def\\qa{<>}", "\\let\\qa\\qb", "\\let\\qb\\qa", "\\newcommand{\\qb}{<>\\qa}", "\\def\\qb{<>}", "\\newif\\ifqf\\qftrue",
        "\\iftrue\\def\\qa{<>}\\fi", "\\newcommand{\\qc}[1]{\\def\\qa{#1}}", "\\edef\\qb{\\qa <>}",
    ]
    n = cx.bound(2, 3)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    cx.cover("done")
    picks = [cx.pick("f%d" % i, forms) for i in range(n)]
    cx.assume(not any([p == q and ("newcommand{\\qb}" in p or "edef" in p) for p, q in zip(picks, picks[1:])]))
    # no endless recursion
    calls_a = any(["{\\qb}{<>\\qa}" in p or "edef" in p for p in picks])
    cx.assume(not (calls_a and "\\let\\qa\\qb" in picks))
    src = CLASS + "\n".join([p.replace("<>", s + str(i)) for i, p in enumerate(picks)])
    # \qc is used in the body, so that it takes effect there
    body = BEGIN + "\\qc{k}<\\qa{}|\\qb{}>\\end{document}" if any(["qc" in p for p in picks]) else BEGIN + "<\\qa{}|\\qb{}>\\end{document}"
    want = state(cx, src.replace(CLASS, "") + body)
    got = state(cx, preamble(cx, src + body) + body)
    cx.check_eq(got, want, "the body after the preamble alone")


@harness(
    bounds="preambles of a definition with a body of 0-3 (thorough 4) symbolic structural characters (braces in pairs), between other definitions: the definition stands in the preamble as it is, or the body reads alike; no exception",
    covers=["kept"],
    max_ticks=400000,
)
def symbolic(cx):
    s = cx.str("s", 0, cx.bound(3, 4), alpha="\\{}[]$&#^_~ \nab1")
    form = cx.pick("form", ["\\newcommand{\\qa}{<>}", "\\def\\qa{<>}", "\\newenvironment{qe}{<>}{v}", "\\newcommand{\\qa}[1][<>]{#1}", "\\newtheorem{qt}{<>}"])
    depth = 0
    ok = True
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 2
            continue
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            ok = ok and depth >= 0
        elif c == "]" and form.endswith("{#1}"):
            ok = False
        elif c == "[" and form.endswith("{#1}"):
            ok = False
        i += 1
    cx.assume(ok and depth == 0 and i == len(s) and " \n" not in s)  # blanks at the end of a line are none
    cx.cover("kept")
    d = form.replace("<>", s)
    got = preamble(cx, CLASS + "\\newcommand{\\pa}{1}\n" + d + "\n\\newcommand{\\pb}{2}" + BEGIN + "x\\end{document}")
    cx.check_eq(got, "\\newcommand{\\pa}{1}\n" + d + "\n\\newcommand{\\pb}{2}\n", "the definitions as they stand")
