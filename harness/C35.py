"""C35 layout and setup commands leave no text and take none"""
from symtex.api import harness, LETTERS, DIGITS, LOWER
from hlib.common import parse, build, flat, walk, text, squeeze

WORD = LETTERS + DIGITS + ".,;:!?"

# assignments: a length register and a number register of each family
LENGTHS = [
    "\\parindent", "\\parskip", "\\baselineskip", "\\topmargin", "\\headheight", "\\footskip", "\\textwidth", "\\textheight", "\\oddsidemargin",
    "\\columnsep", "\\hsize", "\\vsize", "\\hoffset", "\\voffset", "\\leftskip", "\\rightskip", "\\parfillskip", "\\abovedisplayskip",
    "\\belowdisplayshortskip", "\\floatsep", "\\textfloatsep", "\\arraycolsep", "\\tabcolsep", "\\fboxsep", "\\fboxrule", "\\lineskip",
    "\\topskip", "\\emergencystretch", "\\hfuzz", "\\overfullrule", "\\hangindent", "\\unitlength", "\\mathsurround", "\\footnotesep",
]
SKIPS = ["\\vskip", "\\hskip", "\\kern"]
NUMBERS = [
    "\\penalty", "\\clubpenalty", "\\widowpenalty", "\\brokenpenalty", "\\hyphenpenalty", "\\exhyphenpenalty", "\\interfootnotelinepenalty",
    "\\interdisplaylinepenalty", "\\linepenalty", "\\tolerance", "\\pretolerance", "\\hbadness", "\\vbadness", "\\looseness", "\\hangafter",
    "\\maxdeadcycles", "\\magnification", "\\lefthyphenmin", "\\uchyph", "\\errorcontextlines", "\\pdfminorversion",
]


def around(cx, src, pre=False):
    """the text left of a document without its blanks, nothing else allowed"""
    out = parse(cx, src, pre)
    for t in walk(out):
        cx.check(t["type"] in ("text", "group"), "only text stands there")
    return squeeze(flat(out))


@harness(
    bounds="%d registers and spacing commands, factors of up to 2 symbolic digits before and after the point, every unit, with and without a sign, `=`, blanks and stretch; a word that begins with a symbolic character after it" % len(LENGTHS + SKIPS),
    covers=["stretch", "register", "sign"],
)
def lengths(cx):
    reg = cx.pick("reg", LENGTHS + SKIPS)
    kind = cx.pick("kind", ["digits", "unit", "stretch", "register"] if reg != "\\kern" else ["digits", "unit", "register"])
    eqs = ["", "=", " ", " = "] if reg not in SKIPS else ["", " "]
    eqsign = cx.pick("eq", eqs)
    sign = cx.pick("sign", ["", "-"]) if kind != "stretch" or cx.tier == "thorough" else ""
    r = ""
    if sign:
        cx.cover("sign")
    if kind == "digits":
        d = cx.str("d", 1, 2, alpha=DIGITS)
        f = cx.str("f", 0, 1, alpha=DIGITS)
        v = d + (("." + f) if cx.flag("point") else "") + cx.pick("u", ["pt", "ex"])
    elif kind == "unit":
        v = cx.pick("n", ["2", "1.5", ".5"]) + cx.pick("us", ["", " "]) + cx.pick("unit", ["pt", "em", "ex", "in", "cm", "mm", "pc", "bp", "sp", "mu", "true cm", "truein"])
    elif kind == "stretch":
        cx.cover("stretch")
        v = "2pt" + cx.pick("plus", ["", " plus 1pt", " plus 1fil", " plus 2filll", " plus-1em", "plus1pt"]) + cx.pick("minus", ["", " minus 1pt", " minus 0.5fill", "minus1ex"])
    else:
        cx.cover("register")
        r = cx.pick("r", ["\\baselineskip", "\\parindent", "\\textwidth", "\\qlen"])
        v = cx.pick("factor", ["", "2", ".5", "1.25"]) + r
    sep = cx.pick("sep", [" ", "\n", "{}", "\\relax "]) if kind == "digits" or cx.tier == "thorough" else " "
    w = cx.str("w", 1, 1, alpha="abcdefghijknoqrstuvwxyzABCDEFGHIJKLNOQRSTUVWXYZ(!") + "ab"
    cx.assume(r != "\\qlen" or "=" in eqsign or v != r)
    cx.check_eq(around(cx, "a " + reg + eqsign + sign + v + sep + w), "a" + w, "the text around")


@harness(
    bounds="%d number registers, values of up to 5 symbolic digits, with and without a sign, `=` and blanks, text of 1..2 symbolic characters after it; with and without preprocessing" % len(NUMBERS),
    covers=["done"],
)
def numbers(cx):
    reg = cx.pick("reg", NUMBERS)
    eqsign = cx.pick("eq", ["", "=", " ", " = "])
    sign = cx.pick("sign", ["", "-"])
    v = cx.str("v", 1, 5, alpha=DIGITS)
    sep = cx.pick("sep", [" ", "\n", "\\relax "])
    w = cx.str("w", 1, 2, alpha=LETTERS + ".,;:!?()")
    cx.cover("done")
    cx.check_eq(around(cx, "a " + reg + eqsign + sign + v + sep + w, cx.flag("pre")), "a" + w, "the text around")


# commands and their arguments: <> is text that must not come out
ARGS = r"""
\vspace{<>}
\vspace*{<>}
\hspace{<>}
\hspace*{<>}
\setlength{\parindent}{<>}
\setlength\parindent{<>}
\addtolength{\textheight}{<>}
\setcounter{<>}{1}
\setcounter{page}{<>}
\addtocounter{<>}{-1}
\stepcounter{<>}
\refstepcounter{<>}
\newcounter{<>}[section]
\counterwithin{<>}{section}
\counterwithin*{figure}{<>}
\numberwithin{equation}{<>}
\pagenumbering{<>}
\linespread{<>}
\fontsize{<>}{12}\selectfont
\usefont{T1}{<>}{b}{n}
\newlength{\<>}
\newsavebox{\<>}
\sbox{\qbox}{<>}
\savebox{\qbox}{<>}
\pagebreak[<>]
\nopagebreak[<>]
\linebreak[<>]
\enlargethispage{<>}
\enlargethispage*{<>}
\rule{<>}{2pt}
\rule[<>]{1pt}{2pt}
\rule{1pt}{<>}
\phantom{<>}
\hphantom{<>}
\vphantom{<>}
\hypersetup{a=<>}
\captionsetup{a=<>}
\captionsetup[<>]{a=b}
\lstset{a=<>}
\graphicspath{{<>/}{b/}}
\DeclareGraphicsExtensions{.<>}
\hyphenation{<>}
\pagestyle{<>}
\thispagestyle{<>}
\allowdisplaybreaks[<>]
\bibliographystyle{<>}
\PassOptionsToPackage{<>}{b}
\newcolumntype{L}{<>}
\newcolumntype{L}[1]{>{\raggedright}<>{#1}}
\date{<>}
\geometry{<>}
\addcontentsline{toc}{section}{<>}
\addcontentsline{toc}{section}{\protect\numberline{1}<>}
\addtocontents{toc}{<>}
\setlist{<>}
\setlist[itemize]{<>,b=c}
\setlist[<>,1]{b=c}
\setdefaultlanguage{<>}
\theoremstyle{<>}
\newtheoremstyle{<>}{3pt}{3pt}{\itshape}{}{\bfseries}{.}{.5em}{}
\pdfbookmark[0]{<>}{b}
\typeout{<>}
\DeclareMathOperator{\qop}{<>}
\DeclareMathOperator*{\qop}{<>}
\DeclareMathAlphabet{\qcal}{OT1}{<>}{m}{it}
\DeclareFontFamily{U}{<>}{}
\DeclareFontShape{U}{<>}{m}{n}{<-> x}{}
\DeclareSymbolFont{<>}{U}{x}{m}{n}
\DeclareRobustCommand{\qrob}{<>}
\DeclareOption{<>}{x}
\NeedsTeXFormat{<>}[1995/12/01]
\ProvidesPackage{<>}[2010/01/01 x]
\usetikzlibrary{<>}
\pgfplotsset{<>}
\tcbset{<>}
\newmdenv[a=<>]{b}
\urlstyle{<>}
\settowidth{\qlen}{<>}
\settoheight\qlen{<>}
\FloatBarrier
\renewcommand{\baselinestretch}{<>}
\renewcommand\arraystretch{<>}
\renewcommand{\thefootnote}{<>}
\def\arraystretch{<>}
\subjclass[2010]{<>}
\pacs{<>}
\crefname{<>}{b}{c}
\Crefname{a}{<>}{c}
\titleformat*{\section}{\bf<>}
\titleformat{\section}[hang]{\bf}{<>}{1em}{}[b]
\titlespacing*{\section}{<>}{2pt}{3pt}[4pt]
\floatname{figure}{<>}
\newtheorem{<>}{B}[section]
\newcommand{\qa}[1]{<>#1}
\newcommand{\qa}[2][<>]{#1}
\providecommand{\qa}{<>}
\newenvironment{qa}{<>}{}
\definecolor{<>}{rgb}{1,0,0}
\definecolor{a}{HTML}{<>}
\colorlet{a}{<>}
\setkeys{Gin}{<>}
\index{}
\newif\if<>
\let\qa\<>
\advance\<> by 1
\setbox0=\hbox{<>}
""".strip().split("\n")
ARGS = [a for a in ARGS if "<>" in a]
NEST = ["<>", "{<>}", "\\a{<>}", "\\a{b{<>}}c", "{a}{<>}b", "a\\{<>", "\\}<>"]
# arguments that are names and hold no braces
PLAIN = ["counter", "numbering{<>}", "numberwithin", "linespread", "fontsize", "usefont", "setdefaultlanguage", "NeedsTeXFormat", "Provides", "\\<>", "\\if<>"]
NAMES = [a for a in ARGS if any(p in a for p in PLAIN)]
# brackets that hold a digit
DIGIT = ["\\pagebreak[<>]", "\\nopagebreak[<>]", "\\linebreak[<>]", "\\allowdisplaybreaks[<>]"]


@harness(
    bounds="%d layout and setup commands with text of 1..2 symbolic characters in an argument, plain or in braces up to two deep, blanks or a line end after it; preprocessed or not" % len(ARGS),
    covers=["done"],
)
def arguments(cx):
    a = cx.pick("cmd", ARGS)
    s = cx.str("s", 1, 1, alpha=DIGITS) if a in DIGIT else cx.str("s", 1, 2, alpha=LETTERS)
    n = cx.pick("nest", NEST) if a not in NAMES and "[<>]" not in a and "[<>," not in a else "<>"
    src = a.replace("<>", n)
    i = src.index("<>")
    src = src[:i] + s + src[i + 2:]
    pre = cx.flag("pre")
    cx.cover("done")
    cx.check_eq(around(cx, "1 " + src + cx.pick("sep", [" ", "\n", "{}"]) + "2", pre), "12", "the text around")


NONE = r"""
\newpage
\clearpage
\cleardoublepage
\pagebreak
\nopagebreak
\linebreak
\displaybreak
\allowdisplaybreaks
\flushbottom
\sloppy
\tableofcontents
\noindent
\indent
\null
\break
\allowbreak
\bigskip
\medskip
\smallskip
\bigbreak
\medbreak
\smallbreak
\filbreak
\goodbreak
\hfill
\hfil
\hss
\hrule
\vrule
\onecolumn
\relax
\unskip
\makeatletter
\makeatother
\maketitle
\phantomsection
\linenumbers
\global
\FloatBarrier
\centering
\raggedright
\raggedleft
\protect
\xspace
\selectfont
\normalsize
\footnotesize
\vspace{1cm}
\hspace*{1cm}
\setlength{\parindent}{0pt}
\setcounter{page}{1}
\setcounter{page}{\value{a}}
\stepcounter{a}
\pagenumbering{arabic}
\thispagestyle{empty}
\addcontentsline{toc}{section}{a}
\enlargethispage{2pt}
\phantom{a}
\rule{1pt}{2pt}
\hyphenation{a-b}
\numberwithin{equation}{section}
\renewcommand{\a}{b}
\newlength{\a}
\bibliographystyle{plain}
\parindent 0pt
\parskip=2pt plus 1pt
\vskip 2pt
\kern-2pt
\penalty 100
\tolerance=1000
\parskip=\baselineskip
\advance\count0 by 1
\hrule height 1pt
""".strip().split("\n")
NOBRACKET = ["\\pagebreak", "\\nopagebreak", "\\linebreak", "\\displaybreak", "\\allowdisplaybreaks"]
AFTER = ["[<>]", "(<>)", "{<>}", "*<>", "=<>", "<>", "\\textbf{<>}", "$<>$", "\\begin{center}<>\\end{center}"]


@harness(
    bounds="%d commands that take no (more) arguments, before %d kinds of text of 1..2 symbolic characters; preprocessed or not" % (len(NONE), len(AFTER)),
    covers=["done"],
    excludes="brackets after commands that take an optional argument, stars and equal signs right after a command",
)
def after(cx):
    c = cx.pick("cmd", NONE)
    k = cx.pick("after", AFTER)
    cx.assume(not (k == "[<>]" and c in NOBRACKET))
    s = cx.str("s", 1, 2, alpha=LETTERS)
    sep = cx.pick("sep", [" ", "\n", "\n\n"])
    if k[0] in "*=":
        sep = "\\relax " if cx.flag("r") else "{} "
    l, r = k.split("<>")
    pre = cx.flag("pre")
    got = parse(cx, "1 " + c + sep + l + s + r + " 2", pre)
    want = parse(cx, "1 " + l + s + r + " 2", pre)
    cx.cover("done")
    cx.check_eq(shape(got), shape(want), "what stands after the command")


def shape(toks):
    """type and squeezed text of the tokens in order, with neighbouring text joined"""
    out = []
    for t in toks if isinstance(toks, list) else [toks]:
        if isinstance(t, str):
            t = {"type": "text", "content": t}
        c = t.get("content")
        if t["type"] in ("text", "command") or not isinstance(c, list):
            k = (t["type"], tuple([x for x in t.get("styles", []) if x == "bold"]))
            c = squeeze(c) if isinstance(c, str) else squeeze(t.get("command", ""))
            if out and out[-1][0] == k and t["type"] == "text":
                out[-1] = (k, out[-1][1] + c)
            elif c != "" or t["type"] != "text":
                out.append((k, c))
        elif t["type"] == "group":
            for x in shape(c):
                if out and out[-1][0] == x[0] and x[0][0] == "text":
                    out[-1] = (x[0], out[-1][1] + x[1])
                else:
                    out.append(x)
        else:
            out.append((t["type"], t.get("name", ""), shape(c)))
    return out


PLACES = [
    "<>", " {<>} ", "\\textbf{<>}", "\\section{<>}", "\\begin{itemize}\\item <>\\end{itemize}", "\\footnote{<>}", "\\begin{figure}\\caption{<>}\\end{figure}",
    "\\begin{tabular}{c}<>\\end{tabular}", "\\begin{theorem}<>\\end{theorem}", "\\title{<>}", "\\qm{<>}", "\\begin{abstract}<>\\end{abstract}", "\\mbox{<>}", "\\begin{qe}<>\\end{qe}",
]
SOME = [
    "\\vspace{<>pt}", "\\hspace*{-<>em}", "\\vskip <>pt plus 1fil ", "\\setlength{\\parindent}{<>pt}", "\\setcounter{<>}{1}", "\\penalty<> ", "\\parindent=<>pt ", "\\noindent ", "\\newpage ",
    "\\rule{<>pt}{1pt}", "\\thispagestyle{<>}", "\\addcontentsline{toc}{<>}{b}", "\\phantom{<>}", "\\hfill ", "\\pagebreak[<>]", "\\enlargethispage{<>pt}", "\\renewcommand{\\baselinestretch}{<>}", "\\linespread{<>}",
    "\\protect ", "\\relax ", "\\-",
]
PRE = "\\newcommand{\\qm}[1]{#1}\\newenvironment{qe}{}{}"


@harness(
    bounds="%d layout commands in %d places with argument digits and text of 1 symbolic character, before, between and after the text; preprocessed or not" % (len(SOME), len(PLACES)),
    covers=["done"],
)
def places(cx):
    l, r = cx.pick("place", PLACES).split("<>")
    c = cx.pick("cmd", SOME)
    n = cx.str("n", 1, 1, alpha=DIGITS)
    if "<>" in c:
        a, b = c.split("<>")
        c = a + n + b
    s = cx.str("s", 1, 1, alpha=LETTERS)
    pos = cx.pick("pos", ["before", "between", "after"])
    x = c if pos == "before" else ""
    y = c if pos == "between" else ""
    z = c if pos == "after" and c != "\\protect " else ""
    pre = cx.flag("pre")
    got = parse(cx, PRE + "u" + l + x + s + " " + y + "w" + z + r + "v", pre)
    want = parse(cx, PRE + "u" + l + s + " w" + r + "v", pre)
    cx.cover("done")
    cx.check_eq(clean(got), clean(want), "the document without the command")


def clean(v):
    """tokens with their texts squeezed and neighbouring equal texts joined, empty ones dropped"""
    if isinstance(v, list):
        out = []
        for x in v:
            if isinstance(x, str):
                x = text(x)
            if x is None:
                out.append(None)
                continue
            for y in flatten(x):
                y = clean(y)
                if isinstance(y, dict) and y.get("type") == "text":
                    if y["content"] == "":
                        continue
                    if out and isinstance(out[-1], dict) and out[-1].get("type") == "text" and out[-1].get("styles") == y.get("styles"):
                        out[-1] = dict(y, content=out[-1]["content"] + y["content"])
                        continue
                out.append(y)
        return out
    if isinstance(v, str):
        return squeeze(v)
    if isinstance(v, dict):
        d = dict(v)
        for k in ("content", "title"):
            if k in d:
                d[k] = clean([d[k]] if isinstance(d[k], str) and d["type"] not in ("text", "equation", "ref", "url") else d[k])
        return d
    return v


def flatten(x):
    if isinstance(x, dict) and x.get("type") == "group" and not x.get("styles"):
        return [text(y) if isinstance(y, str) else y for y in x["content"]]
    return [x]


@harness(
    bounds="words of 1..3 and 0..2 symbolic characters around up to two hyphenation points and italic corrections, in %d places, preprocessed or not" % len(PLACES),
    covers=["done", "two"],
)
def hyphens(cx):
    l, r = cx.pick("place", PLACES).split("<>")
    pre = cx.flag("pre")
    h = cx.pick("h", ["\\-", "\\/"])
    a = cx.str("a", 1, 3, alpha=LETTERS)
    b = cx.str("b", 0, 2, alpha=WORD)
    src = a + h + b
    if cx.flag("two"):
        cx.cover("two")
        src += h + "x"
        b += "x"
    got = parse(cx, PRE + "u" + l + src + r + "v", pre)
    want = parse(cx, PRE + "u" + l + a + b + r + "v", pre)
    cx.cover("done")
    cx.check_eq(got, want, "the word")


PROTECTED = [
    "\\cite{<>}", "\\ref{<>}", "\\textbf{<>}", "\\footnote{<>}", "\\qm{<>}", "\\emph{<>}", "\\url{<>}", "\\&", "\\%", "\\dots", "\\'{e}", "\\alpha", "\\LaTeX", "\\textsuperscript{<>}", "\\citep[<>]{k}",
    "\\textcolor{red}{<>}", "\\(<>\\)", "\\mbox{<>}", "\\ensuremath{<>}", "\\cite [<>] {k}", "\\bf <>", "\\unknown{<>}", "\\href{<>}{b}", "\\verb|<>|", "\\label{<>}", "\\underline{<>}", "\\textit{\\protect\\bf <>}",
]
PPLACES = [
    "<>", " {<>} ", "\\textit{<>}", "\\section{<>}", "\\section[b]{<>}", "\\begin{figure}\\caption{<>}\\end{figure}", "\\footnote{<>}", "\\title{<>}", "\\begin{tabular}{cc}a&<>\\\\b\\end{tabular}",
    "\\begin{itemize}\\item <>\\end{itemize}", "\\author{<>}", "\\begin{theorem}[<>]b\\end{theorem}", "\\qm{<>}", "\\item[<>]", "\\begin{qe}<>\\end{qe}",
]


@harness(
    bounds="%d commands protected in %d places, arguments of 1..2 symbolic characters, blanks after \\protect or not, preprocessed or not" % (len(PROTECTED), len(PPLACES)),
    covers=["done"],
)
def protect(cx):
    l, r = cx.pick("place", PPLACES).split("<>")
    c = cx.pick("cmd", PROTECTED)
    s = cx.str("s", 1, 2, alpha=LETTERS)
    if "<>" in c:
        a, b = c.split("<>")
        c = a + s + b
    pre = cx.flag("pre")
    sp = cx.pick("sp", ["", " "])
    got = parse(cx, PRE + "u" + l + "1 \\protect" + sp + c + " 2" + r + "v", pre)
    want = parse(cx, PRE + "u" + l + "1 " + c + " 2" + r + "v", pre)
    cx.cover("done")
    cx.check_eq(got, want, "the document without \\protect")


@harness(
    bounds="verbatim material, drawings and longer command names with \\protect, a hyphenation point or a length in them, 1..2 symbolic characters; preprocessed or not",
    covers=["done"],
)
def kept(cx):
    s = cx.str("s", 1, 2, alpha=LETTERS)
    x = cx.pick("x", ["\\protect\\a", "a\\-b", "\\vspace{1pt}", "\\parindent=2pt", "\\vskip 2pt", "\\pagebreak[4]", "\\noindent", "\\penalty100"]) + " " + s
    kind = cx.pick("kind", ["verb", "verbatim", "lstlisting", "tikzpicture", "url"])
    pre = cx.flag("pre")
    src = {
        "verb": "\\verb|" + x + "|", "verbatim": "\\begin{verbatim}" + x + "\\end{verbatim}", "lstlisting": "\\begin{lstlisting}\n" + x + "\n\\end{lstlisting}",
        "tikzpicture": "\\begin{tikzpicture}" + x + "\\end{tikzpicture}", "url": "\\verb+" + x + "+",
    }[kind]
    cx.cover("done")
    out = parse(cx, "1 " + src + " 2", pre)
    cx.check_eq([t["content"].strip() for t in out if t["type"] in ("code", "diagram")], [x], "the source is kept")
