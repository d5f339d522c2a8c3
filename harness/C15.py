"""C15 verbatim material is not interpreted"""
from symtex.api import harness, LETTERS, DIGITS, PRINTABLE
from hlib.common import parse, build_tex, flat, text, of_type

PUNCT = "!\"#$%&'()+,-./:;<=>?@[\\]^_`{|}~0189"


def joined(tokens):
    """neighbouring texts as one"""
    out = []
    for t in tokens:
        if t["type"] == "text" and out and out[-1]["type"] == "text":
            out[-1] = text(out[-1]["content"] + t["content"])
        else:
            out.append(t)
    return out


@harness(
    bounds="inline code with every delimiter of 37 punctuation characters and digits, content of 0..4 (thorough 7) symbolic printable characters, with and without star, plain and preprocessed, text on both sides",
    covers=["percent", "backslash", "brace", "dollar"],
    excludes="blanks at the ends of the content (they are trimmed)",
)
def inline(cx):
    d = cx.str("d", 1, 1, alpha=PUNCT)
    s = cx.str("s", 0, cx.bound(4, 7), alpha=PRINTABLE)
    cx.assume(d not in s)
    cx.assume("\n" not in s and "\t" not in s)
    cx.assume(s == s.strip())
    star = cx.pick("star", ["", "*"])
    pre = cx.flag("pre")
    if "%" in s:
        cx.cover("percent")
    elif "\\" in s:
        cx.cover("backslash")
    elif "{" in s:
        cx.cover("brace")
    elif "$" in s:
        cx.cover("dollar")
    out = parse(cx, "x \\verb" + star + d + s + d + "y", pre)
    cx.check_eq(out, [text("x "), {"type": "code", "content": s, "display": "inline"}, text("y")], "inline code between texts")


ENVS = ["verbatim", "verbatim*", "lstlisting"]
BODY = PRINTABLE + "\n"


@harness(
    bounds="the three code environments with content of 1..4 (thorough 7) symbolic printable characters and newlines, plain and preprocessed, text on both sides",
    covers=["percent", "two lines", "backslash"],
    excludes="blank space at the ends of the content (it is trimmed) and of lines (as in TeX), a listing that begins with a bracket",
)
def environment(cx):
    e = cx.pick("env", ENVS)
    s = cx.str("s", 1, cx.bound(4, 7), alpha=BODY)
    cx.assume(s == s.strip())
    if e == "lstlisting":
        cx.assume(s[0] != "[")
    cx.assume(" \n" not in s and "\t\n" not in s)
    if "%" in s:
        cx.cover("percent")
    elif "\n" in s:
        cx.cover("two lines")
    elif "\\" in s:
        cx.cover("backslash")
    nl = cx.pick("nl", ["", "\n"])
    out = parse(cx, "x\\begin{" + e + "}" + nl + s + nl + "\\end{" + e + "}y", cx.flag("pre"))
    cx.check_eq(out, [text("x"), {"type": "code", "content": s}, text("y")], "code between texts")


CONTENTS = [
    "\\end{<>}", "\\begin{<>}", "\\begin{quote}<>", "\\end{quote}<>", "\\item <>", "%<>", "% <>%", "\\%<>", "$<>", "$$<>$", "{<>", "}<>", "<>}{", "\\section{<>}",
    "\\foo<>", "\\foo{<>}", "a\\\\<>", "&<>&", "\\def\\foo{<>}", "\\newcommand{\\foo}{<>}", "``<>''", "`<>'", "a  <>", "\\input{<>}", "\\fi<>", "\\if<>", "\\iffalse<>",
    "\\'e<>", "--<>~", "\\label{<>}", "\\cite{<>}", "\\url{<>}", "\\end{document}<>", "\\begin{document}<>", "\\bibliography{<>}", "\\begin{comment}<>", "\\ <>", "\\[<>", "\\(<>",
    "\\usepackage{<>}", "\\begin{equation}<>", "__VERBATIM_BLOCK__<>", "#1<>",
]
WRAPS = [
    ("inline", "\\verb|", "|", "", ""),
    ("inline", "\\verb*+", "+", "", ""),
    ("block", "\\begin{verbatim}\n", "\n\\end{verbatim}", "", ""),
    ("block", "\\begin{lstlisting}[language=C]\n", "\n\\end{lstlisting}", "", ""),
    ("block", "\\begin {verbatim*}", "\\end {verbatim*}", "", ""),
]


def code_token(kind, s, opt=None):
    d = {"type": "code", "content": s}
    if kind == "inline":
        d["display"] = "inline"
    if opt:
        d["title"] = opt
    return d


@harness(
    bounds="43 contents with commands, definitions, comments, environment ends, math, quotes and braces around 1..2 (thorough 4) symbolic letters and digits, five kinds of code, after the definition of a macro, plain, preprocessed and built",
    covers=["plain", "pre", "built"],
)
def tricky(cx):
    c = cx.pick("c", CONTENTS)
    kind, o, e, _, _ = cx.pick("w", WRAPS)
    s = cx.str("s", 1, cx.bound(2, 4), alpha=LETTERS + DIGITS)
    body = c.replace("<>", s)
    cx.assume(body != "\\end{verbatim}")
    mode = cx.pick("mode", ["plain", "pre", "built"])
    cx.cover(mode)
    src = "\\newcommand{\\foo}{BAD}x " + o + body + e + "y \\foo."
    want = [text("x "), code_token(kind, body, "language=C" if "lst" in o else None), text("y BAD.")]
    if mode == "built":
        out = build_tex(cx, src)
        cx.check_eq(joined([{k: v for k, v in t.items()} for t in out]), joined(want), "code in the output")
    else:
        cx.check_eq(joined(parse(cx, src, mode == "pre")), joined(want), "code and what follows")


PLACES = [
    ("\\begin{quote}a <>b\\end{quote}", "\\end{quote}"), ("\\begin{quote}a <>b\\end{quote}", "\\begin{quote}"),
    ("\\begin{qq}a <>b\\end{qq}", "\\end{qq}"), ("\\begin{theorem}a <>b\\end{theorem}", "\\end{theorem}"),
    ("\\begin{itemize}\\item a <>b\\item c\\end{itemize}", "\\item"), ("\\begin{itemize}\\item a <>b\\item c\\end{itemize}", "\\end{itemize}"),
    ("\\begin{enumerate}\\item a\\item <>b\\end{enumerate}", "\\begin{enumerate}"),
    ("\\begin{tabular}{cc}a&<>b\\\\c&d\\end{tabular}", "&"), ("\\begin{tabular}{cc}a&<>b\\\\c&d\\end{tabular}", "\\\\"),
    ("\\begin{tabular}{cc}a&<>b\\\\c&d\\end{tabular}", "\\end{tabular}"),
    ("\\begin{figure}a <>b\\end{figure}", "\\caption{z}"), ("\\begin{abstract}a <>b\\end{abstract}", "\\end{abstract}"),
    ("\\section{S}a <>b", "\\section{T}"), ("\\begin{minipage}{2cm}a <>b\\end{minipage}", "\\end{minipage}"),
    ("\\begin{quote}\\begin{quote}a\\end{quote}<>b\\end{quote}", "\\end{quote}"),
    ("{\\it a <>b}", "\\bf"), ("\\begin{center}a <>b\\end{center}", "\\end{center}"),
    ("\\footnote{a <>b}", "$"), ("\\textbf{a <>b}", "%"),
]


@harness(
    bounds="five kinds of code in 19 surroundings (environments, lists, cells, headings, groups, notes), its content being the surrounding's own delimiter with 0..2 (thorough 4) symbolic characters on both sides, plain and preprocessed",
    covers=["inline", "block"],
    excludes="unbalanced braces in code within command arguments, code in the arguments of macros and in conditionals without preprocessing",
)
def places(cx):
    p, tricky = cx.pick("place", PLACES)
    kind, o, e, _, _ = cx.pick("w", WRAPS)
    s = cx.str("s", 0, cx.bound(2, 4), alpha=LETTERS + DIGITS + ".,;%$&#^_")
    body = s + tricky + s
    if tricky == "\\bf" or tricky == "\\item" or tricky == "\\\\":
        body = s + tricky + "." + s
    cx.cover(kind)
    out = parse(cx, "1" + p.replace("<>", o + body + e) + "2", cx.flag("pre"))
    codes = of_type(out, "code")
    cells = []
    for t in out:
        if t["type"] == "tabular":
            for row in t["content"]:
                for cell in row:
                    cells.append(cell)
    if cells:
        codes = of_type(cells, "code")
        cx.check_eq(flat(out), "1a" + codes[0]["content"] + "bcd2" if codes else "", "text around")
    cx.check_eq([c["content"] for c in codes], [body], "the code")
    want = p
    for w in ("\\begin{quote}", "\\end{quote}", "\\begin{qq}", "\\end{qq}", "\\begin{theorem}", "\\end{theorem}", "\\begin{itemize}", "\\end{itemize}", "\\begin{enumerate}", "\\end{enumerate}", "\\item", "\\begin{figure}", "\\end{figure}", "\\begin{abstract}", "\\end{abstract}", "\\begin{minipage}{2cm}", "\\end{minipage}", "\\begin{center}", "\\end{center}", "\\footnote{", "\\textbf{", "{\\it", "\\section{S}", "}", " "):
        want = want.replace(w, "")
    if not cells:
        got = flat(out)
        got = "".join([ch for ch in got if ch not in " \n"])
        cx.check_eq(got, "1" + want.replace("<>", body) + "2", "text around")


OPTS = ["<>", "caption={<>}", "caption={a [<>] b}, language=C", "caption={a {[<>]} b}", "caption={a, \\textbf{<>}}", "label=<>,numbers=left"]


@harness(
    bounds="listings with 6 kinds of options around 1..3 (thorough 5) symbolic characters, content with and without bracket",
    covers=["bracket"],
)
def options(cx):
    o = cx.pick("opt", OPTS)
    s = cx.str("s", 1, cx.bound(3, 5), alpha=LETTERS + DIGITS + ".,:=-_+ ")
    cx.assume(s == s.strip())
    c = cx.pick("c", ["a", "[a]", "a[1]{", "x]"])
    if "[" in c:
        cx.cover("bracket")
    opt = o.replace("<>", s)
    nl = cx.pick("nl", ["\n", ""])
    out = parse(cx, "x\\begin{lstlisting}[" + opt + "]" + nl + c + "\n\\end{lstlisting}y", cx.flag("pre"))
    cx.check_eq(out, [text("x"), {"type": "code", "content": c, "title": opt}, text("y")], "listing")


@harness(
    bounds="all pairs of five kinds of code with the delimiters of the other in them, comments and escaped percents before, between and after, 0..2 (thorough 3) symbolic characters",
    covers=["done"],
)
def several(cx):
    k1, o1, e1, _, _ = cx.pick("a", WRAPS)
    k2, o2, e2, _, _ = cx.pick("b", WRAPS)
    s = cx.str("s", 0, cx.bound(2, 3), alpha="ab.$&#")
    mid = cx.pick("mid", ["", " ", "\\%", "% \\verb|c\n", "% \\begin{verbatim}\n", "\\\\%\n", "$x$", "% \\end{verbatim} |\n"])
    pre = cx.flag("pre")
    inner1 = "p" + s + cx.pick("in", ["%", "\\end{z}", "\\verb-", "\\begin{lstlisting} "]) + "q"
    inner2 = "%" + s + "r"
    cx.cover("done")
    out = parse(cx, "1" + o1 + inner1 + e1 + mid + o2 + inner2 + e2 + "% t\n2", pre)
    codes = of_type(out, "code")
    cx.check_eq([c["content"] for c in codes], [inner1, inner2], "both codes")
    rest = "".join(["<>" if t["type"] == "code" else flat(t) for t in out])
    rest = "".join([ch for ch in rest if ch not in " \n"])
    want = {"\\%": "%", "$x$": "<x>", "": "", " ": ""}.get(mid, "")
    cx.check_eq(rest, "1<>" + want + "<>2", "text around")
