"""C31 drawings and algorithms are kept as their source"""
from symtex.api import harness, LETTERS, DIGITS
from hlib import forms
from hlib.common import parse, build, build_tex, text, walk

RAW = ["tikzpicture", "picture", "pgfpicture", "algorithmic"]
CODE = "\\{}[]()$&#^_~`'\"<>-/|;:,.=+*!?@ \nab01"


def raw(name, source):
    return {"type": "algorithmic" if name == "algorithmic" else "diagram", "name": name, "content": source}


def raws(tokens):
    return [(t["type"], t["name"], t["content"]) for t in walk(tokens) if t.get("type") in ("diagram", "algorithmic")]


@harness(
    bounds="drawings and algorithms of <=3 (thorough 4) symbolic characters (all structural characters but %, letters, digits, blanks), alone or among the usual code, between texts; plain and preprocessed",
    covers=["plain", "pre", "alone", "among"],
    max_ticks=400000,
)
def symbolic(cx):
    s = cx.str("s", 0, cx.bound(3, 4), alpha=CODE)
    name = cx.pick("name", cx.bound(["tikzpicture", "algorithmic"], RAW))
    frame = cx.pick("frame", ["<>", "\\draw (0,0) -- (1,1) node {<>};", "\\put(1,2){<>}\n\n\\If <> \\EndIf"])
    pre = cx.flag("pre")
    source = frame.replace("<>", s)
    cx.assume(" \n" not in source)  # blanks at the end of a line are none
    # an optional argument of the environment itself
    cx.assume(not (name == "algorithmic" and frame == "<>" and s.lstrip().startswith("[")))
    cx.cover("pre" if pre else "plain")
    cx.cover("alone" if frame == "<>" else "among")
    got = parse(cx, "x\\begin{" + name + "}" + source + "\\end{" + name + "}y", pre)
    cx.check_eq(got, [text("x"), raw(name, source.strip()), text("y")], "the source between the texts")


# what is nothing but layout, or something else, outside of drawings
CODES = [
    "\\node[text width=0.5\\textwidth]{<>};", "\\line(1,0){\\textwidth}<>", "\\hspace{2cm}<>", "\\hspace*{<>}", "\\vspace{1em}<>", "\\vskip 2pt <>", "\\centering <>",
    "\\small <>", "\\tiny{<>}", "{\\bf <>}", "\\textbf{<>}", "``<>''", "`<>'", "a  <>   b", "a\n\n\n<>", "\\\\[2pt]<>", "\\newline <>", "\\noindent <>", "\\par <>",
    "\\ifnum\\x>3 <>\\else b\\fi", "\\ifodd\\x <>\\fi", "\\ifdim\\x pt<2pt <>\\else\\fi", "\\IfFileExists{<>}{a}{b}", "\\ifthenelse{\\x>1}{<>}{b}",
    "\\foreach \\x in {1,...,<>} {\\node {\\x};}", "\\begin{scope}[x=<>]a\\end{scope}", "\\begin{axis}\\addplot{<>};\\end{axis}", "\\begin{tabular}{c}a & <>\\\\\\end{tabular}",
    "\\makebox(0,0){<>}", "\\fbox{<>}", "\\mbox{<>}", "\\raisebox{1pt}{<>}", "\\scalebox{2}{<>}", "\\resizebox{1cm}{!}{<>}", "\\rotatebox{90}{<>}", "\\rule{1cm}{<>pt}",
    "\\label{<>}", "\\ref{<>}", "\\cite{<>}", "\\footnote{<>}", "\\caption{<>}", "\\section{<>}", "\\includegraphics[width=2cm]{<>}", "\\url{<>}", "\\item <>",
    "$a_<>$", "\\(a^<>\\)", "$$<>$$", "\\begin{equation}<>\\end{equation}", "\\ensuremath{<>}", "\\'e<>", "\\\"{<>}", "\\alpha <>", "\\LaTeX <>", "---<>", "~<>", "\\,<>", "\\ <>", "\\%<>", "\\&<>", "\\{<>\\}",
    "\\State $x \\gets <>$", "\\If{<>} \\State a \\EndIf", "\\For{$i=1$ to $<>$} \\EndFor", "\\Comment{<>}", "\\Require{<>}", "\\Return <>", "\\color{<>}", "\\textcolor{red}{<>}", "\\usetikzlibrary{<>}",
    "\\pgfplotsset{<>}", "\\tikzset{a/.style={<>}}", "\\pgfmathsetmacro{\\a}{<>}", "\\path (<>) edge (a);", "\\clip (<>) circle (1);", "\\unknown[<>]{b}{c}", "\\begin{unknown}<>\\end{unknown}",
    "\\verb|<>|", "\\begin{comment}<>\\end{comment}", "\\pagebreak <>", "\\setlength{\\unitlength}{<>cm}", "\\multiput(0,0)(1,0){<>}{\\line(0,1){1}}", "\\phantom{<>}", "\\centerline{<>}", "\\begin{center}<>\\end{center}",
    "\\linewidth<>", "\\columnwidth <>", "\\hfill <>", "\\quad <>", "\\baselineskip=<>pt", "\\protect <>", "\\xspace <>", "\\maketitle <>", "\\hline <>", "\\cline{1-<>}", "\\appendix <>", "{<>", "<>}", "$<>", "[<>", "\\fi <>", "\\else <>",
]


@harness(
    bounds="%d pieces of code which are layout, conditions, commands, environments, math or unbalanced outside of drawings, around <=1 (thorough 2) symbolic letters and digits, in each raw environment; plain, preprocessed and built; the same layout behind it is resolved" % len(CODES),
    covers=["plain", "pre", "built"],
)
def codes(cx):
    name = cx.pick("name", cx.bound(RAW[:1] + RAW[3:], RAW))
    code = cx.pick("code", CODES)
    s = cx.str("s", 1, cx.bound(1, 2), alpha=LETTERS + DIGITS)
    mode = cx.pick("mode", ["plain", "pre", "built"])
    cx.cover(mode)
    code = code.replace("<>", s)
    cx.assume(not (name == "algorithmic" and code.startswith("[")))
    src = "x\\begin{" + name + "} \\draw a;\n" + code + " ;\\end{" + name + "}y\\hspace{1cm}\\centering"
    want = [text("x"), raw(name, "\\draw a;\n" + code + " ;"), text("y")]
    if mode == "built":
        got = build_tex(cx, src)
        got = [{k: v.strip() if k == "content" and i == 2 else v for k, v in t.items() if v is not None} for i, t in enumerate(got)]
        if name == "algorithmic":
            cx.check_eq(got[1]["content"], want[1]["content"], "source in the output")
            return
    else:
        got = parse(cx, src, mode == "pre")
        got = [dict(t, content=t["content"].strip()) for t in got]
    cx.check_eq(got, want, "the source, and the texts around it")


@harness(
    bounds="each of %d constructs of the document inside each raw environment, unless it defines something: its source unchanged, plain and preprocessed" % len(forms.ALL),
    covers=["plain", "pre"],
)
def constructs(cx):
    name = cx.pick("name", cx.bound(RAW[:1], RAW))
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    known = [f for f in forms.ALL if f not in forms.DEFS and "document" not in f and "%" not in f and name not in f and "input" not in f and "include{" not in f and "package" not in f and "csname" not in f and "new" not in f]
    form = cx.pick("form", known)
    got = parse(cx, "x\\begin{" + name + "}a " + form + " b\\end{" + name + "}y", pre)
    cx.check_eq(got, [text("x"), raw(name, "a " + form + " b"), text("y")], "the source")


PLACES = [
    ("\\begin{figure}[h]\\centering ", "\\caption{c}\\label{k}\\end{figure}"), ("\\begin{center}", "\\end{center}"), ("\\begin{itemize}\\item ", "\\end{itemize}"),
    ("\\begin{tabular}{cc}", "& d\\end{tabular}"), ("\\footnote{", "}"), ("\\section{", "}"), ("\\resizebox{2cm}{!}{", "}"), ("\\scalebox{2}{", "}"), ("\\fbox{", "}"), ("{\\bf ", "}"),
    ("\\textbf{", "}"), ("\\begin{minipage}{2cm}", "\\end{minipage}"), ("\\begin{theorem}", "\\end{theorem}"), ("\\begin{unknown}", "\\end{unknown}"), ("\\begin{subfigure}[b]{2cm}", "\\caption{c}\\end{subfigure}"),
    ("\\begin{algorithm}[H]\\caption{c}\\label{k}", "\\end{algorithm}"), ("\\begin{quote}", "\\end{quote}"), ("\\begin{abstract}", "\\end{abstract}"), ("\\newcommand{\\qa}{", "}\\qa{}"), ("\\newcommand{\\qa}[1]{#1}\\qa{", "}"),
    ("\\newenvironment{qa}{a}{b}\\begin{qa}", "\\end{qa}"), ("\\begin{landscape}", "\\end{landscape}"), ("\\ifx\\qz\\undefined ", "\\fi"), ("{", "}"), ("\\begin{adjustbox}{width=2cm}", "\\end{adjustbox}"),
]


@harness(
    bounds="a raw environment with <=2 (thorough 3) symbolic letters, digits and blanks and layout in it, once or twice, in %d places; plain and preprocessed, and in the JSON" % len(PLACES),
    covers=["one", "two"],
)
def places(cx):
    name = cx.pick("name", cx.bound(RAW[:1] + RAW[3:], RAW))
    o, c = cx.pick("place", PLACES)
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS + " ")
    pre = cx.flag("pre")
    two = cx.flag("two")
    cx.cover("two" if two else "one")
    source = "\\draw{" + s + "}; \\hspace{1cm} `a' \\small"
    piece = "\\begin{" + name + "}" + source + "\\end{" + name + "}"
    tokens = parse(cx, "x " + o + piece + (" and " + piece if two else "") + c + " z", pre)
    want = [raw(name, source)] * (2 if two else 1)
    want = [(t["type"], t["name"], t["content"]) for t in want]
    cx.check_eq(raws(tokens), want, "the source")
    if name != "algorithmic":
        cx.check_eq(raws(build(cx, tokens)), want, "the source in the JSON")


@harness(
    bounds="documents of <=4 (thorough 5) pieces: drawings, drawings in drawings, drawings from macros with arguments, layout and text, with symbolic characters; each drawing is its source, the rest is as if it was not there; plain and preprocessed",
    covers=["plain", "pre"],
)
def sequences(cx):
    s = cx.str("s", 1, 2, alpha="ab1-")
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    src, want, n = "\\newcommand{\\qa}[1]{\\begin{tikzpicture}[scale=#1]\\draw #1 \\small; \\end{tikzpicture}}\\newcommand{\\qb}{m\\hspace{1cm}}", [], 0
    rest = ""
    for i in range(cx.bound(4, 5)):
        k = cx.pick("k%d" % i, ["", "drawing", "nested", "macro", "layout", "algorithm"])
        if k == "drawing":
            src += "\\begin{picture}(1,1) " + s + "\\vspace{1em}\\end{picture}"
            want.append(("diagram", "picture", ("(1,1) " + s + "\\vspace{1em}").strip()))
        elif k == "nested":
            src += "\\begin{tikzpicture}\\begin{tikzpicture}``" + s + "''\\end{tikzpicture} \\hspace{" + s + "}\\end{tikzpicture}"
            want.append(("diagram", "tikzpicture", "\\begin{tikzpicture}``" + s + "''\\end{tikzpicture} \\hspace{" + s + "}"))
        elif k == "macro":
            src += "\\qa{" + s + "}"
            want.append(("diagram", "tikzpicture", "[scale=" + s + "]\\draw " + s + " \\small;"))
        elif k == "algorithm":
            src += "\\begin{algorithmic}[1]\\State `" + s + "'\\end{algorithmic}"
            want.append(("algorithmic", "algorithmic", "\\State `" + s + "'"))
        elif k == "layout":
            src += " t\\vspace{1em}\\qb{}"
            rest += "tm"
    tokens = parse(cx, src + " z", pre)
    cx.check_eq(raws(tokens), want, "the sources in order")
    out = "".join("".join(t["content"].split()) for t in tokens if t.get("type") == "text")
    cx.check_eq(out, rest + "z", "the text around")
