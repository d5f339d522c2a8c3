"""C17 preprocessing keeps the meaning of the document"""
from symtex.api import harness, LETTERS, DIGITS, LOWER, PRINTABLE
from hlib.common import parse, flat, of_type, text, walk
from hlib import forms

BLANK = " \t\n\r\f\v`'\""


def strip(s):
    return "".join([c for c in s if c not in BLANK])


def norm(t):
    """token structure with blanks and quotation marks removed and adjacent plain texts joined"""
    if isinstance(t, (list, tuple)):
        out = []
        for x in t:
            x = norm(x)
            if isinstance(x, dict) and x.get("type") == "text" and not x.get("styles"):
                if len(x["content"]) == 0:
                    continue
                if out and isinstance(out[-1], dict) and out[-1].get("type") == "text" and not out[-1].get("styles"):
                    out[-1] = {"type": "text", "content": out[-1]["content"] + x["content"]}
                    continue
            out.append(x)
        return out
    if isinstance(t, dict):
        return dict([(k, norm(t[k])) for k in t])
    if isinstance(t, str):
        return strip(t)
    return t


def same(cx, src, msg="the same tokens with and without preprocessing"):
    a = parse(cx, src, False)
    b = parse(cx, src, True)
    cx.check_eq(norm(b), norm(a), msg)
    return a, b


def one(f):
    return f if isinstance(f, str) else f[1]


SKIP = ["printcontents", "centerline", "documentclass", "usepackage", "RequirePackage", "LoadClass", "unless", "addto"]
FORMS = [one(f) for f in forms.ALL if not any([s in one(f) for s in SKIP])]


@harness(
    bounds="every construct the parser knows (one use each), alone and between text, with a symbolic character before and after it",
    covers=["alone", "between"],
    excludes="text after the end of the document, white space and quotation marks, class and package loading, braces left in the middle of a word",
)
def constructs(cx):
    f = cx.pick("f", FORMS)
    if cx.flag("alone"):
        cx.cover("alone")
        same(cx, f)
    else:
        cx.cover("between")
        a = cx.str("a", 1, 1, alpha="az09.,-(/<")
        b = cx.str("b", 1, 1, alpha="az09.,-(/<")
        # the preprocessor reads nothing after the end of the document
        same(cx, "w" + a + f + ("" if "\\end{document}" in f else " " + b + "z"))


HOLES = [
    "\\section{<>}", "\\textbf{<>}", "{\\bf <>}", "$<>$", "\\[<>\\]", "\\begin{equation}<>\\end{equation}", "\\begin{align}<>&=1\\\\2\\end{align}", "\\begin{itemize}\\item <>\\end{itemize}",
    "\\begin{tabular}{cc}<>&b\\\\c&<>\\end{tabular}", "\\begin{figure}\\includegraphics{a}\\caption{<>}\\label{b}\\end{figure}", "\\footnote{<>}", "\\begin{quote}<>\\end{quote}",
    "\\begin{theorem}[<>]<>\\end{theorem}", "\\begin{proof}<>\\end{proof}", "\\title{<>}", "\\author{<> \\and b}", "\\begin{abstract}<>\\end{abstract}", "\\unknown{<>}", "\\begin{unknown}<>\\end{unknown}",
    "\\href{u}{<>}", "\\caption{<>}", "\\begin{center}<>\\end{center}", "\\iftrue <>\\else b\\fi", "\\iffalse b\\else <>\\fi", "\\mbox{<>}", "\\emph{\\textit{<>}}", "\\begin{enumerate}[<>]\\item[<>] b\\end{enumerate}",
    "\\begin{algorithm}\\caption{<>}\\end{algorithm}", "\\begin{thebibliography}{9}\\bibitem{k}<>\\end{thebibliography}", "\\thanks{<>}",
    "a\\\\<>", "a~<>", "a--<>", "a\\&<>", "\\'e<>", "\\ss{}<>", "{<>}", "{<>} {<>}",
]
MACROS = [
    ("", "m"), ("\\newcommand{\\qa}{Q}", "\\qa"), ("\\newcommand{\\qa}{Q}", "\\qa{}"), ("\\newcommand{\\qb}[1]{<#1>}", "\\qb{v}"), ("\\newcommand{\\qe}[2][z]{#1/#2}", "\\qe{w}"),
    ("\\newcommand{\\qe}[2][z]{#1/#2}", "\\qe[1]{w}"), ("\\def\\qc{\\textbf{B}}", "\\qc"), ("\\def\\qd#1.{(#1)}", "\\qd u."), ("\\newcommand{\\qa}{Q}\\let\\qf\\qa", "\\qf"),
    ("\\newcommand{\\qm}{x^2}", "$\\qm$"), ("\\newcommand{\\qn}{\\ensuremath{y}}", "\\qn"), ("\\newcommand{\\qa}{Q}\\newcommand{\\qb}[1]{<#1>}\\newcommand{\\qg}{\\qa\\qb{k}}", "\\qg"),
    ("\\newif\\ifqx", "\\ifqx a\\else b\\fi"), ("\\newif\\ifqx\\qxtrue", "\\ifqx a\\else b\\fi"), ("\\DeclareMathOperator{\\qo}{op}", "$\\qo x$"), ("\\newcommand{\\qa}{P}\\renewcommand{\\qa}{Q}", "\\qa"),
    ("\\newcommand{\\qa}{P}\\renewcommand{\\qa}[1]{Q#1}", "\\qa r"), ("\\newcommand{\\qi}{\\item}", "m\\qa"), ("\\edef\\qh{E}\\gdef\\qi{G}", "\\qh\\qi"),
    ("\\newenvironment{qenv}{[}{]}", "\\begin{qenv}a\\end{qenv}"), ("\\newtheorem{qthm}{QThm}", "\\begin{qthm}a\\end{qthm}"), ("\\providecommand{\\qp}{P}", "\\qp"),
    ("\\newcommand{\\qv}{\\vec v}", "$\\qv_1$"), ("\\newcommand*\\qs[1]{{\\bf #1}}", "\\qs{u}"), ("\\newcommand{\\qx}{\\cite{k}}", "\\qx"), ("\\newcommand{\\qa}{Q}", "\\textbf{\\qa}"),
    ("\\expandafter\\def\\csname qa\\endcsname{Q}", "\\qa"), ("\\newcommand\\qt{$t$}", "\\qt"),
    ("\\newlength{\\ql}\\newcounter{qcnt}", "n"),
]


def instantiate(form, s):
    return form.replace("<>", s)


@harness(
    bounds="38 constructs holding a use of one of 29 kinds of definitions (zero and more arguments, optional, delimited, let, redefinition, conditionals, environments, theorems, math operators), with a symbolic character right after the use",
    covers=["done"],
    excludes="uses before the definition; conditionals in arguments of unknown commands; algorithmic; uses in keys and file names; unbraced and mid-word arguments; macros for one end of an environment; white space and quotation marks",
)
def macro_uses(cx):
    h = cx.pick("h", HOLES)
    d, u = cx.pick("m", MACROS)
    a = cx.str("a", 1, 1, alpha="09.,(<")
    cx.assume(not ("\\if" in u and "\\unknown{" in h))
    cx.cover("done")
    same(cx, d + " A " + instantiate(h, u + a) + " z")


REGION = [
    "\\verb|<>|", "\\verb*+<>+", "\\begin{verbatim}<>\\end{verbatim}", "\\begin{lstlisting}<>\\end{lstlisting}", "$<>$", "$$<>$$", "\\(<>\\)", "\\[<>\\]", "\\begin{equation}<>\\end{equation}",
    "\\begin{align*}<>\\end{align*}", "\\begin{eqnarray}<>\\end{eqnarray}", "\\url{<>}", "\\href{<>}{t}", "\\path{<>}",
    "\\begin{algorithmic}<>\\end{algorithmic}", "\\begin{tikzpicture}<>\\end{tikzpicture}", "\\begin{picture}<>\\end{picture}", "\\begin{tabular}{c}<>\\end{tabular}",
]
INNER = ["\\%", "a  b", "x\\\\y", "50\\%c", "__", "_1", "^2"]


@harness(
    bounds="n protected regions in one document (n any of 1..14, 18 kinds, the last of a kind of its own), 7 inner texts with 1 symbolic character; every region comes back once, in order, and no stand-in stays visible",
    covers=["many", "few"],
)
def regions(cx):
    r = cx.pick("r", REGION)
    q = cx.pick("q", ["$<>$", "\\verb|<>|", "\\url{<>}", "\\begin{verbatim}<>\\end{verbatim}", "\\[<>\\]"])
    i = cx.pick("i", INNER)
    k = cx.str("k", 1, 1, alpha=LOWER + "09")
    n = cx.pick("n", [1, 2, 11, 13])
    src = "".join(["t" + "abcdefghijklmn"[j] + instantiate(r, k + str(j) + "x") for j in range(n)]) + "u " + instantiate(q, k + i) + " v"
    cx.cover("many" if n > 9 else "few")
    a, b = same(cx, src)
    cx.check("_BLOCK" not in str(flat(b)) and "BLOCK_" not in flat(b), "no stand-in is left in the text")


QUOTED = [
    "\\'e", "\\`a", "f'", "f''", "$f'$", "$f''+g'$", "\\[h'\\]", "\\label{a'b}", "\\ref{a'b}", "\\cite{o'n}", "\\url{a'b''c}", "\\verb|a''b`c`|", "don't", "o'clock", "\\begin{verbatim}``a''\\end{verbatim}",
    "\\citep[see][p']{a'b}", "\\href{u'v}{w'}", "\\begin{equation}a''\\end{equation}", "rock 'n' roll", "\\includegraphics{a'b}",
]


def unquoted(t):
    """structure of tokens, texts without any quotation mark"""
    return norm(t)


@harness(
    bounds="20 uses of the quote characters that are not quotation marks (accents, primes, keys, addresses, code), after 0..2 and before 0..2 quotation marks, symbolic character between: other tokens exactly as without preprocessing",
    covers=["done"],
)
def quotes(cx):
    q = cx.pick("q", QUOTED)
    l = cx.pick("l", ["", "`a' ", "``a'' ", "``", "`"])
    r = cx.pick("r", ["", " `b'", " ``b''", "''", "'"])
    k = cx.str("k", 1, 1, alpha=LOWER + "09.")
    src = "w" + k + " " + l + q + r + " z"
    a, b = same(cx, src)
    cx.cover("done")
    for t in ("equation", "code", "url", "ref", "citation", "label", "includegraphics"):
        cx.check_eq(of_type(b, t), of_type(a, t), "formulas, code, keys and addresses are exactly the same")


OPENERS = ["\\noindent", "\\bf", "\\item", "\\unk", "\\par", "\\it", "\\hfill", "\\small", "\\centering", "\\alpha", "\\ss", "\\newline", "\\quad", "\\maketitle", "\\linebreak", "\\textbar", "\\sc", "\\bigskip", "\\LaTeX"]
GLUE = [
    ("\\newcommand{\\qa}{<>}", "\\qa"), ("\\newcommand{\\qb}[1]{<>#1}", "\\qb{v}"), ("", "\\iftrue <>\\else e\\fi"), ("", "\\iffalse e\\else <>\\fi"), ("", "\\hspace{1pt}<>"), ("", "\\newcommand{\\qa}{b}<>"),
    ("", "\\vspace*{2pt}<>"), ("", "\\newif\\ifqx <>"), ("", "\\def\\qd{d}<>"), ("", "{<>}"), ("", "\\setlength{\\a}{1pt}<>"), ("", "%c\n<>"), ("", "\\label{k}<>"), ("\\let\\qf\\textit", "\\qf{<>}"), ("", "\\large <>"), ("", " <>"),
]


@harness(
    bounds="19 commands directly before 16 things that expand, vanish or dissolve into text that starts with a symbolic letter or other character: the command stays the same command",
    covers=["letter", "other"],
)
def junctions(cx):
    o = cx.pick("o", OPENERS)
    d, g = cx.pick("g", GLUE)
    k = cx.str("k", 1, 1, alpha="abz9.(")
    cx.cover("letter" if k.isalpha() else "other")
    src = d + "w " + o + instantiate(g, k + "s") + " z"
    if o == "\\item":
        src = d + "\\begin{itemize}" + o + instantiate(g, k + "s") + " z\\end{itemize}"
    same(cx, src)


KINDS = ["\\newcommand{\\qa}{%}", "\\def\\qa{%}", "\\let\\qa=\\alpha ", "\\providecommand{\\qa}{%}", "\\newcommand{\\qb}{\\qa}", "\\renewcommand\\qa{%}"]


@harness(
    bounds="a macro defined, used, redefined (newcommand/def/let/renewcommand, with and without arguments) and used again, up to 2 redefinitions, symbolic bodies, uses in text, formula or argument",
    covers=["done"],
)
def histories(cx):
    src = "\\newcommand{\\qb}{\\qa}"
    n = cx.bound(2, 3)
    use = cx.pick("u", ["\\qa{}", "\\textbf{\\qa}", "$\\qa$", "\\qb", "\\section{\\qa}"])
    for i in range(n):
        kind = cx.pick("k" + str(i), KINDS[:4] if i == 0 else KINDS)
        body = cx.str("b" + str(i), 1, 1, alpha="xyz089")
        src += kind.replace("%", body + "pqr"[i]) + "t" + "efg"[i] + " " + use + ". "
    cx.cover("done")
    same(cx, src)


@harness(
    bounds="text of 1..3 symbolic characters, any printable except \\ { } $ % ` ' \" # & ^ _ ~, between two words",
    covers=["text"],
    tiers=("quick", "thorough"),
)
def plain(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha="".join([c for c in PRINTABLE if c not in "\\{}$%`'\"#&^_~"]))
    cx.cover("text")
    same(cx, "w" + s + "z")


def strings(v):
    """all strings of the tokens, joined"""
    if isinstance(v, list):
        out = ""
        for x in v:
            out += strings(x) + "|"
        return out
    if isinstance(v, dict):
        return strings(v.get("content"))
    return v or ""


@harness(
    bounds="a line break directly followed by one of 14 words that are names of commands too, in text, a table or a formula; symbolic letter or digit after the next word",
    covers=["done"],
)
def breaks(cx):
    word = cx.pick("word", ["if", "ifx", "iftrue", "else", "fi", "let", "def", "input", "include", "newcommand", "newif", "usepackage", "begin", "verb"])
    around = cx.pick("around", ["w\\\\%s z", "\\begin{tabular}{c}w\\\\%s z\\end{tabular}", "$\\begin{array}{c}w\\\\%s z\\end{array}$", "\\textbf{w\\\\%s z}"])
    k = cx.str("k", 1, 1, alpha=LETTERS + DIGITS)
    cx.cover("done")
    src = around.replace("%s", word + " it" + k)
    same(cx, src)
    cx.check(word + " it" + k in strings(parse(cx, src, True)), "the word is text")
