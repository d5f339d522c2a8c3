"""C16 a conditional yields exactly one whole branch"""
from symtex.api import harness, LETTERS, LOWER
from hlib.common import parse, flat, of_type, text, squeeze

W = "abz09.(<"
# conditions by the branch they take; what cannot be decided takes the first one
TAKES_FIRST = [
    "\\iftrue", "\\ifmmode", "\\ifdraft", "\\ifx\\foo\\bar", "\\ifx\\foo\\undefined", "\\ifdefined\\foo", "\\ifnum1<2", "\\ifnum\\value{page}>1", "\\ifnum\\x=-3",
    "\\ifdim1pt<2pt", "\\ifdim\\linewidth>1pt", "\\ifodd3", "\\ifodd\\value{page}", "\\newif\\ifqq\\ifqq", "\\newif\\ifqq\\qqtrue\\ifqq", "\\if@twocolumn", "\\ifcase0",
    "\\ifcat ab", "\\if aa", "\\ifhmode", "\\ifvmode", "\\ifpdf",
]
TAKES_ELSE = ["\\iffalse", "\\ifcase7"]


@harness(
    bounds="24 kinds of condition, with and without an else part, both branches of 0..2 symbolic characters of 'abz09.(<', plain and preprocessed, text on both sides",
    covers=["first", "else", "neither"],
)
def single(cx):
    c = cx.pick("c", TAKES_FIRST + TAKES_ELSE)
    a = cx.str("a", 0, cx.bound(2, 4), alpha=W)
    b = cx.str("b", 0, cx.bound(2, 4), alpha=W)
    has_else = cx.flag("else")
    pre = cx.flag("pre")
    src = "x" + c + " " + a + ("\\else " + b if has_else else "") + "\\fi 9y"
    if c not in TAKES_ELSE:
        want = a
        cx.cover("first")
    elif has_else:
        want = b
        cx.cover("else")
    else:
        want = ""
        cx.cover("neither")
    cx.check_eq(parse(cx, src, pre), [text("x" + want + " 9y")], "one whole branch between the texts around it")


def tree(cx, name, depth, budget):
    """(source, text) of a random conditional nest"""
    kind = cx.pick(name + ".c", ["\\iftrue", "\\iffalse", "\\newif\\ifqq\\ifqq", "then"] if depth == 0 else ["\\iftrue", "\\iffalse", "\\ifx\\p\\q"])
    first, second = [], []
    parts = []
    for i in (0, 1):
        s = "uvwabcdefghijk"[budget[0]]
        budget[0] += 1
        if depth > 0 and cx.flag(name + "." + str(i)):
            src, out = tree(cx, name + str(i), depth - 1, budget)
            parts.append((s + src + s, s + out + s))
        else:
            parts.append((s, s))
    if kind == "then":
        return "\\ifthenelse{\\x}{" + parts[0][0] + "}{" + parts[1][0] + "}", parts[0][1]
    if cx.flag(name + ".else"):
        src = kind + " " + parts[0][0] + "\\else " + parts[1][0] + "\\fi"
        other = parts[1][1]
    else:
        src = kind + " " + parts[0][0] + "\\fi"
        other = ""
    return src + "0", (other if kind == "\\iffalse" else parts[0][1]) + "0"


@harness(
    bounds="all nests of conditionals of depth <=2 (thorough 3) with up to one nested conditional per branch, optional else parts, 4 kinds; distinct text around every part",
    covers=["done"],
)
def nests(cx):
    src, out = tree(cx, "t", cx.bound(1, 2), [0])
    pre = cx.flag("pre")
    cx.cover("done")
    cx.check_eq(parse(cx, "x" + src + "y", pre), [text("x" + out + "y")], "nested conditionals end at their own end")


OPENINGS = ["\\iftrue", "\\iffalse", "\\ifx\\a\\b", "\\ifmmode", "\\newif\\ifqq\\ifqq"]


@harness(
    bounds="the character right after the condition, after else and after fi: each any of 26 non-letters and blanks",
    covers=["first", "else"],
    excludes="braces, whose group may be kept or dissolved",
)
def boundaries(cx):
    c = cx.pick("c", OPENINGS)
    chars = "0189.,;:()[]<>+=!?\"/*|'`- \n"
    which = cx.pick("at", [0, 1, 2])
    d = cx.str("d", 1, 1, alpha=chars)
    s = [d if which == i else " " for i in (0, 1, 2)]
    src = "x" + c + s[0] + "a\\else" + s[1] + "b\\fi" + s[2] + "y"
    if c == "\\iffalse":
        want = "x" + (s[1] + "b").strip() + s[2] + "y"
        cx.cover("else")
    else:
        want = "x" + (s[0] + "a").strip() + s[2] + "y"
        cx.cover("first")
    cx.check_eq(flat(parse(cx, src)), want, "nothing around the parts is lost")


@harness(
    bounds="ifcase with a symbolic literal digit, 1..4 branches and an optional else part, branch texts with a symbolic character",
    covers=["else", "none", "branch"],
)
def ifcase(cx):
    k = cx.pick("k", [1, 2, 3, 4])
    n = cx.str("n", 1, 1, alpha="0123456789")
    pre = cx.flag("pre")
    has_else = cx.flag("else")
    t = cx.str("t", 1, 1, alpha="abz09.")
    texts = [["p", "q", "r", "s"][i] + t for i in range(k)]
    src = "x\\ifcase" + n + " " + "\\or ".join(texts) + ("\\else e" if has_else else "") + "\\fi2"
    i = int(n)
    if i < k:
        want = texts[i]
        cx.cover("branch")
    elif has_else:
        want = "e"
        cx.cover("else")
    else:
        want = ""
        cx.cover("none")
    cx.check_eq(parse(cx, src, pre), [text("x" + want + "2")], "the branch the number selects")


BRACED = [
    ("\\ifthenelse{\\equal{a}{b}}{%a}{%b}", 0), ("\\ifthenelse{\\boolean{q}}{%a}{%b}", 0), ("\\ifthenelse {\\x} {%a} {%b}", 0), ("\\IfFileExists{nofile}{%a}{%b}", None),
    ("\\ifbool{q}{%a}{%b}", 0), ("\\newbool{q}\\booltrue{q}\\ifbool{q}{%a}{%b}", 0), ("\\newbool{q}\\ifbool{q}{%a}{%b}", 1),
    ("\\newbool{q}\\setbool{q}{true}\\ifbool{q}{%a}{%b}", 0), ("\\newbool{q}\\setbool{q}{true}\\notbool{q}{%a}{%b}", 1), ("\\newbool{q}\\notbool{q}{%a}{%b}", 0),
    ("\\@ifstar{%a}{%b}", 0), ("\\@ifundefined{p}{%a}{%b}", 0), ("\\@ifpackageloaded{p}{%a}{%b}", 0), ("\\@ifclassloaded {p} {%a} {%b}", 0),
]


@harness(
    bounds="14 conditionals with branches in braces, alone and within either branch of \\iftrue/\\iffalse, branch texts of 1..2 symbolic characters",
    covers=["alone", "inside"],
    excludes="which branch \\IfFileExists takes",
)
def braced(cx):
    src, branch = cx.pick("b", BRACED)
    a = cx.str("a", 1, 2, alpha="abz09.")
    b = "Q{R}S"
    pre = cx.flag("pre")
    src = src.replace("%a", a).replace("%b", "QRS")
    wants = [a, "QRS"] if branch is None else [[a, "QRS"][branch]]
    where = cx.pick("where", [0, 1, 2])
    if where == 0:
        src = "x " + src + "y"
        tails = ["x ", "y"]
        cx.cover("alone")
    elif where == 1:
        src = "x \\iftrue m " + src + "n\\else o\\fi y"
        tails = ["x m ", "n y"]
        cx.cover("inside")
    else:
        src = "x \\iffalse o\\else m " + src + "n\\fi y"
        tails = ["x m ", "n y"]
    got = parse(cx, src, pre)
    got = [t for t in got if t["type"] not in ("bool_definition", "bool_set")]
    out = flat(got)
    cx.check(len([w for w in wants if out == tails[0] + w + tails[1]]) == 1, "exactly one braced branch")


DECOYS = [
    "\\iff ", "\\ifthenelse{p}{q}{r}", "\\newif\\ifzz ", "\\newif \\ifzz\\zztrue ", "\\@ifundefined{p}{q}{r}", "\\IfFileExists{p}{q}{r}", "\\ifbool{p}{q}{r}", "\\fill ",
    "\\elsewhere ", "\\orange ", "\\figure ", "\\ifstrempty{p}{q}{r}", "\\@ifnextchar[{q}{r}", "\\ifblank{p}{q}{r}", "\\finite{p}", "\\or@x ", "\\fi@x ", "\\else@x ", "\\\\if", "\\\\or", "\\\\else", "\\\\fi ", "\\\\iftrue ", "\\\\\\\\fi ",
]


@harness(
    bounds="24 commands and line breaks whose names begin like the parts of a conditional, in either branch of a conditional (top level or nested), with a symbolic text character after it",
    covers=["taken", "skipped"],
)
def decoys(cx):
    d = cx.pick("d", DECOYS)
    k = cx.str("k", 1, 1, alpha="abz09.")
    nest = cx.flag("nest")
    pre = cx.flag("pre")
    l, r = ("\\iftrue ", "\\fi ") if nest else ("", "")
    if cx.flag("skipped"):
        cx.cover("skipped")
        out = parse(cx, "x\\iffalse " + l + "K" + d + k + r + "\\else E\\fi 9y", pre)
        cx.check_eq(out, [text("xE 9y")], "the end is found in spite of the command in the skipped branch")
    else:
        cx.cover("taken")
        out = flat(parse(cx, "x\\iftrue " + l + "K" + d + k + r + "\\else E\\fi 9y", pre))
        cx.check(out.startswith("xK") and out.endswith(k + " 9y") and "E" not in out, "the whole branch is kept")


JUNK = [
    "{<>", "}<>", "\\item <>", "\\end{itemize}<>", "\\begin{itemize}\\item <>", "\\section{<>", "\\newcommand{\\foo}{<>}", "\\def\\foo{<>}", "\\label{<>}", "\\newtheorem{<>}{<>}",
    "$<>", "\\begin{verbatim}<>", "\\input{<>}", "\\author{<>}", "\\newif\\iffoo <>", "\\footnote{<>", "\\begin{document}<>", "\\cite{<>", "&<>", "\\\\<>", "\\begin{equation}<>",
    "\\let\\foo\\bar<>", "\\newenvironment{foo}{<>}{<>}", "\\foo", "\\undefined{<>}", "#1<>", "\\[<>", "\\maketitle <>", "\\iftrue <>\\fi", "\\ifx\\a\\b <>\\else <>\\fi", "\\usepackage{<>}",
    "\\title{<>}", "\\bibliography{<>}", "\\appendix <>", "\\textbf{<>", "\\bf <>", "\\begin{foo}<>", "\\end{foo}<>", "~<>", "``<>",
]


@harness(
    bounds="40 kinds of material (broken or with side effects) in a skipped branch, with a symbolic character in it, before, after or between; the definitions, environments and tokens outside unaffected",
    covers=["first", "second"],
    excludes="\\verb of the names of the parts of a conditional in the skipped branch",
)
def skipped_is_inert(cx):
    j = cx.pick("j", JUNK)
    k = cx.str("k", 0, 1, alpha=LOWER + "09.")
    j = j.replace("<>", k)
    pre = cx.flag("pre")
    if cx.flag("first"):
        cond = "\\iffalse " + j + "\\else E\\fi"
        cx.cover("first")
    else:
        cond = "\\iftrue E\\else " + j + "\\fi"
        cx.cover("second")
    head = "\\newcommand{\\foo}{F}"
    tail = " 9\\foo \\begin{itemize}\\item m\\end{itemize}$n$"
    got = parse(cx, head + "x" + cond + tail, pre)
    want = parse(cx, head + "xE" + tail, pre)
    cx.check_eq(got, want, "a skipped branch leaves no trace")


TAKEN = [
    "\\textbf{<>}", "$<>$", "\\section{<>}", "\\begin{itemize}\\item <>\\end{itemize}", "\\begin{tabular}{cc}<>&b\\end{tabular}", "\\footnote{<>}", "\\cite{<>}", "\\ref{<>}",
    "\\begin{equation}<>\\end{equation}", "\\begin{quote}<>\\end{quote}", "\\verb|<>|", "\\url{<>}", "\\begin{theorem}<>\\end{theorem}", "\\unknown{<>}", "\\[<>\\]", "{\\bf <>}q",
    "\\newcommand{\\foo}{<>}\\foo", "\\def\\foo#1{<>#1}\\foo{b}", "\\begin{figure}\\caption{<>}\\end{figure}", "\\emph{\\textit{<>}}", "\\'e<>", "\\href{<>}{b}", "\\title{<>}", "a\\\\<>",
    "\\begin{verbatim}<>\\end{verbatim}", "\\label{<>}", "\\includegraphics{<>}", "\\author{<>}", "\\begin{abstract}<>\\end{abstract}", "\\ifthenelse{a}{<>}{b}",
]


@harness(
    bounds="30 constructs with a symbolic character in the taken branch, plain and preprocessed: same tokens as without the conditional",
    covers=["first", "second"],
)
def taken_is_parsed(cx):
    t = cx.pick("t", TAKEN)
    k = cx.str("k", 1, cx.bound(1, 2), alpha=LOWER + "09")
    t = t.replace("<>", k)
    pre = cx.flag("pre")
    if cx.flag("first"):
        cond = "\\iftrue " + t + "\\else " + cx.pick("e", ["", "e", "\\section{e}"]) + "\\fi"
        cx.cover("first")
    else:
        cond = "\\iffalse " + cx.pick("e", ["", "e", "\\section{e}"]) + "\\else " + t + "\\fi"
        cx.cover("second")
    got = parse(cx, "x:" + cond + ",y", pre)
    want = parse(cx, "x:" + t + ",y", pre)
    cx.check_eq(got, want, "the taken branch reads as if it stood alone")


CTX = [
    ("\\section{", "}", "section"), ("\\textbf{", "}", "text"), ("\\footnote{", "}", "footnote"), ("\\begin{quote}", "\\end{quote}", "quote"),
    ("\\begin{itemize}\\item ", "\\end{itemize}", "item"), ("\\begin{tabular}{c}", "\\end{tabular}", "tabular"), ("\\begin{theorem}", "\\end{theorem}", "math_env"),
    ("\\caption{", "}", "caption"), ("\\begin{abstract}", "\\end{abstract}", "abstract"), ("\\title{", "}", "title"), ("\\begin{center}", "\\end{center}", "group"),
    ("\\begin{figure}", "\\end{figure}", "figure"), ("\\newcommand{\\foo}{", "}\\foo ", "text"), ("\\begin{unknown}", "\\end{unknown}", "environment"),
]


@harness(
    bounds="a conditional (4 kinds) inside each of 14 constructs, branch texts with a symbolic character",
    covers=["done"],
    excludes="conditionals written in math, which stay part of the formula's source",
)
def contexts(cx):
    l, r, typ = cx.pick("ctx", CTX)
    c, n = cx.pick("c", [("\\iftrue", 0), ("\\iffalse", 1), ("\\ifx\\a\\b", 0), ("\\newif\\ifqq\\ifqq", 0)])
    a = cx.str("a", 1, 1, alpha="abz09.")
    pre = cx.flag("pre")
    got = parse(cx, "w " + l + "p" + c + " " + a + "Q\\else " + a + "R\\fi " + "s" + r + "z", pre)
    want = parse(cx, "w " + l + "p" + a + "QR"[n] + " s" + r + "z", pre)
    cx.cover("done")
    cx.check(typ == "tabular" or len(of_type(got, typ)) >= 1, "construct present")
    cx.check_eq(got, want, "conditional resolved inside the construct")


RESERVED = ["f", "x", "num", "dim", "odd", "cat", "eof", "def", "true", "case", "void", "csdef", "false", "hmode", "vmode", "mmode", "inner", "undef", "hbox", "vbox"]


@harness(
    bounds="two conditionals declared by newif with symbolic names of 1..2 (thorough 3) letters each, used in either order",
    covers=["prefix"],
    excludes="names that are conditionals of TeX itself",
)
def newif_names(cx):
    n = cx.bound(2, 3)
    p = cx.str("p", 1, n, alpha="abxf")
    q = cx.str("q", 1, n, alpha="abxf")
    cx.assume(p not in RESERVED and q not in RESERVED)
    cx.assume(p != q)
    if p.startswith(q) or q.startswith(p):
        cx.cover("prefix")
    src = "\\newif\\if" + p + "\\newif\\if" + q + "\\" + q + "true "
    src = src + "x\\if" + p + " m\\else n\\fi,\\if" + q + " o\\else\\if" + p + " r\\fi\\fi;y"
    cx.check_eq(parse(cx, src, cx.flag("pre")), [text("xm,o;y")], "each name is its own conditional")


@harness(
    bounds="macros holding a whole conditional or its first part, called with a symbolic argument of 1..2 characters",
    covers=["whole", "begin"],
)
def macros(cx):
    a = cx.str("a", 1, 2, alpha="abz09.")
    pre = cx.flag("pre")
    d = cx.pick("d", ["\\newcommand{\\foo}[1]{%s}", "\\def\\foo#1{%s}"])
    c, n = cx.pick("c", [("\\iftrue", 0), ("\\iffalse", 1), ("\\ifx\\a\\b", 0)])
    if cx.flag("whole"):
        cx.cover("whole")
        src = d.replace("%s", c + " <#1>\\else(#1)\\fi") + "x \\foo{" + a + "},y"
    else:
        cx.cover("begin")
        src = d.replace("%s", c + " <#1>") + "x \\foo{" + a + "}\\else(" + a + ")\\fi,y"
    cx.check_eq(parse(cx, src, pre), [text("x " + ["<" + a + ">", "(" + a + ")"][n] + ",y")], "conditional from a macro")


@harness(
    bounds="a command at the end of the taken branch followed by a symbolic character",
    covers=["letter", "other"],
)
def command_at_end(cx):
    k = cx.str("k", 1, 2, alpha="abzQ09.(")
    c = cx.pick("c", ["\\iftrue \\qq\\else e\\fi ", "\\iftrue\\qq\\fi ", "\\iffalse e\\else\\qq\\fi ", "\\ifthenelse{a}{\\qq}{e}"])
    pre = cx.flag("pre")
    if k[0] in LETTERS:
        cx.cover("letter")
    else:
        cx.cover("other")
    got = parse(cx, "x" + c + k, pre)
    cx.check_eq([t for t in got if t["type"] == "command"], [{"type": "command", "command": "\\qq"}], "the command keeps its name")
    cx.check_eq(flat(got).replace(" ", ""), "x" + k, "the text after the conditional is whole")


@harness(
    bounds="unfinished and stray parts of conditionals with symbolic text of 1..2 characters on both sides",
    covers=["done"],
)
def unfinished(cx):
    a = cx.str("a", 1, 2, alpha="abz09.")
    b = cx.str("b", 1, 1, alpha="abz09.")
    p = cx.pick("p", ["\\iftrue ", "\\iffalse ", "\\ifdraft ", "\\fi ", "\\else ", "\\or ", "\\iftrue x\\fi\\fi ", "\\newif\\ifqq \\ifqq "])
    pre = cx.flag("pre")
    got = flat(parse(cx, a + p + b + ";", pre))
    cx.cover("done")
    cx.check(got.startswith(a), "text before is kept")
    cx.check(got.endswith(b + ";"), "text after is kept")


@harness(
    bounds="\\ifnum on two symbolic numbers of 1..2 digits with or without sign, \\ifodd on one, \\if and \\ifx on two symbolic characters, with both branches, without \\else, and within another conditional; text directly behind",
    covers=["holds", "fails"],
)
def constants(cx):
    kind = cx.pick("kind", ["num", "odd", "if", "ifx"])
    if kind in ("num", "odd"):
        sa, sb = cx.pick("sa", ["", "-"]), cx.pick("sb", ["", "-"]) if kind == "num" else ""
        a = cx.int("a", 0, cx.bound(11, 19))
        if kind == "num":
            b = cx.int("b", 0, cx.bound(5, 19))
            op = cx.pick("op", ["<", ">", "="])
            x, y = (-a if sa else a), (-b if sb else b)
            holds = x < y if op == "<" else x > y if op == ">" else x == y
            gap = cx.pick("gap", ["", " "])
            cond = "\\ifnum" + gap + sa + str(a) + gap + op + gap + sb + str(b) + " "
        else:
            holds = a % 2 == 1
            cond = "\\ifodd " + sa + str(a) + " "
    else:
        a, b = cx.str("a", 1, 1, alpha="ab01.!"), cx.str("b", 1, 1, alpha="ab01.!")
        holds = a == b
        cond = "\\" + kind + cx.pick("gap", [" "]) + a + b
    c = "%s" if kind == "num" else cx.pick("in", ["%s", "\\iftrue %s\\else u\\fi{}", "\\iffalse u\\else %s\\fi{}"])
    text = "s" if kind == "num" else cx.str("s", 1, 1, alpha=LETTERS + ".")
    els = cx.flag("else")
    src = cond + text + "yes" + ("\\else no\\fi" if els else "\\fi")
    got = squeeze(flat(parse(cx, "x " + c.replace("%s", src) + "|z", kind != "num" and cx.flag("pre"))))
    if holds:
        cx.cover("holds")
        cx.check_eq(got, "x" + text + "yes|z", "text")
    else:
        cx.cover("fails")
        cx.check_eq(got, "x" + ("no" if els else "") + "|z", "text")


@harness(
    bounds="a macro that tests in 5 ways whether its argument (0..2 symbolic characters) is empty or a given number or letter",
    covers=["yes", "no"],
)
def tests_of_arguments(cx):
    test, f = cx.pick("test", [
        ("\\ifx\\empty#1\\empty yes\\else no\\fi", lambda s: s == ""), ("\\if!#1!yes\\else no\\fi", lambda s: s == ""), ("\\ifx&#1&yes\\else no\\fi", lambda s: s == ""),
        ("\\ifx\\relax#1\\relax yes\\else no\\fi", lambda s: s == ""), ("\\ifnum0#1=1 yes\\else no\\fi", None), ("\\if a#1.yes\\else no\\fi", None),
    ])
    if "num" in test:
        s = cx.str("s", 0, 2, alpha="0123")
        yes = int("0" + s) == 1
    elif f is None:
        s = cx.str("s", 1, 1, alpha="abc")
        yes = s == "a"
    else:
        s = cx.str("s", 0, 2, alpha="abc012.")
        yes = f(s)
    how = cx.pick("how", ["\\newcommand{\\qa}[1]{%s}", "\\def\\qa#1{%s}"])
    got = squeeze(flat(parse(cx, how.replace("%s", test) + "x\\qa{" + s + "}|\\qa{" + s + "}", cx.flag("pre"))))
    cx.cover("yes" if yes else "no")
    w = ("." if ".yes" in test else "") + "yes" if yes else "no"
    cx.check_eq(got, "x" + w + "|" + w, "text")


OPS = ["newbool{%}", "providebool{%}", "setbool{%}{true}", "setbool{%}{false}", "booltrue{%}", "boolfalse{%}", "booltrue {%}", "setbool {%} {true}"]


@harness(
    bounds="two booleans defined, then all orders of 2 (thorough 3) operations out of 8 on either (define, provide, set), then a test of both; branch texts of 0..1 symbolic characters, plain and preprocessed",
    covers=["true", "false"],
)
def booleans(cx):
    value = {"p": False, "q": False}
    src = "\\newbool{p}\\providebool{q}"
    for i in range(cx.bound(2, 3)):
        op = cx.pick("op%d" % i, OPS)
        name = cx.pick("n%d" % i, ["p", "q"])
        src += "\\" + op.replace("%", name)
        if op.startswith("newbool"):
            value[name] = False
        elif not op.startswith("provide"):
            value[name] = "true" in op
    a = cx.str("a", 0, 1, alpha="ab1.")
    pre = cx.flag("pre")
    want = "x"
    for name in ("p", "q"):
        src += "x\\ifbool{" + name + "}{y" + a + "}{n" + a + "}"
        want += ("y" if value[name] else "n") + a + ("x" if name == "p" else "z")
        cx.cover("true" if value[name] else "false")
    cx.check_eq(squeeze(flat(parse(cx, src + "z", pre))), want, "the branches the booleans select")
