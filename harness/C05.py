"""C05 which definition a command name refers to"""
from symtex.api import harness, LETTERS, DIGITS, PLAIN
from hlib.common import parse, flat, text, of_type, squeeze

W = "abz059.,;:"


# ways to give a name a meaning: the definition, what to write before it, the arguments of a use and what the use stands for
NAMING = [
    ("\\newcommand{\\Q%s}{hit}", "", "hit"), ("\\def\\Q%s{hit}", "", "hit"), ("\\newcommand\\Q%s{hit}", "", "hit"), ("\\let\\Q%s\\Target ", "\\def\\Target{hit}", "hit"),
    ("\\let\\Q%s=\\Target ", "\\def\\Target{hit}", "hit"), ("\\let\\Q%s=*\n", "", "*"), ("\\let\\Q%s\\S ", "", "§"), ("\\renewcommand{\\Q%s}{hit}", "", "hit"),
    ("\\providecommand{\\Q%s}{hit}", "", "hit"), ("\\DeclareRobustCommand{\\Q%s}{hit}", "", "hit"), ("\\edef\\Q%s{hit}", "", "hit"), ("\\gdef\\Q%s{hit}", "", "hit"), ("\\long\\def\\Q%s{hit}", "", "hit"),
    ("\\newcommand{\\Q%s}[1][hit]{#1}", "", "hit"), ("\\expandafter\\def\\csname Q%s\\endcsname{hit}", "", "hit"), ("\\DeclareMathOperator{\\Q%s}{hit}", "", None), ("\\DeclarePairedDelimiter{\\Q%s}{|}{|}", "", None),
    ("\\newif\\ifQ%s ", "", None),
]


@harness(
    bounds="definition and use with independent symbolic names Q + <=2 (thorough 3) letters over Q Z a, any following character class; %d ways to define" % len(NAMING),
    covers=["same", "prefix", "other"],
)
def exact_name(cx):
    n = cx.str("n", 0, cx.bound(2, 3), alpha="QZa")
    m = cx.str("m", 0, cx.bound(2, 3), alpha="QZa")
    kind, before, hit = cx.pick("kind", NAMING)
    after = cx.pick("after", [" end", "{}end", "2end", ".end", "\\\\end"])
    if hit is None:
        cx.assume(n != m)
    got = parse(cx, before + kind.replace("%s", n) + "begin \\Q" + m + after)
    out = flat(got)
    if n == m:
        cx.cover("same")
        cx.check(hit in out, "the defined name is replaced")
        cx.check(len(of_type(got, "command")) == 0, "no unknown command left")
    else:
        cx.cover("prefix" if m.startswith(n) else "other")
        cx.check("hit" not in out and "*" not in out and "§" not in out, "a different name is not replaced")
        cmds = of_type(got, "command")
        cx.check(len(cmds) == 1, "the other command is kept")
        cx.check_eq(cmds[0]["command"], "\\Q" + m, "under its own name")
    cx.check(out.lstrip().startswith("begin "), "text before")
    cx.check(out.rstrip().endswith("end"), "text after")


@harness(
    bounds="two macros whose names are symbolic (Q or Q@ + <=2 letters), bodies differ; either is called; without and with an argument, by \\newcommand or \\def",
    covers=["both"],
)
def two_names(cx):
    n = cx.str("n", 0, 2, alpha="QZ")
    m = cx.str("m", 0, 2, alpha="QZ")
    cx.assume(n != m)
    order = cx.flag("order")
    pre = cx.flag("pre")
    q = cx.pick("q", ["Q", "Q@"])
    d = cx.pick("d", ["\\newcommand{\\%n}{%b}", "\\def\\%n#1{%b#1}"])
    d1 = d.replace("%n", q + n).replace("%b", "one")
    d2 = d.replace("%n", q + m).replace("%b", "two")
    at = "\\makeatletter " if q == "Q@" else ""
    got = parse(cx, at + (d1 + d2 if order else d2 + d1) + "x \\" + q + n + "{} y \\" + q + m + "{} z", pre)
    cx.cover("both")
    cx.check_eq(flat(got), "x one y two z", "each name has its own body")


@harness(
    bounds="three successive definitions of one name by symbolic bodies of 1..2 characters, used after each one; text and math; 3^3 ways to define; with and without preprocessing",
    covers=["pre", "math"],
)
def latest_wins(cx):
    ways = ["\\newcommand{\\foo}{%s}", "\\renewcommand\\foo{%s}", "\\def\\foo{%s}"]
    b = [cx.str("b%d" % i, 1, 2, alpha=W) for i in range(3)]
    w = [cx.pick("w%d" % i, ways) for i in range(3)]
    l, r = cx.pick("ctx", [("", ""), ("$", "$")])
    pre = cx.flag("pre")
    if pre:
        cx.cover("pre")
    if l:
        cx.cover("math")
    src = "".join([w[i].replace("%s", b[i]) + "x " + l + "\\foo" + r + " y " for i in range(3)])
    got = parse(cx, src, pre)
    out = "".join([c for c in flat(got) if c not in "<>{} "])
    cx.check_eq(out, "".join(["x" + b[i] + "y" for i in range(3)]), "the definition in force at each use")


@harness(
    bounds="the same for one-argument macros: two definitions, symbolic bodies and arguments",
    covers=["done"],
)
def latest_wins_args(cx):
    ways = ["\\newcommand{\\foo}[1]{%s#1}", "\\renewcommand\\foo[1]{%s#1}", "\\def\\foo#1{%s#1}", "\\newcommand{\\foo}{%s}"]
    b = [cx.str("b%d" % i, 1, 1, alpha=W) for i in range(2)]
    k = [cx.pick("w%d" % i, [0, 1, 2, 3]) for i in range(2)]
    a = cx.str("a", 1, 1, alpha=W)
    pre = cx.flag("pre")
    src = "".join([ways[k[i]].replace("%s", b[i]) + "x \\foo{" + a + "} y " for i in range(2)])
    got = parse(cx, src, pre)
    cx.cover("done")
    out = "".join([c for c in flat(got) if c not in "{} "])
    cx.check_eq(out, "".join(["x" + b[i] + a + "y" for i in range(2)]), "the definition in force at each use")


@harness(
    bounds="late binding of \\newcommand and \\def bodies, early binding of \\edef and \\let; symbolic bodies of 1..2 characters",
    covers=["late", "early"],
)
def binding(cx):
    a = cx.str("a", 1, 2, alpha=W)
    b = cx.str("b", 1, 2, alpha=W)
    d, late, l, r = cx.pick("d", [
        ("\\newcommand{\\goo}{(\\foo)}", True, "(", ")"), ("\\def\\goo{(\\foo)}", True, "(", ")"),
        ("\\edef\\goo{(\\foo)}", False, "(", ")"), ("\\xdef\\goo{(\\foo)}", False, "(", ")"),
        ("\\let\\goo\\foo ", False, "", ""), ("\\let\\goo=\\foo ", False, "", ""),
    ])
    pre = cx.flag("pre")
    redef = cx.pick("redef", ["\\renewcommand{\\foo}{%s}", "\\def\\foo{%s}"])
    got = parse(cx, "\\newcommand{\\foo}{" + a + "}" + d + redef.replace("%s", b) + "x \\goo{} \\foo{} y", pre)
    cx.cover("late" if late else "early")
    want = "x " + l + (b if late else a) + r + " " + b + " y"
    cx.check_eq(flat(got).strip(), want, "which definition of the inner command is used")


@harness(
    bounds="\\let to another macro with an argument of 1..2 symbolic characters, and to built-in commands",
    covers=["macro", "builtin"],
)
def let_alias(cx):
    a = cx.str("a", 1, 2, alpha="abz059")
    pre = cx.flag("pre")
    kind = cx.pick("kind", [0, 1, 2, 3])
    eq = cx.pick("eq", ["", "=", " = "])
    if kind == 0:
        cx.cover("macro")
        got = parse(cx, "\\newcommand{\\foo}[1]{<#1>}\\let\\goo" + eq + "\\foo x \\goo{" + a + "} y", pre)
        cx.check_eq(flat(got).strip(), "x <" + a + "> y", "alias of a macro with an argument")
    elif kind == 1:
        cx.cover("builtin")
        got = parse(cx, "\\let\\goo" + eq + "\\textbf x \\goo{" + a + "} y", pre)
        cx.check_eq([t for t in got if t.get("styles")], [{"type": "text", "content": a, "styles": ["bold"]}], "alias of \\textbf")
    elif kind == 2:
        got = parse(cx, "\\let\\goo" + eq + "\\section \\goo{" + a + "} y", pre)
        cx.check_eq([t["title"] for t in of_type(got, "section")], [[text(a)]], "alias of \\section")
    else:
        got = parse(cx, "\\let\\goo" + eq + "\\alpha $" + a + "\\goo$ y", pre)
        out = of_type(got, "equation")[0]["content"]
        cx.check_eq("".join([c for c in out if c not in "{} "]), a + "\\alpha", "alias of a math symbol")


@harness(
    bounds="\\providecommand, without arguments, with one or with an optional one, before/after another definition; symbolic bodies of 1..2 characters",
    covers=["kept", "used"],
)
def provide(cx):
    a = cx.str("a", 1, 2, alpha=W)
    b = cx.str("b", 1, 2, alpha=W)
    first = cx.flag("first")
    args = cx.pick("args", ["", "[1]", "[1][o]"])
    d = cx.pick("d", ["\\newcommand{\\foo}" + args + "{%s}", "\\def\\foo" + ("#1" if args == "[1]" else "") + "{%s}"])
    cx.assume(args != "[1][o]" or d[1] != "d")
    use = "x \\foo" + ("[p]" if args == "[1][o]" else "{}") + " y"
    pre = cx.flag("pre")
    provided = "\\providecommand{\\foo}" + args + "{" + b + "}"
    if first:
        cx.cover("used")
        got = parse(cx, provided + use, pre)
        cx.check_eq(flat(got), "x " + b + " y", "defines what does not exist yet")
    else:
        cx.cover("kept")
        got = parse(cx, d.replace("%s", a) + provided + use, pre)
        cx.check_eq(flat(got), "x " + a + " y", "does not replace an existing definition")


STRUCT = [
    ("section", "\\section{%s}", "section"), ("textbf", "\\textbf{%s}", "text"), ("caption", "\\caption{%s}", "caption"),
    ("cite", "\\cite{%s}", "citation"), ("ref", "\\ref{%s}", "ref"), ("title", "\\title{%s}", "title"),
    ("emph", "\\emph{%s}", "text"), ("subsection", "\\subsection{%s}", "section"), ("url", "\\url{%s}", "url"),
]


@harness(
    bounds="attempts to redefine 9 structural commands by \\newcommand, \\renewcommand or \\def; argument of 1..2 symbolic characters",
    covers=["done"],
)
def structural(cx):
    a = cx.str("a", 1, 2, alpha="abz059")
    name, use, typ = cx.pick("cmd", STRUCT)
    d = cx.pick("d", ["\\newcommand{\\%s}[1]{gone}", "\\renewcommand{\\%s}[1]{gone}", "\\def\\%s#1{gone}"])
    pre = cx.flag("pre")
    src = use.replace("%s", a) + " end"
    want = parse(cx, src, pre)
    got = parse(cx, d.replace("%s", name) + src, pre)
    cx.cover("done")
    cx.check(len(of_type(got, typ)) >= 1, "still recognised")
    cx.check_eq(got, want, "structural commands keep their meaning")


@harness(
    bounds="\\csname...\\endcsname and \\@namedef with symbolic names of 1..2 letters and bodies of 1..2 characters",
    covers=["hit", "miss"],
)
def csname(cx):
    n = cx.str("n", 1, 2, alpha="QZ")
    m = cx.str("m", 1, 2, alpha="QZ")
    b = cx.str("b", 1, 2, alpha=W)
    d = cx.pick("d", ["\\@namedef{%n}{%b}", "\\expandafter\\def\\csname %n\\endcsname{%b}", "\\newcommand{\\%n}{%b}",
                      "\\def\\%n{%b}"])
    u = cx.pick("u", ["\\csname %m\\endcsname", "\\%m{}"])
    got = parse(cx, d.replace("%n", n).replace("%b", b) + "x " + u.replace("%m", m) + " y")
    if n == m:
        cx.cover("hit")
        cx.check_eq(flat(got), "x " + b + " y", "the named command")
    else:
        cx.cover("miss")
        cx.check(b not in flat(got) or b == "y" or b == "x", "another name")


@harness(
    bounds="names consisting of one or two special characters (12 picks), symbolic body of 1..2 characters",
    covers=["done"],
)
def symbol_names(cx):
    b = cx.str("b", 1, 2, alpha="xyz059")
    n = cx.pick("n", ["<", ">", "|", "!", ";", ".", "=", "(", "))", "1", "]", "<<"])
    d = cx.pick("d", ["\\newcommand{\\%s}{", "\\def\\%s{", "\\renewcommand\\%s{"])
    cx.assume(not (n in ("1",) and d[1] == "d"))
    got = parse(cx, d.replace("%s", n) + b + "}A\\" + n + " B")
    cx.cover("done")
    cx.check_eq(flat(got), "A" + b + " B", "non-letter command names")


@harness(
    bounds="math-only operators: use in math and in text; symbolic body of 1..2 letters",
    covers=["done"],
)
def math_operator(cx):
    b = cx.str("b", 1, 2, alpha="abz")
    star = cx.pick("star", ["", "*"])
    pre = cx.flag("pre")
    got = parse(cx, "\\DeclareMathOperator" + star + "{\\foo}{" + b + "}$\\foo x$ then \\foo{} end", pre)
    cx.cover("done")
    eqs = of_type(got, "equation")
    cx.check_eq("".join([c for c in eqs[0]["content"] if c not in "{}"]), b + " x", "operator in math")


@harness(
    bounds="a name made by \\let (to a macro, a built-in, a character) and defined otherwise, in both orders, 4 x 5 ways; symbolic bodies of 1..2 characters; with and without preprocessing",
    covers=["let-first", "let-last"],
)
def let_then_define(cx):
    a = cx.str("a", 1, 2, alpha=W)
    b = cx.str("b", 1, 2, alpha=W)
    let, value = cx.pick("let", [("\\let\\foo\\hoo ", a), ("\\let\\foo=\\hoo ", a), ("\\let\\foo=\\% ", "%"), ("\\let\\foo\\relax ", "")])
    d = cx.pick("d", ["\\newcommand{\\foo}{%s}", "\\renewcommand\\foo{%s}", "\\def\\foo{%s}", "\\newcommand{\\foo}[1]{%s#1}", "\\def\\foo#1{%s#1}"]).replace("%s", b)
    pre = cx.flag("pre")
    start = "\\def\\hoo{" + a + "}"
    if cx.flag("first"):
        cx.cover("let-first")
        got = parse(cx, start + let + d + "x \\foo{} y", pre)
        cx.check_eq(flat(got).strip(), "x " + b + " y", "the later definition")
    else:
        cx.cover("let-last")
        got = parse(cx, start + d + let + "x \\foo{} y", pre)
        out = flat(got)
        cx.check_eq("".join([c for c in out if c != " "]), "x" + value + "y", "the later \\let")


@harness(
    bounds="\\let to a macro or a symbol, directly followed by one symbolic character that is no letter",
    covers=["done"],
)
def let_target(cx):
    c = cx.str("c", 1, 1, alpha=".,;:!?()+'*/|<>019\"")
    eq = cx.pick("eq", ["", "=", " = "])
    pre = cx.flag("pre")
    got = parse(cx, "\\newcommand{\\foo}{body}\\let\\goo" + eq + "\\foo" + c + " x \\goo{} y", pre)
    cx.cover("done")
    cx.check_eq(flat(got), c + " x body y", "the target is the command alone")


INNER = [  # definition inside the code, use of the inner command, its result
    ("\\newcommand{\\qm}[1]{%b##1}", "\\qm{%x}", "%b%x"), ("\\renewcommand\\qm[1]{%b##1}", "\\qm{%x}", "%b%x"),
    ("\\newcommand{\\qm}[2][o]{%b##1##2}", "\\qm{%x}", "%bo%x"), ("\\newcommand{\\qm}[2][o]{%b##1##2}", "\\qm[%x]{y}", "%b%xy"),
    ("\\def\\qm##1{%b##1}", "\\qm{%x}", "%b%x"), ("\\def\\qm##1.{%b##1}", "\\qm %x.", "%b%x"), ("\\def\\qm##1##2{##2%b##1}", "\\qm{%x}{y}", "y%b%x"),
    ("\\def\\qm{%b}", "\\qm{}%x", "%b%x"), ("\\newcommand{\\qm}{%b}", "\\qm{}%x", "%b%x"), ("\\gdef\\qm##1{%b##1}", "\\qm{%x}", "%b%x"),
    ("\\def\\qm##1{\\textbf{%b##1}}", "\\qm{%x}", "%b%x"), ("\\def\\qm##1{(##1)%b}", "\\qm{\\qm{%x}}", "((%x)%b)%b"),
]


@harness(
    bounds="a command whose code defines another one (12 ways, by \\newcommand and by \\def with arguments), used before and after the outer one is called again, or with a meaning of its own before the outer one is called; symbolic argument of the outer command in the inner code (1 character) and of the inner one (1..2)",
    covers=["once", "twice"],
)
def inner(cx):
    code, use, want = cx.pick("inner", INNER)
    a, x = cx.str("a", 1, 1, alpha=LETTERS + DIGITS), cx.str("x", 1, 2, alpha=LETTERS + DIGITS)
    outer = cx.pick("outer", ["\\newcommand{\\qo}[1]{#1%s}", "\\def\\qo#1{#1%s}", "\\newcommand{\\qo}[2][u]{#2%s}"])
    n = "2" if "[2]" in outer else "1"
    twice = cx.flag("twice")
    # the inner command may have a meaning of its own before
    src, exp = cx.pick("before", [("", ""), ("\\newcommand{\\qm}{m}%o\\qm{}|", "m|"), ("%o\\def\\qm{m}\\qm{}|", "m|")])
    cx.assume(not exp or not twice)
    definer = outer % code.replace("%b", "#" + n)
    src = (src.replace("%o", definer) if exp else definer) + "\\qo{" + a + "}|"
    src += use.replace("%x", x) + "|"
    exp += a + "|" + want.replace("%b", a).replace("%x", x) + "|"
    if twice:
        src += "\\qo{w}|" + use.replace("%x", x) + "|"
        exp += "w|" + want.replace("%b", "w").replace("%x", x) + "|"
    cx.cover("twice" if twice else "once")
    cx.check_eq(squeeze(flat(parse(cx, src, cx.flag("pre")))), exp, "text")
