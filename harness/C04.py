"""C04 macro calls are replaced by their bodies with the arguments in place"""
from symtex.api import harness, LETTERS, DIGITS, PLAIN
from hlib.common import parse, flat, text, of_type, squeeze

W = "abz09.,;"
ARG = "abz059.,;:+=/"


def subst(body, args):
    """TeX parameter substitution: #k -> k-th argument"""
    out = ""
    i = 0
    while i < len(body):
        if body[i] == "#":
            k = 0
            for d in range(1, 10):
                if body[i + 1] == str(d):
                    k = d
            out = out + args[k - 1]
            i += 2
        else:
            out = out + body[i]
            i += 1
    return out


def well_formed(body, n):
    """every # is followed by one of the digits 1..n"""
    i = 0
    while i < len(body):
        if body[i] == "#":
            if i + 1 >= len(body):
                return False
            ok = False
            for d in range(1, n + 1):
                if body[i + 1] == str(d):
                    ok = True
            if not ok:
                return False
            i += 2
        else:
            i += 1
    return True


@harness(
    bounds="two-argument macro; body of <=5 (thorough 6) symbolic characters over # 1 2 a b, arguments of <=2 characters",
    covers=["both", "twice", "none"],
)
def body(cx):
    b = cx.str("b", 1, cx.bound(5, 6), alpha="#12ab")
    cx.assume(well_formed(b, 2))
    p = cx.str("p", 1, 2, alpha=ARG)
    q = cx.str("q", 1, 1, alpha=ARG)
    got = parse(cx, "\\newcommand{\\foo}[2]{" + b + "}x \\foo{" + p + "}{" + q + "} y")
    if "#1" in b and "#2" in b:
        cx.cover("both")
    elif b == "#1#1":
        cx.cover("twice")
    elif "#" not in b:
        cx.cover("none")
    cx.check_eq(got, [text("x " + subst(b, [p, q]) + " y")], "body with its arguments in place")


@harness(
    bounds="every arity 1..9, parameters used in source order or reversed, each followed by a digit, one symbolic character per argument",
    covers=["nine", "rev"],
)
def arity(cx):
    n = cx.pick("n", list(range(1, 10)))
    rev = cx.flag("rev")
    args = [cx.str("a%d" % i, 1, 1, alpha=ARG) for i in range(n)]
    order = list(range(1, n + 1))
    if rev:
        order = order[::-1]
        cx.cover("rev")
    b = "(" + "|".join(["#%d0" % k for k in order]) + ")"
    got = parse(cx, "\\newcommand{\\foo}[%d]{%s}\\foo" % (n, b) + "".join(["{" + a + "}" for a in args]) + " y")
    if n == 9:
        cx.cover("nine")
    want = "(" + "|".join([args[k - 1] + "0" for k in order]) + ")"
    cx.check_eq(got, [text(want + " y")], "each parameter gets its own argument")


DEFS = [
    "\\newcommand{\\foo}[1]{%s}", "\\newcommand\\foo[1]{%s}", "\\newcommand*{\\foo}[1]{%s}",
    "\\renewcommand{\\foo}[1]{%s}", "\\providecommand{\\foo}[1]{%s}", "\\newcommand {\\foo} [1] {%s}",
    "\\DeclareRobustCommand{\\foo}[1]{%s}", "\\def\\foo#1{%s}", "\\gdef\\foo#1{%s}", "\\long\\def\\foo#1{%s}",
    "\\newcommand*\\foo[1]{%s}", "\\renewcommand\\foo[1]{%s}", "\\newcommand{\\foo}\n[1]\n{%s}", "\\edef\\foo#1{%s}",
    "\\xdef\\foo#1{%s}",
]


@harness(
    bounds="15 ways of writing a one-argument definition x 4 ways of writing the call x with/without preprocessing, argument of 1..3 symbolic characters",
    covers=["done"],
)
def definition_forms(cx):
    d = cx.pick("d", DEFS)
    call = cx.pick("call", ["\\foo{", "\\foo {", "\\foo\n{", "\\foo\t{"])
    pre = cx.flag("pre")
    a = cx.str("a", 1, cx.bound(2, 3), alpha=ARG)
    got = parse(cx, d.replace("%s", "<#1|#1>") + "\nx " + call + a + "} y", pre)
    cx.cover("done")
    cx.check_eq(flat(got).strip(), "x <" + a + "|" + a + "> y", "call replaced by the body")


@harness(
    bounds="optional first argument with default: default, given and mandatory parts of <=2 symbolic characters",
    covers=["given", "default", "empty"],
)
def optional(cx):
    d = cx.str("d", 0, 2, alpha=W)
    a = cx.str("a", 1, 2, alpha=W)
    use = cx.pick("use", [0, 1, 2])
    pre = cx.flag("pre")
    o = cx.str("o", 1, 2, alpha=W) if use == 1 else ""
    head = cx.pick("head", ["\\newcommand{\\foo}[2][%s]{(#1|#2)}", "\\newcommand\\foo[2][%s]{(#1|#2)}",
                            "\\renewcommand*{\\foo}[2][%s]{(#1|#2)}"])
    src = head.replace("%s", d) + "x \\foo"
    if use == 0:
        src = src + "{" + a + "} y"
        want = d
        cx.cover("default")
    elif use == 1:
        src = src + "[" + o + "]{" + a + "} y"
        want = o
        cx.cover("given")
    else:
        src = src + "[]{" + a + "} y"
        want = ""
        cx.cover("empty")
    got = parse(cx, src, pre)
    cx.check_eq(flat(got).strip(), "x (" + want + "|" + a + ") y", "optional argument or its default")


@harness(
    bounds="arguments containing nested groups: contents of <=2 symbolic characters inside up to two extra brace levels",
    covers=["done"],
)
def nested_braces(cx):
    a = cx.str("a", 1, 2, alpha=W)
    b = cx.str("b", 1, 2, alpha=W)
    k = cx.pick("k", [0, 1, 2])
    arg = a + " " + "{" * k + b + "}" * k + " q"
    got = parse(cx, "\\newcommand{\\foo}[2]{[#2;#1]}\\foo{" + arg + "}{" + b + "}")
    cx.cover("done")
    out = "".join([c for c in flat(got) if not c.isspace()])
    cx.check_eq(out, "[" + b + ";" + a + b + "q]", "argument boundaries follow the outer braces")


@harness(
    bounds="macros calling macros (depth <=4) that pass their argument on; argument of 1..2 symbolic characters",
    covers=["deep"],
)
def nesting(cx):
    a = cx.str("a", 1, 2, alpha=ARG)
    k = cx.pick("k", [1, 2, 3, 4])
    kind = cx.pick("kind", ["\\newcommand{\\m%s}[1]{%b}", "\\def\\m%s#1{%b}"])
    pre = cx.flag("pre")
    names = "abcd"
    src = ""
    # innermost first or outermost first: bodies are expanded at the call
    order = cx.flag("order")
    defs = []
    for i in range(k):
        b = "<#1>" if i == 0 else "(\\m" + names[i - 1] + "{#1}#1)"
        defs.append(kind.replace("%s", names[i]).replace("%b", b))
    if order:
        defs = defs[::-1]
    want = "<" + a + ">"
    for i in range(1, k):
        want = "(" + want + a + ")"
    if k == 4:
        cx.cover("deep")
    got = parse(cx, "".join(defs) + "x \\m" + names[k - 1] + "{" + a + "} y", pre)
    cx.check_eq(flat(got).strip(), "x " + want + " y", "nested calls")


@harness(
    bounds="a macro call as the argument of another call; argument of 1..2 symbolic characters",
    covers=["done"],
)
def call_in_argument(cx):
    a = cx.str("a", 1, 2, alpha=ARG)
    b = cx.str("b", 1, 1, alpha=ARG)
    pre = cx.flag("pre")
    got = parse(
        cx, "\\newcommand{\\foo}[1]{<#1>}\\newcommand{\\bar}[2]{(#2,#1)}x \\bar{\\foo{" + a + "}}{\\foo{\\foo{" + b + "}}} y", pre)
    cx.cover("done")
    cx.check_eq(flat(got).strip(), "x (<<" + b + ">>,<" + a + ">) y", "calls inside arguments")


@harness(
    bounds="\\def with delimited parameters (4 parameter texts), arguments of 1..2 symbolic letters",
    covers=["done"],
)
def delimited(cx):
    a = cx.str("a", 1, 2, alpha="abz")
    b = cx.str("b", 1, 2, alpha="cdy")
    d, call = cx.pick("d", [
        ("\\def\\foo#1.#2;{(#1|#2)}", "\\foo %a.%b;"), ("\\def\\foo#1:#2!{(#1|#2)}", "\\foo %a:%b!"),
        ("\\def\\foo(#1,#2){(#1|#2)}", "\\foo(%a,%b)"), ("\\def\\foo[#1]#2{(#1|#2)}", "\\foo[%a]{%b}"),
    ])
    got = parse(cx, d + "x " + call.replace("%a", a).replace("%b", b) + " y")
    cx.cover("done")
    out = flat(got)
    cx.check_eq("".join([c for c in out if c != " "]), "x(" + a + "|" + b + ")y", "delimited arguments")


DELIMS = [
    # parameter text, its delimiters in turn ("" : no delimiter)
    ("#1.#2;", [".", ";"]), ("(#1,#2)", [",", ")"]), ("#1 #2!", [" ", "!"]), ("#1\\stop#2:", ["\\stop", ":"]),
    ("#1#2.", ["", "."]), ("#1.#2", [".", ""]), ("#1ab#2a", ["ab", "a"]), ("#1#2", ["", ""]), ("[#1]#2;;", ["]", ";;"]),
]
DARGS = ["%", "{%}", "{%}{%}", "%{%.}", "{a{b{%;}}:}", "\\%", "\\qc", "\\qc ", "{}", "\\emph{%)}a", "%\\}", "{{%}}", ""]


def known_arg(template, s, delim):
    """what TeX takes as the argument, or None where the call is malformed"""
    a = template.replace("%", s)
    if delim == "":
        a = a.strip()
        if template[:1] == "{" and template.count("{") == template.count("}") and "}{" not in template:
            return a[1:-1], ""
        if template in ("%", "{%}{%}", "%{%.}", "%\\}"):
            return None
        if template in ("\\%", "\\qc", "\\qc "):
            return a, ""
        return None
    if template in ("{%}", "{{%}}", "{a{b{%;}}:}", "{}"):
        return a[1:-1], ""
    return a, ""


@harness(
    bounds="\\def with 9 parameter texts (delimiters of one or two characters, a blank, a command; undelimited parameters between), the arguments out of 13 forms (empty, braced, nested four deep, commands, delimiters hidden in braces, escaped braces) holding a symbolic letter or digit; plain or preprocessed",
    covers=["empty", "braced", "command"],
)
def delimited_forms(cx):
    params, delims = cx.pick("params", DELIMS)
    s = cx.str("s", 1, 1, alpha="xZ7")
    forms = [cx.pick("a", DARGS), cx.pick("b", DARGS[:1] + DARGS[2:8] + DARGS[8:] if cx.tier == "thorough" else ["%", "", "{%,}", "\\qc"])]
    call, want = "\\qf", []
    rest = params
    for i in (0, 1):
        cut = rest.index("#")
        if i == 0:
            call += rest[:cut]
        rest = rest[cut + 2 :]
        got = known_arg(forms[i], s, delims[i]) if forms[i] != "{%,}" else (s + ",", "")
        cx.assume(got is not None and not (forms[i].endswith("a") and delims[i][:1] == "a"))
        if call[-1].isalpha() and forms[i][:1] not in ("\\", "{") or call[-3:] == "\\qf" and not forms[i] and (delims[i][:1].isalpha() or delims[i] == " "):
            call += " "
        if not forms[i] and delims[i] == " ":
            # blanks after a command or another blank are skipped
            cx.assume(False)
        call += forms[i].replace("%", s)
        if forms[i] in ("\\qc", "\\%") and (delims[i][:1].isalpha() or delims[i] == " "):
            cx.assume(False)
        call += delims[i]
        want.append(got[0])
        if not forms[i]:
            cx.cover("empty")
        if "{" in forms[i]:
            cx.cover("braced")
        if "\\qc" in forms[i]:
            cx.cover("command")
    pre = cx.flag("pre")
    d = "\\newcommand\\qc{C}\\newcommand\\x{X}\\newcommand\\Z{Y}\\newcommand\\7{S}"
    got = parse(cx, d + "\\def\\qf" + params + "{<#1|#2>}z " + call + "(y)", pre)
    same = parse(cx, d + "z <" + want[0] + "|" + want[1] + ">(y)", pre)
    cx.check_eq(squeeze(flat(got)), squeeze(flat(same)), "the body with the arguments in place")


@harness(
    bounds="calls with one or both of the two mandatory arguments missing, one symbolic word of <=2 characters",
    covers=["one", "zero"],
)
def missing(cx):
    a = cx.str("a", 1, 2, alpha=W)
    zero = cx.flag("zero")
    src = "\\newcommand{\\foo}[2]{(#1|#2)}"
    if zero:
        got = parse(cx, src + "x \\foo")
        cx.cover("zero")
        cx.check_eq(flat(got), "x (|)", "missing arguments are empty")
    else:
        got = parse(cx, src + "x \\foo{" + a + "}")
        cx.cover("one")
        cx.check_eq(flat(got), "x (" + a + "|)", "missing argument is empty")


CTX = [
    ("\\section{", "}", "section"), ("\\textbf{", "}", "text"), ("\\footnote{", "}", "footnote"),
    ("\\begin{quote}", "\\end{quote}", "quote"), ("\\begin{itemize}\\item ", "\\end{itemize}", "item"),
    ("\\begin{tabular}{c}", "\\end{tabular}", "tabular"), ("\\begin{theorem}", "\\end{theorem}", "math_env"),
    ("\\caption{", "}", "caption"), ("{", "}", "text"), ("\\begin{abstract}", "\\end{abstract}", "abstract"),
    ("\\title{", "}", "title"), ("\\begin{center}", "\\end{center}", "group"), ("\\begin{figure}", "\\end{figure}", "figure"),
    ("\\mbox{", "}", "text"),
]


@harness(
    bounds="one-argument macro called inside each of 14 constructs; argument of 1..2 symbolic characters",
    covers=["done"],
)
def contexts(cx):
    a = cx.str("a", 1, 2, alpha="abz059")
    l, r, typ = cx.pick("ctx", CTX)
    pre = cx.flag("pre")
    got = parse(cx, "\\newcommand{\\foo}[1]{<#1+#1>}w " + l + "\\foo{" + a + "}" + r + " z", pre)
    cx.cover("done")
    toks = of_type(got, typ)
    cx.check(len(toks) >= 1, "construct present")
    out = ""
    for t in toks:
        c = t.get("title", t.get("content"))
        if typ == "tabular":
            out += str_cells(c)
        else:
            out += flat(c)
    cx.check("<" + a + "+" + a + ">" in out, "call expanded inside the construct")


def str_cells(rows):
    out = ""
    for row in rows:
        for cell in row:
            if isinstance(cell, str):
                out += cell
            elif isinstance(cell, dict):
                out += flat(cell.get("content", ""))
            elif isinstance(cell, list):
                out += flat(cell)
    return out


@harness(
    bounds="calls inside inline and display math; argument of 1..2 symbolic characters",
    covers=["done"],
)
def math(cx):
    a = cx.str("a", 1, 2, alpha="abz059+=")
    l, r = cx.pick("m", [("$", "$"), ("\\[", "\\]"), ("$$", "$$"), ("\\begin{equation}", "\\end{equation}"),
                         ("\\begin{align*}", "\\end{align*}"), ("\\(", "\\)")])
    pre = cx.flag("pre")
    got = parse(cx, "\\newcommand{\\foo}[1]{y^#1_#1}" + l + "k\\foo{" + a + "}j" + r, pre)
    cx.cover("done")
    eqs = of_type(got, "equation")
    cx.check(len(eqs) == 1, "one equation")
    out = "".join([c for c in eqs[0]["content"] if c not in "{} "])
    cx.check_eq(out, "ky^" + a + "_" + a + "j", "call expanded inside math")


NEXT_TO = [
    ("{\\bf#1}", "{\\bf #1}"), ("\\noindent#1", "\\noindent #1"), ("\\unk#1", "\\unk #1"), ("{\\it#1}#2", "{\\it #1}#2"), ("\\alpha#1\\beta#2", "\\alpha #1\\beta #2"), ("\\par#1", "\\par #1"),
    ("\\ss#1#2", "\\ss #1#2"), ("#2\\small#1", "#2\\small #1"), ("\\quad#1q", "\\quad #1q"), ("\\zz#1", "\\zz{}#1"), ("#2#1", "#2 #1"), ("#2qr", "#2 qr"), ("#1\\zz#1", "#1\\zz{}#1"),
]


@harness(
    bounds="a macro of one or two arguments (or an optional one and one) called in math with each argument braced, a letter, a digit, a command of one symbolic letter or missing at the end; blanks between or not; in text around",
    covers=["letter", "command", "missing"],
)
def math_tokens(cx):
    n = cx.pick("n", [1, 2])
    opt = cx.pick("opt", ["", "[q]"])
    d = "\\newcommand{\\qf}[%d]%s{\\mathbf{#1}%s}" % (n + (opt != ""), opt, "".join("_{#%d}" % i for i in range(2, n + 1 + (opt != ""))))
    call, args = "\\qf", ["q"] if opt else []
    c = cx.str("c", 1, 1, alpha="xQ7")
    for i in range(n):
        form = cx.pick("a%d" % i, ["{%}", "%", "\\%", "{%{a}}", "\\,", "+"] + ([""] if i == n - 1 else []))
        a = form.replace("%", c)
        if form == "\\%":
            cx.assume(c != "7")
            cx.cover("command")
            a = "\\q" + c
        if form == "%":
            cx.cover("letter")
        if form == "":
            cx.cover("missing")
        sp = cx.pick("sp%d" % i, ["", " "])
        if sp == "" and call[-1].isalpha() and form == "%" and ("\\" in call[-3:] or i == 0):
            sp = " "
        call += sp + a
        args.append(a[1:-1] if a[:1] == "{" else a)
    end = "" if form == "" else cx.pick("end", ["", " z", "+z"])
    want = "\\mathbf{" + args[0] + "}" + "".join("_{" + x + "}" for x in args[1:])
    l, r = cx.pick("math", [("$", "$"), ("\\[", "\\]"), ("\\begin{equation}", "\\end{equation}")])
    got = of_type(parse(cx, d + "x " + l + call + end + r + " y"), "equation")
    cx.check_eq(len(got), 1, "one equation")
    cx.check_eq(squeeze(got[0]["content"]), squeeze(want + end), "the arguments in place")


@harness(
    bounds="13 macro bodies whose arguments stand right next to commands, arguments beginning with a symbolic letter or other character or ending in a command; newcommand, def and delimited def, plain and preprocessed: as with a separator in the body",
    covers=["letter", "other"],
    excludes="blanks; bodies that define a command whose name ends in an argument",
)
def next_to_commands(cx):
    body, want = cx.pick("b", NEXT_TO)
    a = cx.str("a", 1, 2, alpha="abz9.(")
    c = cx.pick("c", ["\\gamma", "\\unkk", "{\\bf v}\\LaTeX", "\\'e"])
    form, use = cx.pick("f", [("\\newcommand{\\foo}[2]{%}", "\\foo{<>}{>>}"), ("\\def\\foo#1#2{%}", "\\foo{<>}{>>}"), ("\\def\\foo#1.#2/{%}", "\\foo <>.>>/"), ("\\newcommand{\\foo}[2][d]{%}", "\\foo[<>]{>>}")])
    pre = cx.flag("pre")
    cx.cover("letter" if a[0].isalpha() else "other")
    cx.assume(not (form == "\\def\\foo#1.#2/{%}" and "." in a))
    use = "w " + use.replace("<>", a).replace(">>", c) + " z"
    got = parse(cx, "\\newcommand{\\zz}{Z}" + form.replace("%", body) + use, pre)
    exp = parse(cx, "\\newcommand{\\zz}{Z}" + form.replace("%", want) + use, pre)
    cx.check_eq(loose(got), loose(exp), "the command and the argument stay apart")


def loose(t):
    if isinstance(t, list):
        return [loose(x) for x in t]
    if isinstance(t, dict):
        return dict([(k, loose(t[k])) for k in t])
    if isinstance(t, str):
        return "".join([c for c in t if c not in " \n"])
    return t


SPLICE = [
    ("\\newcommand{\\foo}{%}", "\\foo"), ("\\newcommand{\\foo}{%}", "\\foo{}"), ("\\def\\foo#1{#1}", "\\foo{%}"), ("\\newcommand{\\foo}[1][%]{#1}", "\\foo"), ("", "\\iftrue %\\else e\\fi"),
    ("\\newcommand{\\foo}{\\goo}\\newcommand{\\goo}{%}", "\\foo"), ("\\newcommand{\\foo}{%}\\let\\goo\\foo", "\\goo"),
]
BEFORE = [("\\unk", ""), ("{\\bf ", "}"), ("{\\bf", "}"), ("\\alpha", ""), ("\\noindent", ""), ("\\begin{itemize}\\item", "\\end{itemize}"), ("\\begin{tabular}{c}\\unk", "\\end{tabular}"), ("\\textbf{\\unk", "}"), ("\\quad", ""), ("\\empty", "")]


@harness(
    bounds="10 commands right before 7 things that expand to a word of a symbolic first character: as if a blank stood between",
    covers=["letter", "other"],
    excludes="blanks",
)
def splices(cx):
    d, u = cx.pick("d", SPLICE)
    l, r = cx.pick("c", BEFORE)
    k = cx.str("k", 1, 1, alpha="abz9.(")
    pre = cx.flag("pre")
    cx.cover("letter" if k.isalpha() else "other")
    d = d.replace("%", k + "s")
    u = u.replace("%", k + "s")
    got = parse(cx, d + " w " + l + u + r + " z", pre)
    exp = parse(cx, " w " + l + " " + k + "s" + r + " z", pre)
    cx.check_eq(loose(got), loose(exp), "the command keeps its name, the text its letters")


@harness(
    bounds="macros that look for a star (7 bodies, branches in braces or single commands) called with and without it; symbolic text of 1..2 characters and an argument of one; plain and preprocessed",
    covers=["starred", "plain"],
)
def starred(cx):
    s = cx.str("s", 1, 2, alpha=LETTERS + DIGITS)
    k = cx.str("k", 1, 1, alpha=LETTERS + DIGITS)
    body, star, bare = cx.pick("body", [
        ("{\\@ifstar{A}{B}}", "A{" + k + "}", "B{" + k + "}"), ("{\\@ifstar{A}{B}" + s + "}", "A" + s + "{" + k + "}", "B" + s + "{" + k + "}"),
        ("{\\@ifstar\\qa\\qb}", "a(" + k + ")", "b[" + k + "]"), ("{\\@ifstar \\qa {" + s + "}}", "a(" + k + ")", s + "{" + k + "}"), ("{\\@ifstar{" + s + "}\\qb}", s + "{" + k + "}", "b[" + k + "]"),
        ("{\\@ifstar{\\qa}{\\qb}}", "a(" + k + ")", "b[" + k + "]"), ("{\\@ifstar{\\qa}{" + s + "}}", "a(" + k + ")", s + "{" + k + "}"),
    ])
    d = "\\newcommand{\\qa}[1]{a(#1)}\\newcommand{\\qb}[1]{b[#1]}" + cx.pick("def", ["\\newcommand{\\qs}", "\\def\\qs"]) + body
    on = cx.flag("star")
    cx.cover("starred" if on else "plain")
    got = parse(cx, d + "x \\qs" + ("*" if on else "") + "{" + k + "} y", cx.flag("pre"))
    want = parse(cx, "x " + (star if on else bare) + " y")
    cx.check_eq(squeeze(flat(got)).replace("{", "").replace("}", ""), squeeze(flat(want)).replace("{", "").replace("}", ""), "the branch the star selects and what follows it")
