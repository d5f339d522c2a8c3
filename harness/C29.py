"""C29 user-defined environments and theorems behave as defined"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build, flat, walk, squeeze

CH = LETTERS + DIGITS + ".:;()=/*\"<>!?-+|@,"
THEOREMS = ["theorem", "lemma", "proposition", "corollary", "definition", "conjecture", "axiom", "example", "exercise", "remark", "observation"]
UNNUMBERED = ["proof", "notation", "solution", "note", "claim"]


def only(cx, toks, name):
    """the one environment token of this name at the top"""
    found = [t for t in toks if isinstance(t, dict) and t.get("name") == name]
    cx.check(len(found) == 1, "one environment token")
    return found[0]


# arguments: declaration, use, values (%a, %b symbolic)
ARGS = [
    ("", "", []), ("[1]", "{%a}", ["%a"]), ("[1][%b]", "", ["%b"]), ("[1][%b]", "[%a]", ["%a"]), ("[2]", "{%a}{%b}", ["%a", "%b"]), ("[2][%b]", "{%a}", ["%b", "%a"]), ("[2][o]", "[%a]{%b}", ["%a", "%b"]),
    ("[2]", " {%a} {%b}", ["%a", "%b"]), ("[2] [o]", " [%a] {%b}", ["%a", "%b"]), ("[2]", "{%a}\n{%b}", ["%a", "%b"]), ("[1][]", "", [""]), ("[1][o]", "[]", [""]), ("[1]", "{{%a]}}", ["%a]"]), ("[1][o]", "[{%a]}]", ["%a]"]), ("[1]", "{\\textbf{%a}}", ["%a"]),
]
CODES = [("", ""), ("<", ">"), ("< #1 >", "( #1 )"), ("#2; #1", "#1 #2"), ("{\\bf #1} :", "#2 ."), ("\\begin{center}#1", "#2\\end{center}"), ("\\textit{x #1}", ""), ("", "\\textit{x #1}"), ("B\n#1 ", "\n#2 E")]


def instance(code, values):
    for i in range(2):
        code = code.replace("#%d" % (i + 1), values[i] if i < len(values) else "")
    for m in ("{\\bf", "\\textit", "\\begin{center}", "\\end{center}", "{", "}"):
        code = code.replace(m, "")
    return code


@harness(
    bounds="an environment with each of %d forms of arguments (none, one, two, optional given or not, apart, with brackets in braces) and each of %d begin and end codes that use them, content of a symbolic character; new or renewed, starred or not; with and without preprocessing; tokens and JSON" % (len(ARGS), len(CODES)),
    covers=["no arguments", "arguments"],
)
def environments(cx):
    decl, use, vals = cx.pick("args", ARGS)
    b, e = cx.pick("code", CODES)
    n = len(vals)
    cx.assume(("#2" not in b + e or n > 1) and ("#1" not in b + e or n > 0))
    cx.cover("arguments" if n else "no arguments")
    cmd = cx.pick("cmd", cx.bound(["\\newenvironment"], ["\\newenvironment", "\\renewenvironment", "\\newenvironment*", "\\newenvironment "]))
    x = cx.str("a", 1, 1, alpha=LETTERS + DIGITS + ".:=")
    y = cx.str("b", 1, 1, alpha=LETTERS + ".")
    c = cx.str("c", 1, 1, alpha=CH)
    sub = lambda s: s.replace("%a", x).replace("%b", y)
    vals = [sub(v) for v in vals]
    src = cmd + "{qe}" + sub(decl) + "{" + b + "}{" + e + "}w \\begin{qe}" + sub(use) + " " + c + " q\\end{qe} z"
    want = instance(b, vals) + c + "q" + instance(e, vals)
    toks = parse(cx, src, cx.flag("pre"))
    cx.check_eq(squeeze(flat(only(cx, toks, "qe"))), squeeze(want), "content of the environment")
    cx.check_eq(squeeze(flat(toks)), squeeze("w" + want + "z"), "text of the document")
    cx.check_eq(squeeze(flat(build(cx, toks))), squeeze("w" + want + "z"), "text of the JSON")


@harness(
    bounds="an environment with an argument nested in itself to depth 1..3 and beside itself, or two environments in each other: symbolic argument and content at each level, text before and after the inner one",
    covers=["depth 1", "depth 2", "depth 3", "beside"],
)
def nested(cx):
    d = cx.pick("depth", [1, 2, 3])
    beside = cx.flag("beside")
    cx.cover("depth %d" % d)
    if beside:
        cx.cover("beside")
    opt = cx.flag("optional")
    src = want = ""
    for lev in range(d):
        name = cx.pick("name%d" % lev, ["qe", "qf"])
        a = cx.str("a%d" % lev, 1, 1, alpha=LETTERS + ".:")
        c = cx.str("c%d" % lev, 1, 1, alpha=LETTERS + ".,")
        arg = cx.pick("arg%d" % lev, ["", "[" + a + "]"]) if opt else "{" + a + "}"
        v = a if arg else "o"
        n = name
        src = "\\begin{" + n + "}" + arg + c + " " + src + " y\\end{" + n + "}"
        want = ("<" + v + ":" if n == "qe" else "(" + v + ";") + c + want + "y" + (v + ">" if n == "qe" else ")")
        if beside and lev < 2:
            src += "\\begin{qe}" + ("" if opt else "{p}") + "s\\end{qe}"
            want += ("<o:so>" if opt else "<p:sp>")
    decl = "[1][o]" if opt else "[1]"
    pre = "\\newenvironment{qe}" + decl + "{< #1:}{ #1 >}\\newenvironment{qf}" + decl + "{( #1;}{ )}"
    toks = parse(cx, pre + "w " + src + " z", cx.flag("pre"))
    cx.check_eq(squeeze(flat(toks)), "w" + want + "z", "text")
    names = [t["name"] for t in walk(toks) if t.get("name") in ("qe", "qf")]
    cx.check(len(names) == d + (min(d, 2) if beside else 0), "one token for each use")


WRAPS = [
    ("\\begin{theorem}", "\\end{theorem}", "a %s"), ("\\begin{theorem}[#1]", "\\end{theorem}", "a %s"), ("\\begin{itemize}", "\\end{itemize}", "\\item %s \\item[t] b"), ("\\begin{enumerate}[a]\\itemsep0pt", "\\end{enumerate}", "\\item %s"), ("\\begin{center}\\bf", "\\end{center}", "a %s"),
    ("\\begin{quote}#1", "\\end{quote}", "%s b"), ("\\begin{figure}\\caption{#1}", "\\label{k}\\end{figure}", "\\includegraphics{%s}"), ("\\begin{tabular}{cc}", "\\end{tabular}", "a & %s\\\\c & d"), ("\\begin{equation}", "\\end{equation}", "x_%s"), ("\\begin{align*}", "\\end{align*}", "a &= %s"),
    ("\\section{#1}", "", "a %s"), ("\\footnote{#1}", "\\ref{#1}", "%s"), ("\\begin{qf}", "\\end{qf}", "a %s"), ("\\begin{qf}", "\\end{qf}", "\\begin{qf}u\\end{qf}%s"), ("#1\\newcommand{\\qm}[1]{m##1}", "\\qm{y}", "a \\qm{%s}"), ("#1\\def\\qm##1{m##1}", "\\qm{y}", "a \\qm{%s}"), ("\\begin{table}\\begin{tabular}{c}", "\\end{tabular}\\caption{#1}\\end{table}", "%s & b"), ("\\begin{abstract}", "\\end{abstract}", "a %s"), ("\\begin{minipage}{2cm}", "\\end{minipage}", "a %s"), ("\\begin{proof}", "\\end{proof}", "a %s"), ("\\begin{description}", "\\end{description}", "\\item[%s] b"), ("\\begin{qu}", "\\end{qu}", "a %s"),
]


@harness(
    bounds="environments whose codes open and close each of %d other environments or commands (the argument in them), content with a symbolic character: their tokens are those of the code written out" % len(WRAPS),
    covers=["done"],
)
def wraps(cx):
    b, e, c = cx.pick("wrap", WRAPS)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".")
    a = cx.str("a", 1, 1, alpha=LETTERS + DIGITS)
    pre = cx.flag("pre")
    cx.cover("done")
    defs = "\\newenvironment{qf}{\\begin{center}}{\\end{center}}"
    sub = lambda code: code.replace("##", "!!").replace("#1", a).replace("!!", "#")
    got = parse(cx, defs + "\\newenvironment{qe}[1]{" + b + "}{" + e + "}w \\begin{qe}{" + a + "}" + c.replace("%s", s) + "\\end{qe} z", pre)
    want = parse(cx, defs + sub(b) + "\n" + c.replace("%s", s) + "\n" + sub(e), pre)
    cx.check_eq(plainly(only(cx, got, "qe")["content"]), plainly(want), "content of the environment")


def plainly(x):
    """tokens with blanks left out, and text without markup joined"""
    if isinstance(x, str):
        return squeeze(x)
    if isinstance(x, dict):
        return {k: plainly(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        out = []
        for t in x:
            t = plainly(t)
            if isinstance(t, dict) and t.get("type") == "text" and t.get("content") == "":
                continue
            out.append(t)
        return out
    return x


@harness(
    bounds="histories of 3 (thorough: 4) steps, each defines, redefines (with symbolic codes) or uses one of two environments, with or without an argument, in the document or inside a macro or group: each use has the definition in force",
    covers=["used", "redefined", "undefined"],
)
def histories(cx):
    n = cx.bound(3, 4)
    state = {"qe": None, "qf": None}
    src, want = "w ", "w"
    for i in range(n):
        name = cx.pick("name%d" % i, ["qe", "qf"])
        op = cx.pick("op%d" % i, ["define", "define with argument", "use"])
        if op == "use" or i == n - 1:
            c = cx.str("c%d" % i, 1, 1, alpha=LETTERS + ".")
            src += "\\begin{" + name + "}{u}" + c + "\\end{" + name + "} "
            st = state[name]
            cx.cover("used" if st else "undefined")
            if st is None:
                want += "u" + c
            elif st[1]:
                want += st[0] + "u" + c + "E"
            else:
                want += st[0] + "u" + c + "E"
        else:
            if state[name]:
                cx.cover("redefined")
            k = cx.str("k%d" % i, 1, 1, alpha=LETTERS + ".")
            arg = op != "define"
            cmd = "\\renewenvironment" if state[name] else "\\newenvironment"
            src += cmd + "{" + name + "}" + ("[1]{" + k + " #1}" if arg else "{" + k + " }") + "{ E}"
            state[name] = (k, arg)
    toks = parse(cx, src, cx.flag("pre"))
    cx.check_eq(squeeze(flat(toks)).replace("{", "").replace("}", ""), want, "text")


# ---- theorems

DECLS = ["\\newtheorem{qt}{%s}", "\\newtheorem{qt}{%s}[section]", "\\newtheorem{qt}[other]{%s}", "\\newtheorem {qt} {%s}", "\\newtheorem{qt}{\\textbf{%s}}", "\\newtheorem{qt}{{\\bf %s}}", "\\newtheorem*{qt}{%s}", "\\newtheorem* {qt}{%s}", "\\newcommand{\\tn}{%s}\\newtheorem{qt}{\\tn}", "\\theoremstyle{plain}\\newtheorem{qt}{%s}\n", "\\newtheorem{qt} [other] {%s}", "\\newtheorem{qt}{%s} [section]"]


@harness(
    bounds="a theorem-like environment declared in each of %d ways under the display name of each of %d kinds, capitalised or not, used twice and starred, with and without a title and label; symbolic title, label and content: name, title, content and whether it is numbered; the numbers in the JSON" % (len(DECLS), len(THEOREMS) + len(UNNUMBERED)),
    covers=["numbered", "unnumbered", "title"],
)
def theorems(cx):
    decl = cx.pick("decl", DECLS)
    kind = cx.pick("kind", cx.bound(["theorem", "observation", "proof", "claim"], THEOREMS + UNNUMBERED))
    disp = kind.capitalize() if cx.flag("capital") else kind
    star = cx.flag("star")
    numbered = not decl.startswith("\\newtheorem*") and kind in THEOREMS
    cx.cover("numbered" if numbered else "unnumbered")
    t = cx.str("t", 1, 1, alpha=LETTERS + DIGITS + ".:()=")
    c = cx.str("c", 1, 1, alpha=CH)
    k = cx.str("k", 1, 1, alpha=LETTERS + DIGITS)
    title = cx.pick("title", ["", "[%s]", "[{%s]}]", "[\\textbf{%s}]"])
    if title:
        cx.cover("title")
    lab = cx.pick("label", ["", "\\label{%s}"]).replace("%s", k)
    one = "\\begin{qt}" + title.replace("%s", t) + lab + " " + c + " b\\end{qt}"
    star_use = "\\begin{qt*}c\\end{qt*}" if star else ""
    src = decl.replace("%s", disp) + "w " + star_use + one + "\\begin{qt}d\\end{qt}"
    toks = parse(cx, src, cx.flag("pre"))
    envs = [x for x in toks if x.get("type") == "math_env"]
    cx.check(len(envs) == 2 + star, "every use is there")
    if star:
        cx.check(not envs[0].get("numbered"), "the starred use has no number")
        envs = envs[1:]
    wt = t + "]" if "]}" in title else t
    cx.check_eq([x["name"] for x in envs], [disp, disp], "display names")
    cx.check_eq([bool(x.get("numbered")) for x in envs], [numbered, numbered], "whether they are numbered")
    cx.check_eq(squeeze(flat(envs[0].get("title") or "")), wt if title else "", "title")
    cx.check_eq(squeeze(flat(envs[0]["content"])), squeeze(c) + "b", "content")
    cx.check_eq(envs[0].get("labels") or [], [k] if lab else [], "labels")
    out = [x for x in walk(build(cx, toks)) if x.get("type") == "math_env"][-2:]
    cx.check_eq([x.get("numbering") for x in out], ["0.1", "0.2"] if numbered else [None, None], "numbers in the JSON")
    cx.check_eq(squeeze(flat(out[0].get("title") or "")), wt if title else "", "title in the JSON")
    cx.check_eq(squeeze(flat(out[0]["content"])), squeeze(c) + "b", "content in the JSON")


@harness(
    bounds="a theorem-like environment under a display name of up to two symbolic letters or words, none of the usual kinds, in each of %d declarations: the content is complete under this name" % len(DECLS),
    covers=["done"],
)
def named(cx):
    decl = cx.pick("decl", DECLS)
    d = cx.str("d", 1, 2, alpha=LETTERS)
    disp = cx.pick("name", ["%s", "Main %s", "%s result (x)"]).replace("%s", d)
    c = cx.str("c", 1, 1, alpha=CH)
    inner = cx.pick("content", [("%s b", "%sb"), ("$x$ %s", "<x>%s"), ("\\textbf{%s}", "%s"), ("\\begin{proof}%s\\end{proof}", "%s"), ("\\begin{itemize}\\item %s\\end{itemize}", "%s"), ("\\begin{qt}u\\end{qt} %s", "u%s")])
    cx.cover("done")
    toks = parse(cx, decl.replace("%s", disp) + "w \\begin{qt}" + inner[0].replace("%s", c) + "\\end{qt} e", cx.flag("pre"))
    cx.check_eq(squeeze(flat(toks)), "w" + inner[1].replace("%s", squeeze(c)) + "e", "text")
    cx.check_eq([t.get("name") for t in toks if t.get("name")], [disp], "name")
    cx.check_eq(squeeze(flat(build(cx, toks))), "w" + inner[1].replace("%s", squeeze(c)) + "e", "text of the JSON")


DECLARATIONS = ["\\newtheorem{qt}{%s}", "\\newtheorem{qt}[o]{{%s}}", "\\newtheorem{qt}{\\textbf{%s}}[o]", "\\crefname{qt}{%s}{b}", "\\Crefname{qt}{\\textbf{%s}}{{b}}", "\\floatname{qt}{%s}", "\\floatname{qt}{\\textbf{%s}}", "\\newenvironment{qt}{%s}{{b}}", "\\newenvironment{qt}[1][{%s}]{a}{\\textbf{b}}", "\\renewenvironment{qt} [1] {%s} {b}", "\\newtheoremstyle{a}{b}{c}{%s}{d}{e}{f}{g}{h}", "\\theoremstyle{%s}"]


@harness(
    bounds="each of %d declarations with a symbolic character in them, before text that begins with any character: nothing of the declaration comes out, nothing of the text is lost" % len(DECLARATIONS),
    covers=["done"],
)
def declarations(cx):
    d = cx.pick("decl", DECLARATIONS)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".")
    t = cx.str("t", 1, 2, alpha=CH)
    gap = cx.pick("gap", ["", " ", "\n\n"])
    cx.cover("done")
    toks = parse(cx, "w " + d.replace("%s", s) + gap + t + " e", cx.flag("pre"))
    cx.check_eq(squeeze(flat(toks)), "w" + squeeze(t) + "e", "text")
    cx.check_eq([x.get("type") for x in toks if x.get("type") != "text"], [], "only text")


@harness(
    bounds="two or three (thorough four) declarations of one environment out of new, renew and provide, with symbolic codes, and uses between them: the codes of the declaration in force; with and without preprocessing",
    covers=["kept", "replaced", "first"],
)
def declarations(cx):
    n = cx.bound(2, 3)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    src, want, now = "", "", None
    for i in range(n + cx.pick("more", [0, 1])):
        cmd = cx.pick("c%d" % i, ["new", "renew", "provide", "provide "])
        b, e = "uvwx"[i] + s, "klmn"[i] + s
        src += "\\" + cmd.strip() + "environment" + (" " if cmd[-1] == " " else "") + "{qe}{" + b + "}{" + e + "}"
        if now is None:
            cx.cover("first")
            now = (b, e)
        elif cmd.startswith("provide"):
            cx.cover("kept")
        else:
            cx.cover("replaced")
            now = (b, e)
        if cx.flag("use%d" % i):
            src += "\\begin{qe}a\\end{qe}"
            want += now[0] + "a" + now[1]
    cx.check_eq(squeeze(flat(parse(cx, src + "\\begin{qe}b\\end{qe}z", cx.flag("pre")))), want + now[0] + "b" + now[1] + "z", "the declaration in force")
