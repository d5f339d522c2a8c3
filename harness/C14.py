"""C14 math content is kept, with inline and display told apart"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build_tex, flat, text, of_type

ENVS = ["equation", "align", "aligned", "gather", "multline", "eqnarray", "flalign", "alignat", "dmath"]
ALIGN = ("align", "aligned", "eqnarray", "flalign", "alignat")

# opening, closing, display
DELIMS = [("$", "$", False), ("$$", "$$", True), ("\\(", "\\)", False), ("\\[", "\\]", True)]


def delims():
    out = [(o, c, {"display": "block"} if d else {}) for o, c, d in DELIMS]
    for e in ENVS:
        for star in ("", "*"):
            arg = "{2}" if e == "alignat" else ""
            flags = {"display": "block"}
            if e in ALIGN:
                flags["align"] = True
            if not star:
                flags["numbered"] = True
            out.append(("\\begin{" + e + star + "}" + arg, "\\end{" + e + star + "}", flags))
    return out


ALLD = delims()
SOMED = ALLD[:4] + [d for d in ALLD[4:] if "{equation" in d[0] or "{alignat}" in d[0]]


def eq(content, flags, **more):
    d = {"type": "equation", "content": content}
    d.update(flags)
    d.update(more)
    return d


MATH = LETTERS + DIGITS + "^_+-=<>()[],.;:!?&|'/*\"@~ "


@harness(
    bounds="every delimiter pair and equation environment, bodies of 1..5 (thorough 9) symbolic characters that need no escape in math, text directly before and after",
    covers=["inline", "block", "bracket"],
    excludes="bodies with outer blanks (they are trimmed)",
)
def bodies(cx):
    o, c, flags = cx.pick("d", ALLD)
    s = cx.str("s", 1, cx.bound(5, 9), alpha=MATH)
    cx.assume(s == s.strip())
    cx.cover("block" if flags else "inline")
    if s[0] == "[":
        cx.cover("bracket")
    pad = cx.pick("pad", ["", " ", "\n"])
    out = parse(cx, "x" + o + pad + s + pad + c + "y")
    cx.check_eq(out, [text("x"), eq(s, flags), text("y")], "equation between texts")


TEMPLATES = [
    "x_{<>}", "{<>}", "{{<>}}y", "\\frac{<>}{b}", "\\frac {a}{<>}", "\\sqrt[3]{<>}", "\\left[<>\\right]", "\\left(<>\\right)",
    "\\{<>\\}", "a\\\\<>", "a\\\\ [2pt]<>", "\\alpha<>", "\\alpha <>", "a\\,<>", "a\\;<>", "a\\!b<>", "\\text{<>}", "\\mathrm{<>}", "\\mathbb {<>}",
    "\\begin{array}{cc}a&<>\\\\c&d\\end{array}", "\\begin{matrix}a\\\\<>\\end{matrix}", "\\begin{cases}<>\\end{cases}",
    "a\\&<>", "a\\%<>", "a\\#<>", "a\\_<>", "a\\|<>", "\\big|<>\\big|", "\\sum_{i=1}^{<>}i", "\\operatorname{<>}(x)",
    "\\langle<>\\rangle", "\\xx<>", "\\xx{<>}", "\\mathcal<>", "a\\quad <>",
]


@harness(
    bounds="34 surroundings with commands, groups, escapes, rows and inner environments, 6 delimiters (thorough all), hole of 1..2 (thorough 4) symbolic letters, digits or operators",
    covers=["done"],
    excludes="letters directly after a control word",
)
def commands(cx):
    o, c, flags = cx.pick("d", cx.bound(SOMED, ALLD))
    t = cx.pick("t", TEMPLATES)
    s = cx.str("s", 1, cx.bound(2, 4), alpha="abzAZ019+-=<>()[],.|'/*")
    if t in ("\\alpha<>", "\\xx<>", "\\mathcal<>", "\\langle<>\\rangle"):
        cx.assume(not s[0].isalpha())
    if t.endswith("\\\\<>") or t == "\\begin{matrix}a\\\\<>\\end{matrix}":
        cx.assume(s[0] not in "[*")
    body = t.replace("<>", s)
    cx.cover("done")
    out = parse(cx, "x " + o + body + c + " y")
    cx.check_eq(out, [text("x "), eq(body, flags), text("y")] if out[-1] == text("y") else [text("x "), eq(body, flags), text(" y")], "equation body as written")


def dollars_model(s):
    """tokens of a text over letters, \\$, \\\\ and dollars; None where a dollar is left over"""
    out = []
    cur = ""
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == "\\":
            cur += "$" if s[i + 1] == "$" else "\n"
            i += 2
            continue
        if ch != "$":
            cur += ch
            i += 1
            continue
        dbl = i + 1 < n and s[i + 1] == "$"
        j = i + 2 if dbl else i + 1
        body = ""
        closed = False
        while j < n:
            if s[j] == "\\":
                body += s[j: j + 2]
                j += 2
            elif s[j] == "$":
                closed = True
                break
            else:
                body += s[j]
                j += 1
        if not closed:
            return None
        if dbl and not (j + 1 < n and s[j + 1] == "$"):
            return None
        if cur:
            out.append(("text", cur))
            cur = ""
        if body:
            out.append(("block" if dbl else "inline", body))
        i = j + (2 if dbl else 1)
    if cur:
        out.append(("text", cur))
    return out


@harness(
    bounds="all texts of 1..7 (thorough 11) symbolic characters over backslash, dollar, a and comma in which a backslash only stands before a dollar or a backslash and all dollars pair up",
    covers=["escaped in math", "escaped in text", "block", "two"],
)
def dollars(cx):
    s = cx.str("s", 1, cx.bound(7, 11), alpha="\\$a,")
    i = 0
    while i < len(s):
        if s[i] == "\\":
            cx.assume(i + 1 < len(s))
            cx.assume(s[i + 1] in "$\\")
            i += 1
        i += 1
    want = dollars_model(s)
    cx.assume(want is not None)
    kinds = [k for k, _ in want]
    for k, v in want:
        if "\\$" in v and k != "text":
            cx.cover("escaped in math")
        if "$" in v and k == "text":
            cx.cover("escaped in text")
    if "block" in kinds:
        cx.cover("block")
    if len(kinds) - kinds.count("text") > 1:
        cx.cover("two")
    got = []
    for t in parse(cx, s):
        if t["type"] == "equation":
            got.append(("block" if t.get("display") else "inline", t["content"]))
        elif got and got[-1][0] == "text":
            got[-1] = ("text", got[-1][1] + t["content"])
        else:
            got.append(("text", t["content"]))
    # neighbouring texts (around empty math) count as one
    merged = []
    for k, v in want:
        if k == "text" and merged and merged[-1][0] == "text":
            merged[-1] = ("text", merged[-1][1] + v)
        else:
            merged.append((k, v))

    def norm(pairs):
        out = []
        for k, v in pairs:
            v = "".join([c for c in v if c != "\n"]) if k == "text" else v
            if v != "":
                out.append((k, v))
        return out

    cx.check_eq(norm(got), norm(merged), "text and math in order")


@harness(
    bounds="two equations of all pairs of 4 delimiters and 4 environments with 0..2 (thorough 4) symbolic characters of text between and after them, escaped dollars and brackets included",
    covers=["adjacent", "escaped"],
)
def pairs(cx):
    small = [d for d in SOMED]
    o1, c1, f1 = cx.pick("d1", small)
    o2, c2, f2 = cx.pick("d2", small)
    s = cx.str("s", 0, cx.bound(2, 4), alpha="ab,.-")
    mid = cx.pick("mid", ["", "\\$", "[", ")", "\\%"])
    shown = {"": "", "\\$": "$", "[": "[", ")": ")", "\\%": "%"}[mid]
    if mid == "\\$":
        cx.cover("escaped")
    if c1 == "$" and o2 in ("$", "$$") or c1 == "$$" and o2 == "$":
        cx.assume(len(s) > 0 or mid != "")
    if len(s) == 0 and mid == "":
        cx.cover("adjacent")
    src = o1 + "1+1" + c1 + s + mid + o2 + "b" + c2 + mid + s
    out = parse(cx, src)
    cx.check_eq([t for t in out if t["type"] == "equation"], [eq("1+1", f1), eq("b", f2)], "both equations")
    cx.check_eq("".join([flat(t) if t["type"] == "text" else "#" for t in out]), "#" + s + shown + "#" + shown + s, "text between and after")


NONUM = ["", "\\nonumber", "\\notag", "\\tag{1}", "\\tag*{1}"]


@harness(
    bounds="every equation environment, starred or not, with \\nonumber, \\notag or \\tag in none, one or all of 1..3 rows, up to two labels of 1..2 (thorough 4) symbolic characters",
    covers=["numbered", "suppressed", "labels"],
)
def numbered(cx):
    e = cx.pick("env", ENVS)
    star = cx.pick("star", ["", "*"])
    rows = cx.pick("rows", [1, 2, 3])
    mark = cx.pick("mark", NONUM)
    where = cx.pick("where", ["none", "first", "all"])
    if mark == "":
        cx.assume(where == "none")
    else:
        cx.assume(where != "none")
    lab = cx.pick("lab", [0, 1, 2])
    s = cx.str("s", 1, cx.bound(2, 4), alpha=LETTERS + DIGITS + ":-_.")
    lines = []
    for i in range(rows):
        l = "a&=b_" + str(i)
        if where == "all" or (where == "first" and i == 0):
            l += mark
        lines.append(l)
    labels = []
    body = "\\\\".join(lines)
    src = body
    if lab >= 1:
        src = "\\label{" + s + "}" + src
        labels.append(s)
    if lab == 2:
        src = src + "\\label{z" + s + "}"
        labels.append("z" + s)
    arg = "{2}" if e == "alignat" else ""
    out = parse(cx, "\\begin{" + e + star + "}" + arg + src + "\\end{" + e + star + "}")
    cx.check_eq(len(out), 1, "one equation")
    t = out[0]
    single = e in ("equation", "multline", "dmath")
    suppressed = star != "" or where == "all" or (where == "first" and (single or rows == 1))
    cx.cover("suppressed" if suppressed else "numbered")
    cx.check_eq(t.get("numbered", False), not suppressed, "number")
    if labels:
        cx.cover("labels")
    cx.check_eq(t.get("labels", []), labels, "labels")
    cx.check_eq(t["content"], body, "body without labels")
    cx.check_eq(t.get("display"), "block", "display")


INNER = [
    ("\\ref{<>}", {"type": "ref", "content": ["<>"]}),
    ("\\eqref{<>}", {"type": "ref", "content": ["<>"]}),
    ("\\cite{<>}", {"type": "citation", "content": ["<>"]}),
    ("\\includegraphics{<>}", {"type": "includegraphics", "content": "<>"}),
    ("\\includegraphics[width=2cm]{<>}", {"type": "includegraphics", "content": "<>"}),
    ("\\url{<>}", {"type": "url", "content": "<>"}),
]


def fill(x, s):
    if isinstance(x, str):
        return s if x == "<>" else x
    if isinstance(x, list):
        return [fill(v, s) for v in x]
    return {k: fill(v, s) for k, v in x.items()}


@harness(
    bounds="two references, citations, figures or links of all pairs of 6 kinds in an equation of 8 (thorough 22) delimiters, targets of 1..2 (thorough 4) symbolic characters; parsed and built",
    covers=["same", "built"],
)
def embedded(cx):
    o, c, flags = cx.pick("d", cx.bound(SOMED, ALLD))
    a, ta = cx.pick("a", INNER)
    b, tb = cx.pick("b", INNER)
    s = cx.str("s", 1, cx.bound(2, 4), alpha=LETTERS + DIGITS)
    if a == b:
        cx.cover("same")
    wrap = cx.pick("wrap", ["plain", "text"])
    x = a.replace("<>", s)
    if wrap == "text":
        x = "\\text{see " + x + "!}"
    src = o + "p+" + x + "q" + b.replace("<>", "z" + s) + "r" + c
    out = parse(cx, src)
    cx.check_eq(len(out), 1, "one equation")
    t = out[0]
    ph = t.get("placeholders", {})
    keys = list(ph)
    cx.check_eq(len(keys), 2, "two placeholders")
    k = [x for x in keys]
    k1 = "\\text{see " + k[0] + "!}" if wrap == "text" else k[0]
    cx.check_eq(t["content"], "p+" + k1 + "q" + k[1] + "r", "math around the embedded tokens")
    got = [ph[k[0]], ph[k[1]]]
    for g, w in zip(got, [fill(ta, s), fill(tb, "z" + s)]):
        cx.check_eq(len(g), 1, "one token each")
        cx.check_eq({x: g[0].get(x) for x in w}, w, "embedded token")
    if cx.flag("build"):
        cx.cover("built")
        j = build_tex(cx, src)
        cx.check_eq(j[0]["content"], t["content"], "content in the output")
        jp = j[0].get("placeholders", {})
        cx.check_eq(sorted(jp), sorted(keys), "placeholders in the output")
        cx.check_eq([jp[x][0]["content"] for x in keys], [ph[x][0]["content"] for x in keys], "their content")


DEFS = [
    ("\\newcommand{\\xx}[1]{#1^2}", "\\xx{<>}", "<>^2"),
    ("\\newcommand{\\xx}[2][k]{#1_{#2}}", "\\xx{<>}", "k_{<>}"),
    ("\\newcommand{\\xx}[2][k]{#1_{#2}}", "\\xx[<>]{y}", "<>_{y}"),
    ("\\def\\xx#1{(#1)}", "\\xx{<>}", "(<>)"),
    ("\\newcommand{\\xx}{k}", "<>\\\\xx+\\xx", "<>\\\\xx+k"),
    ("\\def\\xx#1;{(#1)}", "\\xx <>;", "(<>)"),
    ("\\DeclareMathOperator{\\xx}{op}", "\\xx(<>)", "op(<>)"),
    ("\\DeclareMathOperator*{\\xx}{op}", "\\xx(<>)", "op(<>)"),
    ("\\newcommand{\\be}{\\begin{array}{c}}\\newcommand{\\ee}{\\end{array}}", "\\be <>\\ee", "\\begin{array}{c} <>\\end{array}"),
]


@harness(
    bounds="9 macros used inside 8 (thorough 22) delimiters, argument of 1..2 (thorough 3) symbolic characters, before or after the surrounding math",
    covers=["done"],
)
def macros(cx):
    o, c, flags = cx.pick("d", cx.bound(SOMED, ALLD))
    d, use, want = cx.pick("def", DEFS)
    s = cx.str("s", 1, cx.bound(2, 3), alpha="abz019+-=<>")
    cx.cover("done")
    out = parse(cx, d + o + "p+" + use.replace("<>", s) + "+q" + c)
    cx.check_eq(len(out), 1, "one equation")
    t = dict(out[0])

    def norm(x):
        return "".join([ch for ch in x if ch not in " {}"])

    cx.check_eq(norm(t["content"]), norm("p+" + want.replace("<>", s) + "+q"), "expanded body")
    t["content"] = ""
    cx.check_eq(t, eq("", flags), "kind of the equation")


PLACES = [
    "\\section{a <>}", "\\textbf{a <>}", "\\begin{itemize}\\item a <>\\end{itemize}", "\\begin{tabular}{cc}a&b <>\\\\c&d\\end{tabular}",
    "\\caption{a <>}", "\\footnote{a <>}", "\\begin{quote}a <>\\end{quote}", "{\\it a <>}", "\\begin{theorem}[<>] a\\end{theorem}",
    "\\begin{figure}a <>\\end{figure}", "\\title{a <>}", "\\begin{abstract}a <>\\end{abstract}", "\\fbox{a <>}b",
    "\\href{u}{a <>}", "\\begin{qq}a <>\\end{qq}",
]


@harness(
    bounds="all delimiters in 15 places such as headings, captions, cells, items, notes, with a body of 1..2 (thorough 3) symbolic characters",
    covers=["done"],
    excludes="\\mbox, which by design yields plain text",
)
def places(cx):
    o, c, flags = cx.pick("d", cx.bound(SOMED, ALLD))
    p = cx.pick("place", PLACES)
    s = cx.str("s", 1, cx.bound(2, 3), alpha="abz019+-=<>^_")
    cx.cover("done")
    out = parse(cx, "x " + p.replace("<>", o + s + c) + " y")
    found = of_type(out, "equation")
    cx.check_eq(len(found), 1, "one equation in place")
    t = {k: v for k, v in found[0].items() if k != "styles"}
    cx.check_eq(t, eq(s, flags), "the equation")


LAYOUT = ["\\noindent", "\\allowbreak", "\\hfill", "\\vspace{2pt}", "\\pagebreak[1]", "\\kern2pt", "\\hrule", "\\protect", "\\displaybreak", "\\phantomsection", "\\/", "\\-", "\\boxit"]


@harness(
    bounds="%d pairs of layout commands, next to each other or apart, in each kind of equation, with symbolic text around: none of the layout commands is left, all else is" % (len(LAYOUT) ** 2),
    covers=["done"],
)
def layout(cx):
    o, c, flags = cx.pick("d", cx.bound(SOMED, ALLD))
    x = cx.pick("x", LAYOUT)
    y = cx.pick("y", LAYOUT)
    sep = cx.pick("sep", ["", " ", "+", "\\\\", "\\alpha"])
    s = cx.str("s", 1, 1, alpha="az19+=")
    t = cx.str("t", 1, 1, alpha="az19+=")
    body = s + x + sep + y + " " + t
    want = s + (x if x == "\\boxit" else "") + sep + (y if y == "\\boxit" else "") + t
    out = parse(cx, "x " + o + body + c + " y")
    cx.cover("done")
    e = [q for q in out if q["type"] == "equation"]
    cx.check_eq(len(e), 1, "one equation")
    cx.check_eq("".join(e[0]["content"].split()), "".join(want.split()), "equation without layout commands")
    cx.check_eq([q for q in out if q["type"] != "equation"], [text("x "), text("y")] if out[-1] == text("y") else [text("x "), text(" y")], "text around")


BOXED = ["\\mbox{%s}", "\\hbox{%s}", "\\fbox{%s}", "\\raisebox{2pt}{%s}", "\\makebox[1cm]{%s}", "\\hbox to 2cm{%s}"]
# contents, and what is left of the box, or None where the box stays
FILLED = [("<>", "<>"), (" <> ", " <> "), ("if <>", "if <>"), ("$<>$", "<>"), (" $<>$ ", "<>"), ("if $<>$", None), ("$<>$ is", None), ("$a$, $<>$", None), ("\\$<>", "\\$<>"), ("see \\ref{<>}", "see P"), (" if\n<>", " if <>")]


@harness(
    bounds="%d boxes in each kind of equation with text, math or both of a symbolic character, once or twice: text stays with its blanks, a box of math is its math, text with math in it keeps its box" % len(BOXED),
    covers=["box stays", "text"],
)
def boxed(cx):
    o, c, flags = cx.pick("d", cx.bound([d for d in SOMED if "$" not in d[0]], [d for d in ALLD if "$" not in d[0]]))
    b = cx.pick("b", BOXED)
    f, left = cx.pick("f", FILLED)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + "=<(")
    twice = cx.flag("twice")
    cx.cover("text" if left else "box stays")
    x = b.replace("%s", f).replace("<>", s)
    w = x if left is None else left.replace("<>", s)
    body = "a" + x + ("+" + x if twice else "") + "z"
    out = parse(cx, "x " + o + body + c + " y")
    e = [q for q in out if q["type"] == "equation"]
    cx.check_eq(len(e), 1, "one equation")
    ph = e[0].get("placeholders") or {}
    got = e[0]["content"]
    for k in ph:
        got = got.replace(k, "P")
        cx.check_eq([q["content"] for q in ph[k]], [[s]], "the reference in it")
    cx.check_eq(" ".join(got.split()), " ".join(("a" + w + ("+" + w if twice else "") + "z").split()), "equation with its boxes")
