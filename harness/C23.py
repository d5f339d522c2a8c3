"""C23 text styles apply to exactly their scope"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build_tex, squeeze

CH = LETTERS + DIGITS + ".,:()=*/'\"<>"

# command -> style name (what the command says in LaTeX, in the vocabulary of the output)
COMMANDS = {
    "textbf": "bold", "textit": "italic", "textsl": "italic", "emph": "italic", "textsc": "small-caps", "textsf": "sans-serif",
    "texttt": "monospace", "textrm": "normal", "textup": "normal", "texttiny": "xx-small", "textscriptsize": "x-small",
    "textfootnotesize": "small", "textsmall": "small", "textlarge": "large", "texthuge": "xx-large",
    "textsuperscript": "superscript", "textsubscript": "subscript", "underline": "underline", "overline": "overline",
    "textstrikeout": "line-through", "sout": "line-through", "uppercase": "uppercase", "lowercase": "lowercase",
    "textcolor{red}": "color=red", "textcolor[rgb]{1,0,.5}": "color={rgb:1,0,.5}", "text": None,
}

# switch -> (what it sets, style name, what else it resets)
FONT = ("family", "series", "shape")
SWITCHES = {
    "bf": ("series", "bold", FONT), "it": ("shape", "italic", FONT), "sl": ("shape", "italic", FONT), "sc": ("shape", "small-caps", FONT),
    "tt": ("family", "monospace", FONT), "sf": ("family", "sans-serif", FONT), "rm": ("plain", "normal", FONT), "normalfont": ("plain", "normal", FONT), "em": ("shape", "italic", ()),
    "bfseries": ("series", "bold", ()), "itshape": ("shape", "italic", ()), "slshape": ("shape", "italic", ()), "scshape": ("shape", "small-caps", ()),
    "ttfamily": ("family", "monospace", ()), "sffamily": ("family", "sans-serif", ()),
    "tiny": ("size", "xx-small", ()), "scriptsize": ("size", "x-small", ()), "footnotesize": ("size", "small", ()), "small": ("size", "small", ()),
    "large": ("size", "large", ()), "Large": ("size", "large", ()), "LARGE": ("size", "large", ()), "huge": ("size", "xx-large", ()), "Huge": ("size", "xx-large", ()),
    "color{red}": ("color", "color=red", ()), "color[rgb]{1,0,0}": ("color", "color={rgb:1,0,0}", ()), "color[cmyk]{1,0,0,0}": ("color", "color={cmyk:1,0,0,0}", ()),
}
FEW = ["bf", "it", "tt", "em", "bfseries", "itshape", "sffamily", "small", "large", "color{red}", "color[cmyk]{1,0,0,0}"]


def apply(state, name):
    what, style, resets = SWITCHES[name]
    # the plain font is what remains until any font is chosen
    out = {k: v for k, v in state.items() if k not in resets and not (k == "plain" and what in FONT)}
    out[what] = style
    return out


def styles(state, *more):
    return frozenset(list(state.values()) + [m for m in more if m])


def runs(x, st=frozenset()):
    """the visible text with the styles in force for each piece"""
    if isinstance(x, str):
        return [(x, st)]
    out = []
    if isinstance(x, (list, tuple)):
        for t in x:
            out += runs(t, st)
    elif isinstance(x, dict):
        st = st | frozenset(x.get("styles") or [])
        for k in ("title", "content"):
            if x.get(k) is not None:
                out += runs(x[k], st)
    return out


def joined(rs):
    """without white space, neighbours of the same style joined"""
    out = []
    for s, st in rs:
        s = squeeze(s)
        if s == "":
            continue
        if out and out[-1][1] == st:
            out[-1] = (out[-1][0] + s, st)
        else:
            out.append((s, st))
    return [(s, sorted(st)) for s, st in out]


def check(cx, src, want, json=False):
    got = build_tex(cx, src) if json else parse(cx, src)
    cx.check_eq(joined(runs(got)), joined(want), "text with its styles")


NONE = frozenset()


def st(*names):
    return frozenset([n for n in names if n])


@harness(
    bounds="%d style commands, argument in braces (with or without blanks), as a single character, in a group of its own, or holding math, a reference or a footnote; 1..2 symbolic characters inside, one on each side; token list and JSON" % len(COMMANDS),
    covers=["done"],
)
def command(cx):
    name = cx.pick("name", list(COMMANDS))
    style = COMMANDS[name]
    form = cx.pick("form", ["braces", "blanks", "single", "group", "math", "ref", "foot", "cite", "list", "words"])
    json = cx.flag("json")
    a = cx.str("a", 1, 1, alpha=CH)
    s = cx.str("s", 1, 1 if form == "single" else 2, alpha=CH)
    z = cx.str("z", 1, 1, alpha=LETTERS)
    own = st(style)
    mid = [(s, own)]
    cmd = "\\" + name
    if form == "braces":
        src = cmd + "{" + s + "}"
    elif form == "blanks":
        cx.assume(not name.endswith("}"))
        src = cmd + " { " + s + " }"
    elif form == "single":
        cx.assume(not name.endswith("}"))
        src = cmd + " " + s
    elif form == "group":
        src = " {" + cmd + "{" + s + "}} "
    elif form == "math":
        src = cmd + "{u $" + s + "$ v}"
        mid = [("u", own), (s, own), ("v", own)]
    elif form == "ref":
        src = cmd + "{u \\ref{" + s + "} v}"
        cx.assume("," not in s)
        mid = [("u", own), (s, own), ("v", own)]
    elif form == "cite":
        src = cmd + "{\\cite{" + s + "}}"
        cx.assume("," not in s)
    elif form == "foot":
        src = cmd + "{u\\footnote{" + s + "} v}"
        mid = [("u", own), (s, own), ("v", own)]
    elif form == "list":
        src = cmd + "{u \\begin{itemize}\\item " + s + "\\end{itemize} v}"
        mid = [("u", own), (s, own), ("v", own)]
    else:
        src = cmd + "{" + s + " b\n" + s + "}"
        mid = [(s + "b" + s, own)]
    cx.cover("done")
    check(cx, "w " + a + src + z + " e", [("w" + a, NONE)] + mid + [(z + "e", NONE)], json)


@harness(
    bounds="every style command inside every other (quick: 9 of them outside), symbolic character before, inside and after at each level, with and without an empty or blank-only command between",
    covers=["done"],
)
def nested(cx):
    o = cx.pick("outer", cx.bound(["textbf", "emph", "texttt", "textsmall", "underline", "textsuperscript", "uppercase", "textcolor{red}", "text"], list(COMMANDS)))
    i = cx.pick("inner", list(COMMANDS))
    empty = cx.pick("empty", ["", "\\textbf{}", "\\textit{ }"])
    a = cx.str("a", 0, 1, alpha=CH)
    b = cx.str("b", 1, 1, alpha=CH)
    c = cx.str("c", 0, 1, alpha=CH)
    cx.cover("done")
    src = "w\\" + o + "{" + a + empty + "\\" + i + "{" + b + "}" + c + "}" + empty + "e"
    O = st(COMMANDS[o])
    want = [("w", NONE), (a, O), (b, O | st(COMMANDS[i])), (c, O), ("e", NONE)]
    check(cx, src, want)


# opening, closing, styles given by the place itself
PLACES = [(" {", "} ", None), ("\\begin{center}", "\\end{center}", None), ("\\textsc{", "}", "small-caps"), ("\\footnote{", "}", None), ("\\bgroup ", "\\egroup ", None),
          ("\\begin{quote}", "\\end{quote}", None), ("\\begin{itemize}\\item ", "\\end{itemize}", None), ("\\section{", "}", None),
          ("\\begin{tabular}{c}x & ", "\\end{tabular}", None), ("\\caption{", "}", None), ("\\begin{abstract}", "\\end{abstract}", None), ("\\begin{theorem}", "\\end{theorem}", None),
          ("\\mbox{", "}", None), ("\\begin{qq}", "\\end{qq}", None), (" {\\textit{x}", "} ", None), ("\\begingroup ", "\\endgroup ", None)]


def switch(name, text):
    return "\\" + name + (" " if not name.endswith("}") else "") + text


def place_runs(p, inner):
    x = [("x", NONE)] if "x & " in p[0] else [("x", st("italic"))] if "{x}" in p[0] else []
    if p[2]:
        inner = [(s, t | st(p[2])) for s, t in inner]
    return x + inner


@harness(
    bounds="one or two of %d switches in each of %d places (groups, environments, arguments, items, cells, titles, notes), symbolic text before, between and after, and text behind the place" % (len(SWITCHES), len(PLACES)),
    covers=["one", "two"],
)
def place(cx):
    p = cx.pick("place", PLACES)
    one = cx.pick("one", list(SWITCHES))
    two = cx.pick("two", [""] + cx.bound(FEW, list(SWITCHES)))
    cx.assume(two == "" or not (one == "em" and two == "em"))
    cx.cover("two" if two else "one")
    s = cx.str("s", 1, 1, alpha=CH)
    t = cx.str("t", 1, 1, alpha=CH)
    src = "q " + switch(one, s)
    state = apply({}, one)
    inner = [("q", NONE), (s, styles(state))]
    if two:
        src += " " + switch(two, t)
        inner.append((t, styles(apply(state, two))))
    check(cx, "w " + p[0] + src + p[1] + "e", [("w", NONE)] + place_runs(p, inner) + [("e", NONE)])


@harness(
    bounds="all sequences of three (thorough: four) of %d switches in one group, with symbolic text after each, or directly one after the other" % len(FEW),
    covers=["text between", "no text between"],
)
def sequence(cx):
    n = cx.bound(3, 4)
    between = cx.flag("between")
    cx.cover("text between" if between else "no text between")
    state = {}
    src = ""
    want = [("w", NONE)]
    for i in range(n):
        name = cx.pick("switch%d" % i, FEW)
        cx.assume(not (name == "em" and state.get("shape") == "italic"))  # an emphasis within italics is upright
        state = apply(state, name)
        if between:
            s = cx.str("s%d" % i, 1, 1, alpha=LETTERS)
            src += switch(name, s) + " "
            want.append((s, styles(state)))
        elif i == n - 1:
            src += switch(name, "x")
            want.append(("x", styles(state)))
        else:
            src += "\\" + name
    check(cx, "w {" + src + "} e", want + [("e", NONE)])


INNER = [("{", "}", ""), ("\\begin{center}", "\\end{center}", ""), ("\\textsc{", "}", "small-caps"), ("\\footnote{", "}", ""), ("\\begin{itemize}\\item ", "\\end{itemize}", ""),
         ("\\begin{comment}", "\\end{comment}", None), ("\\begin{qq}", "\\end{qq}", ""), ("\\begin{tabular}{c}", "\\end{tabular}", "")]


@harness(
    bounds="a switch, then one of %d inner places holding a second switch of %d, then a third switch or none: the inner switch ends with its place" % (len(INNER), len(FEW)),
    covers=["back", "third"],
)
def inner_scope(cx):
    one = cx.pick("one", FEW)
    o, c, own = cx.pick("inner", INNER)
    two = cx.pick("two", FEW)
    three = cx.pick("three", ["", "it", "bfseries", "large", "color{red}"])
    cx.assume(not (one == "em" and two == "em"))
    a = cx.str("a", 1, 1, alpha=CH)
    s = cx.str("s", 1, 1, alpha=LETTERS)
    z = cx.str("z", 1, 1, alpha=CH)
    state = apply({}, one)
    src = "w {" + switch(one, a) + " " + o + "u " + switch(two, s) + c + " " + z
    want = [("w", NONE), (a, styles(state))]
    if own is not None:
        # commands and groups give their text to what stands around them
        want += [("u", styles(state, own)), (s, None)]
        inner = apply(state, two)
        want[-1] = (s, styles(inner, own))
        want2 = want[:-1] + [(s, styles(state, own) | styles(apply({}, two)))]
    else:
        want2 = want
    want.append((z, styles(state)))
    if want2 is not want:
        want2.append((z, styles(state)))
    tail = []
    if three:
        cx.cover("third")
        src += " " + switch(three, "y")
        tail = [("y", styles(apply(state, three)))]
    else:
        cx.cover("back")
    src += "} e"
    tail.append(("e", NONE))
    got = joined(runs(parse(cx, src)))
    # within a nested scope the styles may accumulate (the output has no way to switch one off)
    cx.check(got == joined(want + tail) or got == joined(want2 + tail), "text with its styles: %r" % (got,))


OTHER = ["$x$", "\\ref{k}", "\\footnote{n}", "\\section{t}", "\\begin{itemize}\\item i\\item j\\end{itemize}", "\\begin{tabular}{c}t & u\\\\v\\end{tabular}", "\\begin{figure}\\caption{t}\\end{figure}",
         "\\[x\\]", "\\begin{equation}x\\end{equation}", "\\verb|v|", "\\cite{k}", "\\foo{a}", "\\\\", "\n\n", "\\%", "\\{", "a\\&b", "\\'e", "\\begin{theorem}t\\end{theorem}", "\\href{u}{t}", "\\label{k}", "~", "{g}", "\\begin{comment}\\it \\end{comment}"]


@harness(
    bounds="each of %d switches and style commands before each of %d other constructs and a symbolic character: text and structure as without the style, all of it styled, nothing after it" % (len(FEW) + 4, len(OTHER)),
    covers=["switch", "command"],
)
def content(cx):
    k = cx.pick("style", FEW + ["\\textbf", "\\emph", "\\textcolor{red}", "\\underline"])
    mid = cx.pick("other", OTHER)
    s = cx.str("s", 1, 1, alpha=CH)
    body = s + " " + mid + " " + s
    if k[0] == "\\":
        cx.cover("command")
        src = k + "{" + body + "}"
        style = st(COMMANDS[k[1:]])
    else:
        cx.cover("switch")
        src = "{" + switch(k, body) + "}"
        style = styles(apply({}, k))
    plain = runs(parse(cx, body))
    want = [("w", NONE)] + [(t, x | style) for t, x in plain] + [("e", NONE)]
    check(cx, "w " + src + " e", want)


@harness(
    bounds="a switch at the start of the document or of a paragraph, symbolic text and a heading, list or environment behind it: the text is complete and styled to the end; two nested emphases of the document end the first",
    covers=["document", "off"],
)
def top(cx):
    a = cx.str("a", 1, 1, alpha=CH)
    s = cx.str("s", 1, 2, alpha=CH)
    if cx.flag("off"):
        cx.cover("off")
        check(cx, "w {\\em " + a + " \\em " + s + "} e", [("w", NONE), (a, st("italic")), (s + "e", NONE)])
    else:
        cx.cover("document")
        one = cx.pick("one", list(SWITCHES))
        o = cx.pick("other", ["\\section{t}", "\\begin{itemize}\\item i\\end{itemize}", "\n\n", "\\begin{center}t\\end{center}", "$x$"])
        style = styles(apply({}, one))
        plain = runs(parse(cx, o + " " + s))
        check(cx, a + " " + switch(one, "u ") + o + " " + s, [(a, NONE), ("u", style)] + [(t, x | style) for t, x in plain])
