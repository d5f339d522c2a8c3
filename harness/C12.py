"""C12 environments end at their own end"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import squeeze, parse, build_tex, flat, text

# name -> (type, name in the token, further keys)
KINDS = {
    "qq": ("environment", {}),
    "qqa": ("environment", {}),
    "q.q-a_1": ("environment", {}),
    "theorem": ("math_env", {"numbered": True}),
    "proof": ("math_env", {}),
    "quote": ("quote", {}),
    "center": ("group", {}),
    "figure": ("figure", {"numbered": True}),
    "table": ("table", {"numbered": True}),
    "subtable": ("table", {}),
    "algorithm": ("algorithm", {"numbered": True}),
    "small": ("group", {}),
}


def token(name, content, **more):
    typ, extra = KINDS[name]
    d = {"type": typ, "name": name}
    d.update(extra)
    d.update(more)
    d["content"] = content
    return d


def strip(tokens):
    """tokens with neighbouring texts joined"""
    out = []
    for t in tokens:
        if isinstance(t.get("content"), list):
            t = dict(t)
            t["content"] = strip(t["content"])
        if t["type"] == "text" and out and out[-1]["type"] == "text" and list(t) == ["type", "content"] and list(out[-1]) == ["type", "content"]:
            out[-1] = text(out[-1]["content"] + t["content"])
        else:
            out.append(t)
    return out


FORMS = ["\\begin{%s}%s\\end{%s}", "\\begin {%s}%s\\end {%s}", "\\%s %s\\end%s "]
NAMES3 = ["qq", "qqa", "quote", "theorem", "figure", "center"]
NAMES = sorted(KINDS)


@harness(
    bounds="all trees of three environments of 6 (thorough 12) kinds: one in the other in the third, two beside each other in the third, one after the other; two spellings of begin",
    covers=["same name inside itself", "prefix names"],
)
def nesting(cx):
    a = cx.pick("a", cx.bound(NAMES3, NAMES))
    b = cx.pick("b", cx.bound(NAMES3, NAMES))
    c = cx.pick("c", cx.bound(NAMES3, NAMES))
    f = FORMS[cx.pick("form", [0, 1])]
    if a == b and b == c:
        cx.cover("same name inside itself")
    if a == "qq" and b == "qqa" and c == "qq":
        cx.cover("prefix names")

    def env(n, s):
        return f % (n, s, n)

    shape = cx.pick("shape", [0, 1, 2, 3])
    if shape == 0:
        src = "1" + env(a, "2" + env(b, "3" + env(c, "4") + "5") + "6") + "7"
        want = [text("1"), token(a, [text("2"), token(b, [text("3"), token(c, [text("4")]), text("5")]), text("6")]), text("7")]
    elif shape == 1:
        src = "1" + env(a, env(b, "2") + "3" + env(c, "4")) + "5"
        want = [text("1"), token(a, [token(b, [text("2")]), text("3"), token(c, [text("4")])]), text("5")]
    elif shape == 2:
        src = env(a, "1") + "2" + env(b, "3") + env(c, "4")
        want = [token(a, [text("1")]), text("2"), token(b, [text("3")]), token(c, [text("4")])]
    else:
        src = "1{\\it 2" + env(a, "3") + "\\textbf{4" + env(b, "5") + "}}" + env(c, "6") + "7"
        out = parse(cx, src)
        cx.check_eq(flat(out), "1234567", "text of environments in groups and styles")
        cx.check_eq([t["name"] for t in out if "name" in t], [a, b, c], "the environments in order")
        return
    cx.check_eq(parse(cx, src), want, "environment tree")


@harness(
    bounds="environment commands \\name ... \\endname for all pairs of 7 kinds nested or beside each other or mixed with begin/end, and \\begingroup, \\bgroup groups",
    covers=["command form", "groups"],
)
def command_form(cx):
    names = ["quote", "theorem", "proof", "center", "figure", "table", "algorithm"]
    if cx.flag("groups"):
        cx.cover("groups")
        o = cx.pick("g1", [("\\begingroup ", "\\endgroup "), ("\\bgroup ", "\\egroup ")])
        i = cx.pick("g2", [("\\begingroup ", "\\endgroup "), ("\\bgroup ", "\\egroup "), ("\\begin{quote}", "\\end{quote}")])
        src = "1" + o[0] + "2" + i[0] + "3" + i[1] + "4" + i[0] + "5" + i[1] + o[1] + "6"
        g = {"type": "group", "name": "group"}

        def inner(s):
            if i[0] == "\\begin{quote}":
                return token("quote", [text(s)])
            return dict(g, content=[text(s)])

        want = [text("1"), dict(g, content=[text("2"), inner("3"), text("4"), inner("5")]), text("6")]
    else:
        cx.cover("command form")
        a = cx.pick("a", names)
        b = cx.pick("b", names)
        cx.assume(a != b)
        f = FORMS[cx.pick("form", [0, 2])]
        src = "1\\" + a + " 2" + f % (b, "3", b) + "4\\end" + a + " 5"
        want = [text("1"), token(a, [text("2"), token(b, [text("3")]), text("4")]), text("5")]
    cx.check_eq(parse(cx, src), want, "environment tree")


NAMECH = LETTERS + DIGITS + ".:-_+"


@harness(
    bounds="environment names q<0..2 (thorough 4) symbolic name characters>, two of them nested, the inner one's name longer, shorter or equal; starred or not",
    covers=["equal", "prefix", "star"],
)
def names(cx):
    s = cx.str("s", 0, cx.bound(2, 4), alpha=NAMECH)
    t = cx.pick("t", ["q", "qx", "q1"])
    a = "q" + s
    if a == t:
        cx.cover("equal")
    elif len(s) > 0 and t == "q":
        cx.cover("prefix")
    star = cx.pick("star", ["", "*"])
    if star:
        cx.cover("star")
    src = "1\\begin{" + a + star + "}2\\begin{" + t + "}3\\end{" + t + "}4\\end{" + a + star + "}5"

    def env(n, c):
        return {"type": "environment", "name": n, "content": c}

    cx.check_eq(parse(cx, src), [text("1"), env(a, [text("2"), env(t, [text("3")]), text("4")]), text("5")], "environment tree")


BODY = LETTERS + DIGITS + ".,;:!?()[]=+*/'\" "


@harness(
    bounds="bodies of 1..3 (thorough 5) symbolic characters without role in TeX, brackets included, in every kind of environment",
    covers=["bracket"],
    excludes="bodies that begin with a bracket or have outer blanks",
)
def bodies(cx):
    n = cx.pick("n", NAMES)
    s = cx.str("s", 1, cx.bound(3, 5), alpha=BODY)
    cx.assume(s == s.strip())
    cx.assume(s[0] != "[")
    if "[" in s:
        cx.cover("bracket")
    src = "\\begin{" + n + "}" + s + "\\end{" + n + "}[x]y"
    cx.check_eq(strip(parse(cx, src)), [token(n, [text(s)]), text("[x]y")], "environment and what follows")


ARGS = [
    # environment, source of the arguments, args kept, title kept
    ("theorem", "[<>]", None, True),
    ("lemma", "[<>]", None, True),
    ("proof", "[<>]", None, True),
    ("figure", "[<>]", None, False),
    ("table", "[<>]", None, False),
    ("algorithm", "[<>]", None, False),
    ("minipage", "{<>}", 1, False),
    ("minipage", "[t]{<>}", 1, False),
    ("minipage", "[t][2cm]{<>}", 1, False),
    ("minipage", "[t][2cm][b]{<>}", 1, False),
    ("subfigure", "{<>}", 1, False),
    ("subfigure", "[b]{<>}", 1, False),
    ("wrapfigure", "{r}{<>}", 2, False),
    ("wrapfigure", "[3]{r}{<>}", 2, False),
    ("multicols", "{<>}", 1, False),
    ("spacing", "{<>}", 1, False),
    ("adjustwidth", "{r}{<>}", 2, False),
    ("adjustbox", "{<>}", 1, False),
    ("qq", "[<>]", None, False),
    ("list", "{r}{<>}", 2, False),
]


@harness(
    bounds="every environment with known arguments, one argument of 1..3 (thorough 5) symbolic characters, plain or in nested braces or brackets, followed by content or by a further bracket or brace",
    covers=["args", "title", "nested"],
)
def arguments(cx):
    n, spec, nargs, title = cx.pick("env", ARGS)
    s = cx.str("s", 1, cx.bound(3, 5), alpha=LETTERS + DIGITS + ".,:=\\ ")
    cx.assume("\\" not in s)
    cx.assume(s == s.strip())
    w = s
    form = cx.pick("form", ["plain", "nested"])
    if form == "nested":
        cx.cover("nested")
        w = "(<>)".replace("<>", s)
        w = "{" + s + "}" if spec[0] == "{" else "[" + s + "]"
        w = "u" + w + "v"
    sep = cx.pick("sep", ["", " ", "\n"])
    body = cx.pick("body", ["x y", "x[y]z", "(x) [y]"])
    if n == "list":
        body = "\\item " + body
    src = "1\\begin{" + n + "}" + spec.replace("<>", w) + sep + body + "\\end{" + n + "}2"
    out = parse(cx, src)
    cx.check_eq(len(out), 3, "text, environment, text")
    cx.check_eq([out[0], out[2]], [text("1"), text("2")], "text around the environment")
    env = out[1]
    cx.check_eq(flat(env["content"]), body.replace("\\item ", ""), "content without the arguments")
    if nargs:
        cx.cover("args")
        cx.check_eq(env.get("args"), [w] if nargs == 1 else ["r", w], "arguments")
    else:
        cx.check("args" not in env, "no arguments")
    if title:
        cx.cover("title")
        cx.check_eq(flat(env.get("title")), w.replace("{", "").replace("}", ""), "title")
    else:
        cx.check("title" not in env, "no title")


@harness(
    bounds="an environment of every kind that has no end, or ends of other names, before, inside and after a complete environment of the same or another kind",
    covers=["done"],
)
def unmatched(cx):
    a = cx.pick("a", NAMES)
    b = cx.pick("b", NAMES)
    w = "\\begin{" + b + "}3\\end{" + b + "}"
    shape = cx.pick("shape", [0, 1, 2, 3, 4])
    if shape == 0:
        src = "1\\begin{" + a + "}2 4" + "\n\n5"
        want = "12 4\n\n5"
        names = []
    elif shape == 1:
        src = "1" + w + "2\\begin{" + a + "}4"
        want = "1324"
        names = [b]
    elif shape == 2:
        cx.assume(a != b)
        src = "1\\begin{" + a + "}2" + w + "4"
        want = "1234"
        names = [b]
    elif shape == 3:
        cx.assume(a != b)
        src = "1\\begin{" + b + "}2\\begin{" + a + "}3\\end{" + b + "}4"
        want = "1234"
        names = [b]
    else:
        cx.assume(a != b)
        src = "1\\end{" + a + "}2" + w + "4"
        want = None
        names = [b]
    cx.cover("done")
    out = parse(cx, src)
    full = [t["name"] for t in out if t.get("content") and "name" in t]
    cx.check_eq(full, names, "the complete environments")
    if want is None:
        got = [t["content"] for t in out if t["type"] == "text"]
        cx.check_eq(got, ["1", "2", "4"], "text around a stray end")
    else:
        cx.check_eq(flat(out), want, "text of an environment without end")


@harness(
    bounds="environments that take no options (quote, quotation, verse, center, flushleft, flushright, small, document, groups) whose text starts with a bracket around 0..2 (thorough 3) symbolic characters, starred or not, plain and preprocessed",
    covers=["plain", "preprocessed"],
)
def brackets(cx):
    n = cx.pick("env", ["quote", "quotation", "verse", "center", "flushleft", "flushright", "small", "document", "group", "bgroup"])
    begin, end = {"group": ("\\begingroup", "\\endgroup"), "bgroup": ("\\bgroup", "\\egroup")}.get(n, ("\\begin{" + n + "}", "\\end{" + n + "}"))
    s = cx.str("s", 0, cx.bound(2, 3), alpha=LETTERS + DIGITS + ".,:=")
    sep = cx.pick("sep", ["", " ", "\n"])
    body = cx.pick("body", ["[<>] y", "[<>]", "[<>][z] y", "[\\textbf{u}<>] y", "[<>"])
    body = body.replace("<>", s)
    pre = cx.flag("pre")
    cx.cover("preprocessed" if pre else "plain")
    out = parse(cx, "1" + begin + sep + body + end + ("2" if n != "document" else ""), pre)
    cx.check_eq(squeeze(flat(out)), "1" + squeeze(body).replace("\\textbf{u}", "u") + ("2" if n != "document" else ""), "text with its bracket")
