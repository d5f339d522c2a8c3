"""C27 lists keep their items in order and nested"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build, walk, squeeze

CH = LETTERS + DIGITS + ".,:;()=*/'\"<>!?-+|@&~[]"
LISTS = ["itemize", "enumerate", "description", "itemize*", "list"]


def txt(x):
    """text, with nested lists and equations marked"""
    if isinstance(x, str):
        return squeeze(x)
    if isinstance(x, (list, tuple)):
        return "".join([txt(t) for t in x])
    if isinstance(x, dict):
        if x.get("type") == "list":
            return "<L>"
        return "".join([txt(x.get(k)) for k in ("title", "content") if x.get(k) is not None])
    return ""


def shape(x):
    """lists as (name, [(title, text, [lists inside the item])...]), found in order"""
    out = []
    for t in walk_top(x):
        items = [i for i in t["content"] if i.get("type") == "item"]
        rest = [i for i in t["content"] if i.get("type") != "item"]
        out.append((t["name"], [(txt(i["title"]) if i.get("title") is not None else None, txt(i["content"]), shape(i["content"])) for i in items], txt(rest)))
    return out


def walk_top(x):
    """the outermost lists below"""
    out = []
    if isinstance(x, dict):
        if x.get("type") == "list":
            return [x]
        for k in ("title", "content"):
            out += walk_top(x.get(k))
    elif isinstance(x, (list, tuple)):
        for t in x:
            out += walk_top(t)
    return out


def begin(name):
    return "\\begin{" + name + "}" + ("{a}{b}" if name == "list" else "")


def check(cx, src, want, pre=False):
    toks = parse(cx, src, pre)
    cx.check_eq(shape(toks), want, "lists in the tokens")
    cx.check_eq(shape(build(cx, toks)), want, "lists in the JSON")
    return toks


TITLES = ["", "[%s]", " [%s] ", "[{%s}]", "[{[%s]}]", "[$%s$]", "[\\textbf{%s}]", "[\\ref{%s}]", "[]", "[a\\footnote{%s} b]", "[\\'%s]", "[{a]%s}]", "[{a {b]} c%s}]", "[\\textbf{\\textit{a]}%s}]", "[{\\{]%s}]"]


def title_of(form, s):
    if form in ("", "[]"):
        return None
    return {"[{[%s]}]": "[" + s + "]", "[a\\footnote{%s} b]": "a" + s + "b", "[{a]%s}]": "a]" + s, "[{a {b]} c%s}]": squeeze("a b] c" + s), "[\\textbf{\\textit{a]}%s}]": "a]" + s, "[{\\{]%s}]": "{]" + s}.get(form, s)


@harness(
    bounds="%d list environments with an item of each of %d title forms and another item before or after it; title and contents of symbolic characters, contents beginning with a bracket or blank; with and without preprocessing; tokens and JSON" % (len(LISTS), len(TITLES)),
    covers=["title", "no title"],
)
def titles(cx):
    name = cx.pick("name", LISTS)
    form = cx.pick("title", TITLES)
    al = "".join([c for c in CH if c not in "[]&~|"])
    if "{" in form and "\\" not in form:
        al = al.replace("'", "")
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS if "'" in form else al) if "%s" in form else ""
    a = cx.str("a", 1, 2, alpha=CH.replace("[", "") if form == "" else CH)
    cx.assume("'" not in form or s not in "ij")
    pos = cx.pick("pos", [0, 1])
    cx.cover("title" if "%s" in form else "no title")
    if form == "":
        it = "\\item " + a
    else:
        it = "\\item" + form.replace("%s", s) + cx.pick("blank", ["", " ", "\n"]) + a
    ti = title_of(form, s)
    if "'" in form:
        ti = txt(parse(cx, "\\'" + s))
    want = [(ti, squeeze(a), [])]
    it2, w2 = "\\item x", [(None, "x", [])]
    body = it + " " + it2 if pos == 0 else it2 + it
    check(cx, "w " + begin(name) + body + "\\end{" + name + "} e", [(name.replace("*", ""), want + w2 if pos == 0 else w2 + want, "")], cx.flag("pre"))


# source, its text, the lists inside
CONTENT = [("%s", "%s"), ("$%s$", "%s"), ("\\textbf{%s}", "%s"), ("a\n\n%s", "a%s"), ("\\verb|\\item|%s", "\\item%s"), ("%s\\\\", "%s"), ("a\\\\item%s", None), ("\\begin{center}%s\\end{center}", "%s"), ("{%s} b", "%sb"), ("\\footnote{%s}", "%s"),
           ("\\begin{tabular}{c}%s & b\\end{tabular}", "%sb"), ("\\begin{verbatim}\\item %s\\end{verbatim}", "\\item%s"), ("% \\item u\n%s", "%s"), ("\\label{k}%s", "%s"), ("", ""), (" {\\bf %s} b", "%sb"), ("\\itemsep 2pt %s", "%s"), ("\\bgroup %s\\egroup", "%s"),
           ("\\begin{equation}%s\\end{equation}", "%s"), ("\\itemx{%s}", "{%s}"), ("\\begin{comment}\\item u\\end{comment}%s", "%s"), ("\\[%s\\]", "%s"), ("\\cite{%s} b", "%sb"), ("\\section{%s}", "%s"), ("\\begin{figure}\\caption{%s}\\end{figure}", "%s"),
           ("\\begin{qq}%s\\end{qq}", "%s"), ("\\iftrue %s\\fi", "%s"), ("\\bgroup %s", "%s"), ("\\begin{zz} %s", "%s"), ("\\begin{theorem}[n]%s\\end{theorem}", "n%s"), ("\\begin{lstlisting}\n\\item %s\n\\end{lstlisting}", "\\item%s"), ("\\setcounter{enumi}{3}%s", "%s"), ("\\list{}{}\\item x\\endlist %s", "<L>%s")]


@harness(
    bounds="list of three items holding each of %d contents with a symbolic character (or nothing) in any of the three positions: three items, their text and order kept, one level" % len(CONTENT),
    covers=["done"],
)
def content(cx):
    name = cx.pick("name", cx.bound(["itemize", "enumerate"], LISTS))
    src, want = cx.pick("content", CONTENT)
    pos = cx.pick("pos", [0, 1, 2])
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".:()=<>")
    t = cx.str("t", 1, 1, alpha=LETTERS + DIGITS + ".")
    sep = cx.pick("sep", [" ", "\n"])
    if want is None:
        cx.assume(False if s in LETTERS else True)
        want = "aitem%s"
    cx.cover("done")
    parts = ["x", t, "z"]
    wants = [(None, p, []) for p in parts]
    parts[pos] = src.replace("%s", s)
    nested = shape([]) if "list{" not in src else [("list", [(None, "x", [])], "")]
    wants[pos] = (None, want.replace("%s", s), nested)
    body = "".join([sep + "\\item " + p for p in parts])
    check(cx, "w " + begin(name) + body + sep + "\\end{" + name + "}", [(name.replace("*", ""), wants, "")])


@harness(
    bounds="lists nested to depth 1..3 (thorough: 4), each of three kinds, the inner list before, between or after the text of an item, in the first or last item, directly or inside a group, environment or a note; symbolic text at every level",
    covers=["depth 1", "depth 2", "depth 3"],
)
def nested(cx):
    d = cx.pick("depth", cx.bound([1, 2, 3], [1, 2, 3, 4]))
    cx.cover("depth %d" % min(d, 3))
    wrap = cx.pick("wrap", [("", ""), ("\\begin{center}", "\\end{center}"), ("\\footnote{", "}"), ("\\begin{qq}", "\\end{qq}"), ("\\bgroup ", "\\egroup "), ("\\textit{", "}")])
    src, want = "", []
    for lev in range(d):
        name = cx.pick("name%d" % lev, ["itemize", "enumerate"] if lev else ["itemize", "enumerate", "description"])
        a = cx.str("a%d" % lev, 1, 1, alpha=LETTERS + ".")
        if lev == 0:
            body = "\\item p " + a
            items = [(None, "p" + a, [])]
        else:
            form = cx.pick("form%d" % lev, ["before", "after", "between"])
            where = cx.pick("where%d" % lev, ["first", "last"])
            inner = wrap[0] + src + wrap[1]
            it = "\\item " + {"before": inner + "q " + a, "after": "q " + a + inner, "between": "q " + inner + " " + a}[form]
            tx = {"before": "<L>q" + a, "after": "q" + a + "<L>", "between": "q<L>" + a}[form]
            body = it + "\n\\item[t] r" if where == "first" else "\\item[t] r\n" + it
            items = [(None, tx, want), ("t", "r", [])]
            if where == "last":
                items = items[::-1]
        src = "\\begin{" + name + "}" + body + "\\end{" + name + "}"
        want = [(name, items, "")]
    check(cx, "w " + src + " e", want)


@harness(
    bounds="up to three items at each of up to two lists after each other or one inside the other, with or without text before the first item, options, and blank lines: all counts and orders",
    covers=["done"],
)
def counts(cx):
    n = cx.pick("n", [0, 1, 2, 3])
    m = cx.pick("m", [1, 2, 3])
    inner = cx.flag("inner")
    opt = cx.pick("opt", ["", "[label=(a)]", "\n\\itemsep0pt\n", "\\setlength{\\itemsep}{2pt}"])
    sep = cx.pick("sep", [" ", "\n\n"])
    s = cx.str("s", 1, 1, alpha=CH.replace("[", ""))
    cx.assume(not inner or n > 0)
    cx.cover("done")
    second = "\\begin{enumerate}" + "".join(["\\item " + s + sep for _ in range(m)]) + "\\end{enumerate}"
    w2 = ("enumerate", [(None, squeeze(s), [])] * m, "")
    items = ["\\item i%d " % i for i in range(n)]
    wants = [(None, "i%d" % i, []) for i in range(n)]
    if inner:
        items[-1] += second
        wants[-1] = (None, wants[-1][1] + "<L>", [w2])
        src = "\\begin{itemize}" + opt + sep.join(items) + "\\end{itemize}"
        want = [("itemize", wants, "")]
    else:
        src = "\\begin{itemize}" + opt + sep.join(items) + "\\end{itemize}" + sep + second
        want = ([("itemize", wants, "")] if n else []) + [w2]
    check(cx, src, want, cx.flag("pre"))


PLACES = [("w ", " e"), ("\\footnote{w ", " e}"), ("\\begin{tabular}{c}w & ", "\\end{tabular}"), ("\\begin{theorem}", "\\end{theorem}"), ("\\begin{abstract}", "\\end{abstract}"), ("{\\bf ", "}"), ("\\textit{", "}"), ("\\begin{qq}", "\\end{qq}"), ("\\section{s}", ""), ("\\caption{", "}"),
          ("\\begin{minipage}{2cm}", "\\end{minipage}"), ("\\begin{figure}", "\\end{figure}"), ("\\begin{quote}", "\\end{quote}"), ("\\begin{enumerate}\\item ", "\\item y\\end{enumerate}")]


@harness(
    bounds="a list of two items with symbolic text and a title in each of %d places: the items are the same there, the text around them stays" % len(PLACES),
    covers=["done"],
)
def places(cx):
    o, c = cx.pick("place", PLACES)
    name = cx.pick("name", LISTS)
    s = cx.str("s", 1, 1, alpha="".join([x for x in CH if x not in "&~[|'"]))
    t = cx.str("t", 1, 1, alpha=LETTERS + DIGITS)
    cx.cover("done")
    toks = parse(cx, o + begin(name) + "\\item " + s + "\\item[" + t + "] b\\end{" + name + "}" + c)
    want = [(name.replace("*", ""), [(None, squeeze(s), []), (t, "b", [])], "")]
    got = shape(toks)
    if "item" in o:
        want = [("enumerate", [(None, "<L>", want), (None, "y", [])], "")]
    cx.check_eq(got, want, "the list")
    # the text around is what it is without the list
    probe = parse(cx, o + "\\ref{<L>}" + c)
    cx.check_eq(txt(toks), txt(probe) if "item" not in o else "<L>", "what surrounds the list")
