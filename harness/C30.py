"""C30 title, authors, abstract, keywords and addresses come out complete and in order"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build_tex, flat, walk, of_type, squeeze, spaced

NAME = LETTERS + ".-'"
# what may follow a name within an author, and its text
EXTRAS = [
    (" \\{%s", "{%s"), (" %s\\}", "%s}"), (" {\\{%s}", None), (" \\texttt{\\}%s}", "}%s"),
    ("", ""), ("\\\\%s", " %s"), ("\\thanks{%s}", "%s"), ("\\thanks{u \\and %s}", "u %s"), ("$^%s$", "<^%s>"), ("\\inst{%s}", None), ("\\\\\\texttt{%s@q}", " %s@q"),
    ("\\textbf{%s}", "%s"), ("\\footnotemark[%s]", None), (" {\\em %s}", " %s"), (", %s \\\\[2pt] u", ", %s u"), ("\\thanks{%s}\\thanks{u}", "%su"), ("\\footnote{%s}", "%s"), ("\\\\ \\small %s", " %s"),
    (" \\'{%s}", None), ("\\quad %s", " %s"), (" \\& %s", " & %s"), ("\\orcid{%s}", None), ("{}%s", "%s"), (" \\begin{tabular}{c}%s\\end{tabular}", None),
]
SEPS = ["\\and ", " \\and ", "\n\\and\n", " \\And ", " \\AND\n", "\\\\ \\and ", "\\and{}", " \\and\\and "]


def rows(cx, toks):
    found = of_type(toks, "author")
    cx.check(len(found) == 1, "one author token")
    return found[0]["content"]


@harness(
    bounds="one to three authors with symbolic names (1 character, two for the first; letters . - '), each with one of %d additions (affiliations, thanks, marks, emails; a separator in braces too), separated in %d ways; with and without preprocessing: one row for each author, complete and in order, and the text after them" % (len(EXTRAS), len(SEPS)),
    covers=["one", "two", "three"],
)
def authors(cx):
    n = cx.pick("n", [1, 2, 3])
    pre = cx.flag("pre") if n == 2 else False
    sep = cx.pick("sep", SEPS) if n > 1 else ""
    names = [cx.str("a%d" % i, 1, 2 if i == 0 else 1, alpha=NAME) for i in range(n)]
    src, want = "", []
    which = cx.pick("where", list(range(n)))
    for i in range(n):
        e, shown = cx.pick("extra", EXTRAS) if i == which else ("", "")
        e = e.replace("%s", "8")
        src += (sep if i else "") + names[i] + e
        want.append(None if shown is None else spaced(names[i] + shown.replace("%s", "8")))
    cx.cover(["one", "two", "three"][n - 1])
    opt = cx.pick("opt", ["", "[s]", " [s\\and t] ", "*[{a]}]"]) if n == 1 else ""
    got = parse(cx, "w \\author" + opt + "{" + src + "}z", pre)
    r = rows(cx, got)
    cx.check(len(r) == n, "one row for each author")
    for i in range(n):
        f = spaced(flat(r[i]))
        if want[i] is None:
            cx.check(f[: len(names[i])] == names[i], "author %d begins with the name" % i)
        else:
            cx.check_eq(f.replace(" ", ""), want[i].replace(" ", ""), "author %d" % i)
    cx.check_eq([t["type"] for t in got], ["text", "author", "text"], "what is around the authors")
    cx.check_eq(got[2]["content"], "z", "the text after the authors")


# command, type of its token
META = [
    ("\\title", "title"), ("\\title[s]", "title"), ("\\title [{s]}] ", "title"), ("\\email", "email"), ("\\affil", "affiliation"), ("\\affiliation", "affiliation"), ("\\affil[1]", "affiliation"), ("\\affil*[1,2] ", "affiliation"),
    ("\\address", "address"), ("\\address[a]", "address"), ("\\keywords", "keywords"), ("\\abstract", "abstract"), ("\\thanks", "footnote"), ("\\author", "author"), ("\\email[a]", "email"), ("\\address\n", "address"), ("\\author[a,b]", "author"),
]
# content around the symbolic text, and what it is
INSIDE = [
    ("%s", "%s"), ("a %s", "a %s"), ("%s, b", "%s, b"), ("\\textbf{%s} b", "%s b"), ("a\\\\%s", "a %s"), ("a \\footnote{%s}", "a %s"), ("$%s$", "<%s>"), ("a\n\n%s", "a %s"), ("{a} %s", "a %s"), ("{\\bf %s}", "%s"), ("\\'e%s", "\u00e9%s"), ("\\qa{%s}", "(%s)"),
    ("a \\& %s", "a & %s"), ("\\{%s", "{%s"), ("%s\\}", "%s}"), ("\\href{u}{%s}", None), ("a%% }\n%s", "a%s"), ("\\%% %s", "%% %s"), ("", ""), ("\\vspace{1pt}%s", "%s"), ("\\texttt{\\{%s\\}}", "{%s}"),
]


@harness(
    bounds="each of %d ways to give title, address, affiliation, email, keywords, abstract, author or thanks, with a symbolic character in each of %d contents and text directly behind: one token of that kind with all the content, and the text after it; with and without preprocessing" % (len(META), len(INSIDE)),
    covers=["done"],
)
def metadata(cx):
    cmd, typ = cx.pick("cmd", META)
    inside, shown = cx.pick("inside", INSIDE)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".,;")
    pre = cx.flag("pre")
    fill = lambda x: x.replace("%%", "!!").replace("%s", s).replace("!!", "%")
    got = parse(cx, "\\newcommand{\\qa}[1]{(#1)}w " + cmd + "{" + fill(inside) + "}z", pre)
    cx.cover("done")
    cx.check_eq([t["type"] for t in got], ["text", typ, "text"], "tokens")
    if shown is None:
        cx.check(len(of_type(got[1]["content"], "url")) == 1, "the link in it")
    else:
        cx.check_eq(squeeze(flat(got[1]["content"])), squeeze(fill(shown)), "its content")
    cx.check_eq(got[2]["content"], "z", "the text after it")


@harness(
    bounds="abstracts and keywords given as environments or commands within or outside of 6 surroundings, symbolic text of 1..2 characters, text after them",
    covers=["done"],
)
def surroundings(cx):
    l, r, typ = cx.pick("form", [
        ("\\begin{abstract}", "\\end{abstract}", "abstract"), ("\\abstract{", "}", "abstract"), ("\\begin{abstract*}", "\\end{abstract*}", "abstract"), ("\\title{", "}", "title"), ("\\author{", "}", "author"), ("\\keywords{", "}", "keywords"),
        ("\\address{", "}", "address"), ("\\begin{abstract}[q]", "\\end{abstract}", "abstract"), ("\\abstract\n{", "}", "abstract"),
    ])
    a, b = cx.pick("in", [("", ""), ("\\begin{document}", "\\end{document}"), ("\\begin{titlepage}", "\\end{titlepage}"), ("\\begin{frontmatter}", "\\end{frontmatter}"), ("{", "}"), ("\\begin{center}", "\\end{center}")])
    s = cx.str("s", 1, 2, alpha=LETTERS + ".")
    got = parse(cx, a + "\\date{q}" + l + s + "\\thanks{u}" + r + "v " + ("\\maketitle z" + b if "document" in b else b + "\\maketitle z"), cx.flag("pre"))
    cx.cover("done")
    found = of_type(got, typ)
    cx.check(len(found) == 1, "one token")
    cx.check_eq(squeeze(flat(found[0]["content"])), s + "u", "its content")
    cx.check_eq(squeeze(flat(got)), s + "uvz", "everything in order, without the date")


@harness(
    bounds="title pages of three commands out of 8, in every order and with repetitions, two symbolic texts: their output tokens in the same order, each with its text (model dump)",
    covers=["done"],
)
def pages(cx):
    kinds = [("\\title{%s}", "title"), ("\\author{%s}", "author"), ("\\author{%s \\and B}", "author"), ("\\affil[1]{%s}", "affiliation"), ("\\email{%s}", "email"), ("\\address{%s}", "address"), ("\\keywords{%s}", "keywords"), ("\\begin{abstract}%s\\end{abstract}", "abstract")]
    t = [cx.str("t0", 1, 1, alpha=LETTERS), "y", cx.str("t2", 1, 1, alpha=LETTERS)]
    src, want = "", []
    for i in range(3):
        c, typ = cx.pick("k%d" % i, kinds)
        src += c.replace("%s", t[i]) + cx.pick("gap", ["", "\n", " "])
        want.append((typ, t[i] + ("B" if "and" in c else "")))
    out = build_tex(cx, src)
    cx.cover("done")
    cx.check_eq([x["type"] for x in out if squeeze(flat(x))], [w[0] for w in want], "tokens in order")
    cx.check_eq([squeeze(flat(x)) for x in out if squeeze(flat(x))], [w[1] for w in want], "texts in order")


@harness(
    bounds="authors separated or named by macros (5 ways) with symbolic names",
    covers=["done"],
)
def by_macros(cx):
    a, b = cx.str("a", 1, 2, alpha=LETTERS), cx.str("b", 1, 1, alpha=LETTERS + ".")
    src = cx.pick("src", [
        "\\newcommand{\\qn}{%a}\\author{\\qn \\and %b}", "\\newcommand{\\qn}{%a \\and %b}\\author{\\qn}", "\\newcommand{\\qn}{\\author{%a \\and %b}}\\qn ", "\\newcommand{\\qn}[2]{\\author{#1 \\and #2}}\\qn{%a}{%b}",
        "\\newcommand{\\qn}[1]{#1}\\author{\\qn{%a} \\and \\qn{%b}}", "\\newcommand{\\qn}{\\and}\\author{%a \\qn\\ %b}", "\\def\\qn#1{\\title{#1}}\\qn{u}\\author{%a \\and %b}",
    ])
    got = parse(cx, src.replace("%a", a).replace("%b", b) + "z", cx.flag("pre"))
    cx.cover("done")
    r = rows(cx, got)
    cx.check_eq([squeeze(flat(x)) for x in r], [a, b], "the authors")
    cx.check(flat(got).endswith("z"), "the text after them")


@harness(
    bounds="names like those of the metadata commands, longer by 1..2 symbolic letters, stay commands of their own",
    covers=["done"],
)
def longer_names(cx):
    base = cx.pick("base", ["author", "title", "email", "affil", "address", "keywords", "abstract", "thanks", "date", "maketitle"])
    x = cx.str("x", 1, 2, alpha="qZ")
    got = parse(cx, "w \\" + base + x + "{a \\and b}z", cx.flag("pre"))
    cx.cover("done")
    cs = of_type(got, "command")
    if base == "maketitle":
        cx.check(len(cs) >= 1, "a command")
    cx.check_eq(cs[0]["command"], "\\" + base + x, "its name")
    cx.check_eq([t["type"] for t in got], ["text", "command", "text"], "tokens")
    cx.check_eq(got[2]["content"], "z", "the text after it")
