"""C24 citations, references and links keep their targets"""
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build, walk, squeeze, flat

KEY = LETTERS + DIGITS + ":.-_/+*'=;!?@&^$#~|\"<>()[]"  # what a key or label can hold (no comma)
ADDR = KEY + "," + "%"

CITES = ["cite", "citep", "citet", "cites", "citealt", "citealp", "citeauthor", "citenum", "citeyear", "citeyearpar", "citefullauthor",
         "Cite", "Citep", "Citet", "Citeauthor"]
REFS = ["ref", "autoref", "eqref", "pageref", "Autoref"]
CREFS = ["cref", "Cref"]

# what stands around the construct: before, after
PLACES = [("", ""), ("w ", ""), ("w", " e"), ("w ", ", e"), ("w~", "."), ("(", ")"), (" {", "} "), ("\\footnote{w ", "}"), ("\\section{w ", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"),
          ("\\begin{tabular}{c}a & ", "\\\\ b & c\\end{tabular}"), ("\\caption{", " e}"), ("\\textit{", "}"), ("\\begin{qq}", "\\end{qq}"), ("\\title{", "}"), ("{\\bf w ", "}"), ("\\begin{abstract}", "\\end{abstract}"),
          ("\\begin{theorem}", "\\end{theorem}"), ("$x$ ", " $y$"), ("\\\\", "\\\\"), ("\\href{u}{", "}"), ("\\begin{quote}", "\n\\end{quote}"), ("w", "[n]"), ("\\iftrue w ", "\\fi"), ("\\begin{itemize}\\item[", "] u\\end{itemize}")]
FEW = [PLACES[i] for i in (2, 5, 7, 10, 12, 22)]


def visible(t):
    """all text but the titles of the tokens looked for"""
    return squeeze(flat(t))


def same(cx, got, want, what):
    cx.check_eq(len(got), len(want), "number of " + what)
    for g, w in zip(got, want):
        cx.check_eq(g.get("content"), w[0], "target of " + what)
        t = g.get("title")
        cx.check_eq(squeeze(flat(t)) if t is not None else "", squeeze(w[1]), "text of " + what)


def run(cx, place, src, typ, want):
    """the tokens of this type, and what surrounds the construct, in tokens and JSON"""
    pre = cx.flag("pre")
    o, c = place
    toks = parse(cx, o + src + c, pre)
    probe = parse(cx, o + "\\foo " + c, pre)  # the surroundings alone
    skip = lambda t: t.get("type") == typ and t.get("content") != "u"
    got = [t for t in walk(toks) if skip(t)]
    same(cx, got, want, typ)
    cx.check_eq(rest(toks, skip), rest(probe, lambda t: t.get("type") == "command"), "what surrounds the " + typ)
    js = build(cx, toks)
    same(cx, [t for t in walk(js) if skip(t)], want, typ + " in the JSON")


def rest(x, skip):
    """text of everything but the skipped tokens"""
    if isinstance(x, str):
        return squeeze(x)
    if isinstance(x, (list, tuple)):
        return "".join([rest(t, skip) for t in x])
    if isinstance(x, dict):
        if skip(x):
            return "<>"
        return "".join([rest(x.get(k), skip) for k in ("title", "content") if x.get(k) is not None])
    return ""


@harness(
    bounds="%d citation commands, starred or not, one to three keys with or without blanks and line ends around them, keys of 1..2 symbolic characters; with and without preprocessing; tokens and JSON; two places" % len(CITES),
    covers=["one", "two", "three"],
)
def keys(cx):
    name = cx.pick("name", CITES) + cx.pick("star", ["", "*"])
    n = cx.pick("n", [1, 2, 3])
    cx.cover(["", "one", "two", "three"][n])
    ks = [cx.str("k%d" % i, 1, 2 if i == 0 else 1, alpha=KEY.replace("$", "").replace("%", "")) for i in range(n)]
    sep = cx.pick("sep", [",", ", ", " ,", ",\n  "])
    run(cx, cx.pick("place", [PLACES[2], PLACES[7]]), "\\" + name + "{" + sep.join(ks) + "}", "citation", [(ks, "")])


NOTE = LETTERS + DIGITS + ".,;:()-*/'!?="


@harness(
    bounds="%d citation commands with one note, two notes, either of them empty, and blanks between the parts; notes of 1..2 symbolic characters, in braces with a bracket, or with math or style inside; %d places" % (len(CITES), len(FEW)),
    covers=["one note", "two notes"],
)
def notes(cx):
    name = cx.pick("name", cx.bound(["cite", "citep", "Citet", "cites", "citeyearpar"], CITES)) + cx.pick("star", ["", "*"])
    k = cx.str("k", 1, 1, alpha=LETTERS)
    a = cx.str("a", 1, 2, alpha=NOTE)
    b = cx.str("b", 1, 1, alpha=NOTE)
    form = cx.pick("form", ["[%s]", "[%s][%s]", "[][%s]", "[%s][]", " [%s]\n ", " [%s] [%s] ", "[{[%s]}]", "[$x$ %s]", "[\\textbf{%s} y]", "[see {%s}][%s]", "[\\S %s]"])
    n = form.count("%s")
    cx.cover("two notes" if n == 2 and "[][" not in form else "one note")
    src = form.replace("%s", a, 1).replace("%s", b, 1)
    want = {"[{[%s]}]": "[" + a + "]", "[$x$ %s]": "<x>" + a, "[\\textbf{%s} y]": a + "y", "[see {%s}][%s]": "see{" + a + "}," + b, "[\\S %s]": "\u00a7" + a}.get(form)
    if want is None:
        want = a + "," + b if n == 2 else a
    pl = cx.pick("place", FEW)
    pre = cx.flag("pre")
    toks = parse(cx, pl[0] + "\\" + name + src + "{" + k + "}" + pl[1], pre)
    for out in (toks, build(cx, toks)):
        got = [t for t in walk(out) if t.get("type") == "citation"]
        cx.check_eq(len(got), 1, "number of citations")
        cx.check_eq(got[0]["content"], [k], "key")
        t = squeeze(flat(got[0].get("title") or ""))
        cx.check(t.replace("{", "").replace("}", "") == want.replace("{", "").replace("}", ""), "notes: %r" % (t,))


@harness(
    bounds="\\cites with one to three citations, each with no note, one or two, symbolic keys, followed by symbolic text, a bracket, a group or another citation",
    covers=["done"],
)
def cites(cx):
    n = cx.pick("n", [1, 2, 3])
    src = "\\" + cx.pick("name", ["cites", "Cites", "cites*"])
    want = []
    titles = []
    for i in range(n):
        k = cx.str("k%d" % i, 1, 1, alpha=LETTERS + DIGITS)
        form = cx.pick("form%d" % i, ["", "[p]", "[p][q]"])
        src += form + "{" + k + "}"
        want.append(k)
        titles.append({"": "", "[p]": "p", "[p][q]": "p, q"}[form])
    t = cx.str("t", 0, 1, alpha=LETTERS + DIGITS + ".,)")
    after = cx.pick("after", ["", "[n]", "\\cite{m}", "\n\n"])
    cx.cover("done")
    toks = parse(cx, "w " + src + t + after)
    got = [x for x in walk(toks) if x.get("type") == "citation"]
    cx.check_eq([x["content"] for x in got], [want] + ([["m"]] if "m" in after else []), "keys")
    cx.check_eq(squeeze(flat(got[0].get("title") or "")), squeeze(", ".join([x for x in titles if x])), "notes")
    cx.check_eq(rest(toks, lambda x: x.get("type") == "citation"), "w<>" + t + ("<>" if "m" in after else squeeze(after)), "surroundings")


@harness(
    bounds="every reference command, starred or not, its name of 1..2 symbolic characters (commas included) with blanks around; \\cref and \\Cref with one to three names; every one of %d places, with and without preprocessing, tokens and JSON" % len(PLACES),
    covers=["one name", "list", "linked text"],
)
def refs(cx):
    name = cx.pick("name", REFS + CREFS + ["hyperref"])
    pl = cx.pick("place", PLACES)
    nobr = "[" in pl[0]  # within an optional argument there is no bare bracket
    al = "".join([c for c in KEY if c not in "$" + ("[]" if nobr else "")])
    a = cx.str("a", 1, 2, alpha=al)
    if name == "hyperref":
        cx.assume(not nobr)
        cx.cover("linked text")
        t = cx.str("t", 1, 1, alpha=NOTE)
        cx.assume("]" not in a)
        cx.assume("[" not in a)
        f = cx.pick("form", ["[%s]{%s}", " [ %s ] { %s }", "[%s]{%s$x$\\textbf{b}}"])
        run(cx, pl, "\\hyperref" + f.replace("%s", a, 1).replace("%s", t, 1), "ref", [([a], t + ("<x>b" if "$" in f else ""))])
    elif name in CREFS:
        cx.cover("list")
        b = cx.str("b", 0, 1, alpha=LETTERS)
        sep = cx.pick("sep", [",", ", "])
        ks = [a] + ([b] if len(b) else []) + cx.pick("more", [[], ["q:x"]])
        run(cx, pl, "\\" + name + cx.pick("star", ["", "*"]) + "{" + sep.join(ks) + "}", "ref", [(ks, "")])
    else:
        cx.cover("one name")
        a = a + cx.pick("comma", ["", ",b"])
        run(cx, pl, "\\" + name + cx.pick("star", ["", "*"]) + "{" + a + "}", "ref", [([a], "")])


LINKS = [("\\url{%s}", "%s", ""), ("\\path{%s}", "%s", ""), ("\\doi{%s}", "https://doi.org/%s", ""), ("\\href{%s}{t}", "%s", "t"), ("\\href[pdf=1]{%s}{t \\emph{u}}", "%s", "tu"),
         ("\\url {%s}", "%s", ""), ("\\href {%s} {$x$}", "%s", "<x>"), ("\\url{http://a.b/%s}", "http://a.b/%s", ""), ("\\href{http://a.b/%s}{\\url{v}}", "http://a.b/%s", "v"), ("\\href{a{%s}b}{t}", "a{%s}b", "t")]


@harness(
    bounds="%d forms of \\url, \\path, \\doi and \\href, the address with 1..2 (thorough: 3) symbolic characters, %% included; in each of %d places, with and without preprocessing, tokens and JSON" % (len(LINKS), len(PLACES)),
    covers=["done"],
)
def links(cx):
    form, want, title = cx.pick("form", LINKS)
    pl = cx.pick("place", PLACES)
    cx.assume("\\href{u}" not in pl[0])
    nobr = "[" in pl[0]
    al = "".join([c for c in ADDR if c not in ("[]" if nobr else "")])
    if "a{" in form:  # a sign in braces is the sign of text
        al = LETTERS + DIGITS
    a = cx.str("a", 1, cx.bound(2, 3), alpha=al)
    cx.assume(not nobr or "[" not in form)
    cx.cover("done")
    o, c = pl
    pre = cx.flag("pre")
    toks = parse(cx, o + form.replace("%s", a) + c, pre)
    probe = parse(cx, o + "\\foo " + c, pre)
    skip = lambda t: t.get("type") == "url"
    cx.check_eq(rest(toks, skip), rest(probe, lambda t: t.get("type") == "command"), "what surrounds the link")
    for out in (toks, build(cx, toks)):
        got = [t for t in walk(out) if skip(t)]
        cx.check(len(got) >= 1, "there is a link")
        cx.check_eq(got[0]["content"], want.replace("%s", a), "address")
        t = got[0].get("title")
        cx.check_eq(squeeze(flat(t)) if t is not None else "", title, "text of the link")


@harness(
    bounds="\\includegraphics (starred, with options, page number) and \\includepdf (with pages), file name of 1..3 symbolic characters, in %d places" % len(FEW),
    covers=["done"],
)
def graphics(cx):
    f = cx.str("f", 1, 3, alpha=LETTERS + DIGITS + "_./-")
    opt, extra = cx.pick("opt", [("", {}), ("[width=3cm]", {}), ("[page=2]", {"page": 2}), ("[a=1,page=12,b=2]", {"page": 12}), (" [scale=.5] ", {}), ("[trim={0 1 2 3},clip]", {})])
    name = cx.pick("name", ["includegraphics", "includegraphics*", "includepdf"])
    if name == "includepdf":
        opt, extra = cx.pick("pages", [("", {}), ("[pages=1-3]", {"pages": "1-3"}), ("[a=1,pages={1,3-4}]", {"pages": "1,3-4"}), ("[pages=-]", {"pages": "-"})])
    o, c = cx.pick("place", FEW + [("\\begin{figure}", "\\end{figure}"), ("\\begin{center}", "\\end{center}")])
    typ = name.replace("*", "")
    cx.cover("done")
    toks = parse(cx, o + "\\" + name + opt + "{" + f + "}" + c, cx.flag("pre"))
    for out in (toks, build(cx, toks)):
        got = [t for t in walk(out) if t.get("type") == typ]
        cx.check_eq(len(got), 1, "number of files")
        cx.check_eq(got[0]["content"], f, "file name")
        cx.check_eq({k: v for k, v in got[0].items() if k in ("page", "pages")}, extra, "pages")


@harness(
    bounds="up to two aliases declared for symbolic keys, used by \\citetalias and \\citepalias for one or two keys, declared or not, also redefined, and in a second document",
    covers=["known", "unknown"],
)
def alias(cx):
    k = cx.str("k", 1, 2, alpha=LETTERS + DIGITS + ":.-_")
    t = cx.str("t", 1, 2, alpha=NOTE)
    u = cx.str("u", 1, 1, alpha=LETTERS)
    src = cx.pick("first", ["", "\\defcitealias{ zz }{Z}", "\\defcitealias{" + k + "}{old}"]) + "\\defcitealias{" + k + "} {" + t + "}"
    name = cx.pick("name", ["citetalias", "citepalias"])
    n = cx.pick("n", [1, 2])
    cx.assume(k != u)
    ks = [k] if n == 1 else [u, k]
    toks = parse(cx, "w" + src + " x \\" + name + "{" + ", ".join(ks) + "} e")
    cx.cover("known" if n == 1 else "unknown")
    for out in (toks, build(cx, toks)):
        got = [x for x in walk(out) if x.get("type") == "citation"]
        cx.check_eq([x["content"] for x in got], [[x] for x in ks], "keys")
        cx.check_eq(squeeze(flat(got[-1].get("title") or "")), squeeze(t), "alias")
        cx.check(n == 1 or got[0].get("title") is None, "no alias for another key")
        cx.check_eq(rest(out, lambda x: x.get("type") == "citation"), "wx" + "<>" * n + "e", "surroundings")


@harness(
    bounds="two constructs of the family directly after each other or with one symbolic character between: each as alone",
    covers=["done"],
)
def pairs(cx):
    many = ["\\cite{a}", "\\citep[p][q]{a, b}", "\\ref{c}", "\\cref{c,d}", "\\eqref{f}", "\\url{a_b}", "\\href{u%v}{t}", "\\hyperref[h]{t}", "\\doi{10.1}", "\\footnote{n}", "\\footnotemark[3]", "\\includegraphics[page=2]{f}", "\\citetalias{k}"]
    a = cx.pick("a", many)
    b = cx.pick("b", many)
    s = cx.str("s", 0, 1, alpha=LETTERS + DIGITS + ".,;:()[]-~&\n")
    cx.cover("done")
    pre = cx.flag("pre")
    toks = parse(cx, "w " + a + s + b + " e", pre)
    want = [t for x in (a, b) for t in parse(cx, x, pre) if t.get("type") != "text"]
    got = [t for t in toks if t.get("type") != "text"]
    cx.check_eq(got, want, "the tokens of each")
    txt = "".join([t["content"] for t in toks if t.get("type") == "text"])
    cx.check_eq(squeeze(txt), "w" + squeeze(s) + "e", "text between")
