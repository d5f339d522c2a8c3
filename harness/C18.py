"""C18 bibliography entries come out once, in order, with their key and values"""
from symtex.api import harness, LETTERS, LOWER, DIGITS
from hlib.common import parse, build, flat, of_type, text
from latex2json.parser.bib.bib_parser import BibParser


def entries(cx, src):
    return BibParser(logger=cx.logger).parse(src)


def summary(es):
    return [(e.citation_key, e.entry_type, e.fields) for e in es]


def balanced(s):
    d = 0
    for c in s:
        if c == "{":
            d += 1
        elif c == "}":
            d -= 1
            if d < 0:
                return False
    return d == 0


VAL = "ab0,=\"{}#@%'~$&;"
PIECES = ["", "\\\"o", "{\\'e}", "\\& ", "{{", "http://x.y/a%20b?c=d", "{\\\"{o}}", "$x_{1}^{2}$", "\\emph{a, b}", "\\%", "a = b", "@misc{q, r}", "{A}b", "A {Z"]


@harness(
    bounds="a field value in braces: 0..3 symbolic characters of 16 (all delimiters among them) with balanced braces, between 14 pieces, blanks collapsed; with a field before and after and another entry after it",
    covers=["done"],
)
def braced(cx):
    v = cx.str("v", 0, cx.bound(2, 3), alpha=VAL)
    p = cx.pick("p", [p for p in PIECES if p not in ("{{", "A {Z")])
    cx.assume(balanced(v))
    cx.cover("done")
    v = "w" + v + p + "z"
    got = entries(cx, "@article{k1,\n title = {A, B},\n note={" + v + "},\n year={2020}\n}\n@book{k2, title={T}}")
    want = [("k1", "article", {"title": "A, B", "note": v, "year": "2020"}), ("k2", "book", {"title": "T"})]
    cx.check_eq(summary(got), want, "value exactly as written")


@harness(
    bounds="a field value in quotes: 0..3 symbolic characters of 16 with balanced braces and quotes only within braces, between 14 pieces; fields and another entry around it",
    covers=["done"],
)
def quoted(cx):
    v = cx.str("v", 0, cx.bound(2, 3), alpha=VAL)
    p = cx.pick("p", [p for p in PIECES if p not in ("{{", "A {Z", "\\\"o")])
    cx.assume(balanced(v))
    d = 0
    for c in v:
        if c == "{":
            d += 1
        elif c == "}":
            d -= 1
        elif c == '"':
            cx.assume(d > 0)
    cx.cover("done")
    v = "w" + v + p + "z"
    got = entries(cx, '@article{k1,\n title = "A, B",\n note="' + v + '",\n year="2020"\n}\n@book{k2, title="T"}')
    want = [("k1", "article", {"title": "A, B", "note": v, "year": "2020"}), ("k2", "book", {"title": "T"})]
    cx.check_eq(summary(got), want, "value exactly as written")


@harness(
    bounds="unquoted values (1..3 symbolic letters and digits), abbreviations declared by @string in either form and case, and up to three values joined by #",
    covers=["plain", "macro", "joined"],
)
def bare(cx):
    v = cx.str("v", 1, 3, alpha="abjan0129-")
    sep = cx.pick("sep", ["", " ", "\n "])
    kind = cx.pick("kind", ["plain", "macro", "joined"])
    cx.cover(kind)
    if kind == "plain":
        src, val = v, v
        head = ""
    elif kind == "macro":
        head = cx.pick("s", ["@string{aa = {Long, Name}}\n", '@STRING{AA="Long, Name"}\n', "@string{ b={x}, aa = {Long, Name} }"])
        src, val = cx.pick("u", ["aa", "AA", "Aa"]), "Long, Name"
    else:
        head = "@string{aa = {Long}}\n"
        src, val = "{x" + v + "} # aa # \"y\"", "x" + v + "Longy"
    got = entries(cx, head + "@article{k1, year =" + sep + src + sep + ", note={n}, month" + sep + "=" + src + "}\n@misc{k2,year=7\n}")
    cx.check_eq(summary(got), [("k1", "article", {"year": val, "note": "n", "month": val}), ("k2", "misc", {"year": "7"})], "value without delimiters")


@harness(
    bounds="citation keys of 1..3 symbolic characters over letters, digits and :-_./+'*&!<>, field names of 1..2 symbolic letters, digits and hyphens, blank and newline layouts, any case of the type",
    covers=["done"],
)
def keys(cx):
    k = cx.str("k", 1, cx.bound(2, 3), alpha="aZ9:-_./+'*&!<>")
    f = cx.str("f", 1, 2, alpha="abz-_0")
    t = cx.pick("t", ["article", "InProceedings", "MISC", "phdthesis", "online2"])
    b, e, n = cx.pick("lay", [("", "", ""), (" ", " ", "\n"), ("\n", "\n  ", " \n"), ("", "\t", "\n\n")])
    trail = cx.flag("trail")
    cx.cover("done")
    src = "@" + t + b + "{" + b + k + b + "," + n + f + e + "=" + e + "{V}" + ("," if trail else "") + n + "}"
    got = entries(cx, src + n + "@a{x,q={r}}")
    cx.check_eq(summary(got), [(k, t.lower(), {f: "V"}), ("x", "a", {"q": "r"})], "key, type and field name")


ITEMS = [
    ("@article{k%,title={t%}}", ["k%"]), ("@article{k%,\n title={t%},\n}", ["k%"]), ("@comment{k%, title={t}}", []), ("@preamble{\"\\newcommand{\\x}{y}, a\"}", []), ("@string{s% = \"v, w\"}", []),
    ("%@article{c%, title={t}}", []), ("free text, a = {b} ", []), ("@article{k%, title={a @book{n%, x={y}}}}", ["k%"]), ("mail a@b.c or \\@ifx{a,b} ", []), ("@misc{k%, note=\"t%\"", "open"), ("@misc{k%, title={x}, note={t%\n", "open"), ("@book{k%, title={x", "open"),
]


@harness(
    bounds="sequences of 3 (thorough 4) of 12 kinds of BibTeX source parts: entries, comments, abbreviations, free text, entries within values, and entries that lack their end; symbolic character in every key",
    covers=["open", "closed"],
)
def sequences(cx):
    n = cx.bound(3, 4)
    want = []
    src = ""
    opened = False
    c = cx.str("c", 1, 1, alpha="xyz7")
    for i in range(n):
        s, ks = cx.pick("i" + str(i), ITEMS if i < 2 or cx.tier != "quick" else ITEMS[:4])
        tag = "pqrs"[i] + c
        src += s.replace("%", tag) if not s.startswith("%") else s[:3] + s[3:].replace("%", tag)
        src += "\n"
        if ks == "open":
            opened = True
        else:
            want += [k.replace("%", tag) for k in ks]
    cx.cover("open" if opened else "closed")
    cx.check_eq([e.citation_key for e in entries(cx, src)], want, "exactly the complete entries, in order")


LABELS = [("", None), ("[1]", "1"), ("[Foo et al.]", "Foo et al."), ("[{A}(2020)]", "{A}(2020)"), ("[{\\citenamefont {A}\\ \\emph {et~al.}(2020)}]", "{\\citenamefont {A}\\ \\emph {et~al.}(2020)}"), (" [\\protect\\citeauthoryear{A}{B}{2020}]", "\\protect\\citeauthoryear{A}{B}{2020}")]
HEADS = [
    "", "\\begin{thebibliography}{99}\n", "\\begin{thebibliography}{}\n\\providecommand{\\url}[1]{\\texttt{#1}}\n",
    "%apsrev4-1.bst\n\\begin{thebibliography}{9}%\n\\makeatletter\n\\providecommand \\@ifxundefined [1]{%\n \\@ifx{#1\\undefined}\n}%\n\\providecommand \\@ifnum [1]{%\n \\ifnum #1\\expandafter \\@firstoftwo\n\\fi\n}%\n",
]


@harness(
    bounds="two bibitems: keys of 1..3 and texts of 1..2 symbolic characters, 6 forms of labels, 4 kinds of bibliography heads (REVTeX's among them), blocks and commands in the text, layouts",
    covers=["done"],
)
def bibitems(cx):
    k = cx.str("k", 1, cx.bound(2, 3), alpha="aZ9:-_./+, ")
    cx.assume(k[0] != " " and k[-1] != " ")
    t = cx.str("t", 1, 2, alpha="az09.,([{}])@=\"")
    cx.assume(balanced(t))
    l, label = cx.pick("l", LABELS)
    h = cx.pick("h", HEADS)
    n = cx.pick("n", ["\n", " ", "%\n"])
    cx.cover("done")
    src = h + "\\bibitem" + l + "{" + k + "}" + n + "w" + t + "x.\n\\newblock \\emph{T} 5\\%.\n\n\\bibitem{k2}U, V.\n" + ("\\end{thebibliography}" if h else "")
    got = entries(cx, src)
    cx.check_eq([(e.citation_key, e.label) for e in got], [(k, label), ("k2", None)], "keys and labels")
    cx.check_eq([e.content.split() for e in got], [["w" + t + "x.", "\\emph{T}", "5\\%."], ["U,", "V."]], "texts")


AUTHORS = ["A. Foo", "\\'E. Noether", "{\\sc G\\\"odel}", "J.~\\k{A}b", "R. \\1st", "A and B\\g<1>"]


@harness(bounds="bysame after an entry of 6 author forms, with a symbolic character, in one to three entries", covers=["done"])
def bysame(cx):
    a = cx.pick("a", AUTHORS)
    c = cx.str("c", 1, 1, alpha="abz09.")
    n = cx.pick("n", [1, 2])
    cx.cover("done")
    src = "\\bibitem{k1} " + a + c + ", T1.\n" + "".join(["\\bibitem{k" + str(i + 2) + "} \\bysame, T" + str(i + 2) + ".\n" for i in range(n)])
    got = entries(cx, src)
    cx.check_eq([e.content for e in got], [a + c + ", T" + str(i + 1) + "." for i in range(n + 1)], "the author of the entry before")


@harness(
    bounds="two bibliographies of 1..2 items each in one source, symbolic keys",
    covers=["done"],
)
def several(cx):
    k = cx.str("k", 1, 2, alpha="abz9:")
    ns = [cx.pick("n0", [1, 2]), cx.pick("n1", [1, 2])]
    cx.cover("done")
    src = ""
    want = []
    for b in (0, 1):
        src += "\\begin{thebibliography}{9}\n"
        for i in range(ns[b]):
            src += "\\bibitem{" + k + "pq"[b] + str(i) + "} T" + str(i) + "\n"
            want.append(k + "pq"[b] + str(i))
        src += "\\end{thebibliography}\n"
    cx.check_eq([e.citation_key for e in entries(cx, src)], want, "the items of both")


def person(cx, name, i):
    fam = "F" + "pq"[i] + name
    kind = cx.pick("kind" + str(i), ["full", "family", "prefix", "accent"])
    head = cx.pick("head", ["{{hash=AB%d}{%%\n", "{{un=0,uniquepart=base,hash=a1b%d}{%%\n"]) % i
    src = head + "family={" + fam + "},\nfamilyi={F\\bibinitperiod},\n"
    if kind == "full":
        return src + "given={Luca},\ngiveni={L\\bibinitperiod},\n}}%\n", fam + ", L."
    if kind == "family":
        return src + "}}%\n", fam
    if kind == "prefix":
        return src + "given={Luca},\nprefix={van der},\n}}%\n", "van der " + fam + ", L."
    return src + "given={{\\'E}mile},\n}}%\n", fam + ", {\\'E}mile"


@harness(
    bounds="compiled BibTeX: two entries, the first with or without its end, 1..2 authors of 4 kinds in old and new syntax, keys, names and field values with symbolic characters, a field called type",
    covers=["ended", "open"],
)
def compiled(cx):
    k = cx.str("k", 1, 2, alpha="aZ9:-_.")
    v = cx.str("v", 1, 2, alpha="az09,=\"{}@")
    cx.assume(balanced(v))
    a = cx.str("a", 1, 1, alpha="az-'")
    people = [person(cx, a, i) for i in range(cx.pick("n", [1, 2]))]
    ended = cx.flag("ended")
    cx.cover("ended" if ended else "open")
    body = "\\name{author}{1}{}{%\n" + "".join([p[0] for p in people]) + "}\n"
    src = "\\datalist[entry]{none/global}\n\\entry{k0}{book}{}\n\\field{title}{T0}\n" + ("\\endentry\n" if ended else "")
    src += "\\entry{" + k + "}{misc}{}\n" + body + "\\strng{namehash}{X}\n\\field{labeltitlesource}{title}\n\\field{title}{w" + v + "z}\n\\field{journaltitle}{J}\n\\field{type}{phdthesis or so}\n\\verb{eprint}\n\\verb 15.06\n\\endverb\n\\field{year}{2015}\n\\endentry\n\\enddatalist\n"
    got = summary(entries(cx, src))
    if ended:
        cx.check_eq(got[0], ("k0", "book", {"title": "T0"}), "first entry")
        got = got[1:]
    cx.check_eq(got, [(k, "misc", {"author": " and ".join([p[1] for p in people]), "title": "w" + v + "z", "journal": "J", "type": "phdthesis or so", "year": "2015", "eprint": "15.06"})], "entry with all its fields")


AMS = [("{<>}", "<>"), ("{{<>}}", "<>"), ("{a {<>} b}", "a <> b"), ("{\\emph{<>}}", "\\emph{<>}"), ("{$L^{<>}$ s}", "$L^{<>}$ s"), ("{K{<>}b}", "K{<>}b"), ("{\\'{<>}}", "\\'{<>}"), ("{{a} {<>}}", "a <>"), ("{{a {<>} c}}", "a <> c"), ("<>", "<>")]


@harness(
    bounds="amsrefs: two entries, keys of 1..2 and values of 1..2 symbolic characters in 10 brace forms, repeated fields, layouts",
    covers=["once", "twice"],
)
def amsrefs(cx):
    k = cx.str("k", 1, 2, alpha="aZ9:-_. ")
    cx.assume(k[0] != " " and k[-1] != " ")
    v = cx.str("v", 1, 2, alpha="az09=\"'")
    f, w = cx.pick("f", AMS)
    f = f.replace("<>", v)
    w = w.replace("<>", v)
    star = cx.pick("star", ["", "*"])
    sp = cx.pick("sp", ["", " ", "\n"])
    twice = cx.flag("twice")
    cx.cover("twice" if twice else "once")
    src = "\\begin{bibdiv}\n\\begin{biblist}\n\\bib" + star + "{" + k + "}{article}" + sp + "{\n  author={A},\n note=" + f + ",\n" + (" note={B, C},\n" if twice else "") + " year=2020,\n}\n\\bib{k2}{book}{title={T}}\n\\end{biblist}\n\\end{bibdiv}\n"
    fields = {"author": "A", "note": w + (" and B, C" if twice else ""), "year": "2020"}
    cx.check_eq(summary(entries(cx, src)), [(k, "article", fields), ("k2", "book", {"title": "T"})], "entries with their fields")


@harness(
    bounds="a bibliography in a document, plain and preprocessed, up to the JSON output: keys and texts with symbolic characters, labels, formulas and styles in the text, cited before",
    covers=["done"],
)
def embedded(cx):
    k = cx.str("k", 1, 2, alpha="aZ9:-")
    t = cx.str("t", 1, 1, alpha="az09.,(")
    l = cx.pick("l", ["", "[Foo(2020)]"])
    x, inner = cx.pick("x", [("\\emph{T}", "T"), ("$x$", "<x>"), ("{\\bf T}", "T"), ("\\url{u%20v}", "u%20v"), ("5\\%", "5%"), ("\\newblock T", "T"), ("\\'e", "\u00e9")])
    pre = cx.flag("pre")
    cx.cover("done")
    src = "A \\cite{" + k + "}.\n\\begin{thebibliography}{9}\n\\bibitem" + l + "{" + k + "} w" + t + " " + x + " z.\n\\bibitem{k2} U.\n\\end{thebibliography}\nend"
    toks = parse(cx, src, pre)
    out = build(cx, toks)
    bib = of_type(out, "bibliography")
    cx.check(len(bib) == 1, "one bibliography")
    items = of_type(bib, "bibitem")
    cx.check_eq([(i["cite_key"], i.get("label")) for i in items], [(k, "Foo(2020)" if l else None), ("k2", None)], "keys and labels in order")
    cx.check_eq(["".join(flat(i["content"]).split()) for i in items], ["w" + t + inner + "z.", "U."], "texts")
    cx.check_eq([i["format"] for i in items], ["bibitem", "bibitem"], "format")


# values with parentheses, and what they are
ROUND = [("{%s}", "%s"), ('"%s"', "%s"), ("{a (%s) b}", "a (%s) b"), ("{a) %s}", "a) %s"), ('"(%s"', "(%s"), ("{\\emph{(%s}}", "\\emph{(%s}"), ("%s", "%s"), ("{@book(x, y = z)%s}", "@book(x, y = z)%s"), ('%s # {)}', "%s)")]


@harness(
    bounds="an entry or abbreviation in parentheses with each of %d values with parentheses and a symbolic character, after and before an entry in braces or another one in parentheses; entries without fields" % len(ROUND),
    covers=["entry", "abbreviation", "no fields"],
)
def parentheses(cx):
    src, want = cx.pick("value", ROUND)
    v = cx.str("v", 1, 1, alpha=LETTERS + DIGITS)
    k = cx.str("k", 1, 2, alpha=LETTERS + DIGITS + ":-_.")
    src, want = src.replace("%s", v), want.replace("%s", v)
    sep = cx.pick("sep", ["", " ", "\n\n"])
    kind = cx.pick("kind", ["entry", "abbreviation", "no fields"])
    cx.cover(kind)
    first = cx.pick("first", ["@book{b1, title={T}}", "@book (b1,\n title = {T})", "@BOOK(b1, title=\"T\",)"])
    out = [("b1", "book", {"title": "T"})]
    o, c = cx.pick("braces", [("{", "}"), ("(", ")"), (" (\n ", "\n)")])
    if kind == "entry":
        x = "@article" + o + k + ", note = " + src + ", year=2020" + c
        add = [(k, "article", {"note": want, "year": "2020"})]
    elif kind == "no fields":
        x = "@misc{" + k + cx.pick("comma", ["", ",", " "]) + "}"
        add = [(k, "misc", {})]
    else:
        x = "@String" + o + "qq = " + src + c + sep + "@misc{z, note = qq}"
        add = [("z", "misc", {"note": want})]
    cx.check_eq(summary(entries(cx, first + "\n" + x + "\n" + first.replace("b1", "b2"))), out + add + [("b2", "book", {"title": "T"})], "entries")
