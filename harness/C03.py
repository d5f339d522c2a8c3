"""C03 ordinary text is preserved, in order"""
from symtex.api import harness, LATIN1, LETTERS, DIGITS, PLAIN
from hlib.common import parse, build, build_tex, flat, text, squeeze, spaced, of_type

SAFE = [c for c in LATIN1 if c not in "\\{}%$~^#&_`'\"-<>" and c.isprintable() and c != " "]


@harness(bounds="every word of 1..4 (thorough 5) characters that TeX gives no special meaning", covers=["one"])
def plain(cx):
    t = cx.str("t", 1, cx.bound(4, 5), alpha=PLAIN)
    got = parse(cx, t)
    cx.cover("one")
    cx.check_eq(got, [text(t)], "one text token with exactly the source text")
    cx.check_eq(build(cx, got), [text(t)], "built output")


@harness(bounds="every word of 1..3 (thorough 4) printable latin-1 characters without TeX meaning", covers=["acc"])
def latin(cx):
    t = cx.str("t", 1, cx.bound(3, 4), alpha=SAFE)
    got = parse(cx, t)
    if t[0] == "\u00e9":
        cx.cover("acc")
    cx.check_eq(got, [text(t)], "one text token with exactly the source text")


@harness(
    bounds="escaped special characters & % # _ { } $ between words of <=2 characters, with and without spaces",
    covers=["done"],
)
def escaped(cx):
    a = cx.str("a", 0, 2, alpha=PLAIN)
    b = cx.str("b", 0, 2, alpha="ab09.,;")
    e = cx.pick("e", ["&", "%", "#", "_", "{", "}", "$"])
    f = cx.pick("f", ["&", "%", "#", "_", "{", "}", "$"])
    sp = cx.pick("sp", ["", " "])
    got = parse(cx, "x" + a + "\\" + e + sp + b + "\\" + f + "y")
    cx.cover("done")
    cx.check_eq(got, [text("x" + a + e + sp + b + f + "y")], "the escaped character itself")


@harness(
    bounds="three words of <=2 characters separated by up to 2 symbolic whitespace characters, with and without preprocessing",
    covers=["plain", "pre", "para"],
)
def spacing(cx):
    a = cx.str("a", 1, 2, alpha="abz059.,")
    b = cx.str("b", 1, 2, alpha="abz059.,")
    w = cx.str("w", 1, 2, alpha=" \n\t")
    v = cx.str("v", 1, cx.bound(1, 2), alpha=" \n\t")
    pre = cx.flag("pre")
    src = a + w + b + v + "q"
    got = parse(cx, src, pre)
    if pre:
        cx.cover("pre")
        out = flat(got)
        cx.check_eq(out.split(), [a, b, "q"], "the same words in the same order")
        if w == "\n\n":
            cx.cover("para")
            cx.check("\n" in out, "a blank line still separates paragraphs")
    else:
        cx.cover("plain")
        out = flat(got)
        cx.check_eq(out.split(), [a, b, "q"], "the same words in the same order")
        cx.check(("\n\n" in src) <= ("\n\n" in out), "a blank line stays a blank line")


@harness(
    bounds="every string of <=5 (thorough 6) characters over { } a b space",
    covers=["balanced", "unbalanced"],
)
def groups(cx):
    t = cx.str("t", 0, cx.bound(5, 6), alpha="{}ab ")
    depth = 0
    ok = True
    for c in t:
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth < 0:
                ok = False
    ok = ok and depth == 0
    out = flat(parse(cx, t))
    letters = "".join([c for c in t if c == "a" or c == "b"])
    cx.check_eq("".join([c for c in out if c == "a" or c == "b"]), letters, "letters in order")
    if ok:
        cx.cover("balanced")
    else:
        cx.cover("unbalanced")


@harness(
    bounds="words of 1..2 symbolic characters before, inside and after a group in 1..2 braces, the group set off by up to 2 symbolic blanks, plain and preprocessed",
    covers=["one", "two"],
)
def group_words(cx):
    a = cx.str("a", 1, 2, alpha="abz09.")
    b = cx.str("b", 1, 2, alpha="abz09.")
    c = cx.str("c", 0, 1, alpha="abz09.")
    w = cx.str("w", 1, cx.bound(1, 2), alpha=" \n\t")
    v = cx.str("v", 1, cx.bound(1, 2), alpha=" \n\t")
    k = cx.pick("k", [1, 2])
    cx.cover("one" if k == 1 else "two")
    out = flat(parse(cx, a + w + "{" * k + b + " q" + "}" * k + v + c, cx.flag("pre")))
    cx.check_eq(out.split(), (a + " " + b + " q " + c).split(), "the same words")


@harness(
    bounds="words of 1..2 symbolic characters around and inside each of 14 constructs, with and without preprocessing",
    covers=["done"],
)
def around(cx):
    a = cx.str("a", 1, 2, alpha="abz09.")
    m = cx.str("m", 1, 1, alpha="abz09.")
    b = cx.str("b", 1, 2, alpha="abz09.")
    pre = cx.flag("pre")
    l, r, shown = cx.pick("form", [
        ("$", "$", "<%s>"), ("\\(", "\\)", "<%s>"), ("\\[", "\\]", "<%s>"), ("$$", "$$", "<%s>"),
        ("\\textbf{", "}", "%s"), ("\\emph{", "}", "%s"), ("{", "}", "%s"), ("{\\bf ", "}", "%s"),
        ("\\footnote{", "}", "%s"), ("\\label{", "}", ""), ("\\begin{quote}", "\\end{quote}", "%s"),
        ("\\begin{equation}", "\\end{equation}", "<%s>"), ("%", "\n", ""), ("\\mbox{", "}", "%s"),
    ])
    got = squeeze(flat(parse(cx, a + " " + l + m + r + " " + b, pre)))
    cx.cover("done")
    want = a + (shown.replace("%s", m) if shown else "") + b
    cx.check_eq(got, want, "text before, inside and after the construct, in source order")


@harness(
    bounds="title-less document with preamble; body of two words of <=2 characters and a blank-line or \\par break",
    covers=["done"],
)
def document(cx):
    a = cx.str("a", 1, 2, alpha=LETTERS)
    b = cx.str("b", 1, 2, alpha=LETTERS)
    brk = cx.pick("brk", ["\n\n", "\\par ", "\n\\par\n", "\\\\ ", " \\newline "])
    pre = cx.flag("pre")
    src = (
        "\\documentclass[12pt]{article}\n\\usepackage{amsmath}\n\\begin{document}\n" + a + brk + b + "\n\\end{document}\n"
    )
    got = parse(cx, src, pre)
    docs = of_type(got, "document")
    cx.cover("done")
    cx.check(len(docs) == 1, "one document token")
    cx.check_eq(flat(docs[0]["content"]).split(), [a, b], "document text")


@harness(bounds="two paragraphs with a section between: words of <=2 characters", covers=["done"])
def sections_keep_text(cx):
    a = cx.str("a", 1, 2, alpha="abz09")
    b = cx.str("b", 1, 2, alpha="abz09")
    t = cx.str("t", 1, 2, alpha="abz09")
    out = build_tex(cx, a + "\n\\section{" + t + "}\n" + b)
    cx.cover("done")
    cx.check_eq(flat(out[0]).strip(), a, "text before")
    cx.check_eq(flat(out[1]["title"]), t, "title")
    cx.check_eq(flat(out[1]["content"]).strip(), b, "text after")


INSIDE = ["$x$", "\\textbf{x}", "\\ref{x}", "\\'e", "\\&", "\\alpha ", "{x}", "\\cite{x}", "\\url{x}", "x"]


@harness(
    bounds="escaped braces around or next to 10 things with symbolic characters on both sides: the braces stay as characters, what is between is parsed as it is elsewhere",
    covers=["done"],
)
def escaped_braces(cx):
    i = cx.pick("i", INSIDE)
    a = cx.str("a", 0, 1, alpha="abz09.")
    b = cx.str("b", 0, 1, alpha="abz09.")
    l, r = cx.pick("e", [("\\{", "\\}"), ("\\{", ""), ("", "\\}"), ("\\}", "\\{"), ("\\{\\{", "\\}\\}")])
    pre = cx.flag("pre")
    cx.cover("done")
    got = parse(cx, "w" + a + l + i + r + b + "z", pre)
    alone = parse(cx, "w(" + i + ")z", pre)
    out = ""
    for t in got:
        if t["type"] == "text":
            out += t["content"]
        else:
            out += "<" + t["type"] + ">"
    want = ""
    for t in alone:
        if t["type"] == "text":
            want += t["content"]
        else:
            want += "<" + t["type"] + ">"
    inner = want[2:-2]
    if i == "{x}":
        out = "".join([c for c in out if c not in "{}"])
        cx.check_eq(out, "w" + a + "x" + b + "z", "text around and inside")
    else:
        cx.check_eq(out, "w" + a + l.replace("\\", "") + inner + r.replace("\\", "") + b + "z", "braces as characters")


@harness(
    bounds="words of 1..2 symbolic characters set off or not set off (independently, by one of 4 blanks) from each of 21 constructs whose result is text: where the source has a blank the text has one, and elsewhere none; with and without preprocessing",
    covers=["apart", "together"],
)
def boundaries(cx):
    a = cx.str("a", 1, 2, alpha="abz09.")
    m = cx.str("m", 1, 1, alpha="abz09.")
    b = cx.str("b", 1, 2, alpha="abz09.")
    pre = cx.flag("pre")
    l, r, shown = cx.pick("form", [
        ("\\mbox{", "}", "%s"), ("\\makebox[1cm]{", "}", "%s"), ("\\hbox{", "}", "%s"), ("\\fbox{", "}", "%s"), ("\\raisebox{1pt}{", "}", "%s"),
        ("\\'e", "", "\u00e9%s"), ("\\'{e}", "", "\u00e9%s"), ("", "\\v{s}", "%s\u0161"), ("\\ss{}", "", "\u00df%s"), ("", "\\o{}", "%s\u00f8"), ("", "\\&", "%s&"), ("\\%", "", "%%s"), ("\\#", "\\_", "#%s_"),
        ("\\qa{}", "", "m n%s"), ("\\qb{", "}", "(%s)"), ("\\qc{", "}", " %s "), ("\\ifx aa", "\\else z\\fi{}", "%s"), ("\\iffalse z\\else ", "\\fi{}", "%s"), ("\\dots{}", "", "...%s"), ("\\textregistered{}", "", "\u00ae%s"),
        ("\\label{k}", "", "%s"),
    ])
    w = cx.pick("w", ["", " ", "\n", "\t ", "%\n "]) 
    v = cx.pick("v", ["", " ", "\n", "\t "])
    cx.cover("apart" if w and v else "together")
    defs = "\\newcommand{\\qa}{m n}\\newcommand{\\qb}[1]{(#1)}\\newcommand{\\qc}[1]{ #1 }"
    got = spaced(flat(parse(cx, defs + a + w + l + m + r + v + b, pre)))
    cx.check_eq(got, spaced(a + (" " if w else "") + shown.replace("%s", m) + (" " if v else "") + b), "words")
