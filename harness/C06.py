"""C06 parsing terminates without an exception"""
from symtex.api import harness
from hlib.common import parse
from hlib import forms

TAIL = "{}[]\\$a"


def go(cx, src, pre):
    got = parse(cx, src, pre)
    cx.check(isinstance(got, list), "a list of tokens")
    for t in got:
        cx.check(isinstance(t, dict) and isinstance(t.get("type"), str), "every token has a type")


def cut(cx, family, qt, tt):
    f = cx.pick("form", family)
    n = cx.pick("cut", list(range(64)))
    cx.assume(n <= len(f))
    tail = cx.str("tail", 0, cx.bound(qt, tt), alpha=TAIL)
    cx.cover("whole" if n == len(f) else "cut")
    go(cx, f[:n] + tail, False)


def mk(name, family):
    def fn(cx):
        cut(cx, family, 1, 2)
    fn.__name__ = name
    return harness(
        bounds="%d constructs, each cut off after every character, then <=1 (thorough 2) symbolic characters over { } [ ] \\ $ a" % len(family),
        covers=["whole", "cut"],
    )(fn)


cut_content = mk("cut_content", forms.CONTENT)
cut_author = mk("cut_author", forms.AUTHOR)
cut_format = mk("cut_format", forms.FORMAT)
cut_style = mk("cut_style", forms.STYLE)
cut_defs = mk("cut_defs", forms.DEFS)
cut_cond = mk("cut_cond", forms.COND)
cut_box = mk("cut_box", forms.BOX)
cut_env = mk("cut_env", forms.ENV)
cut_math = mk("cut_math", forms.MATH)


def split_holes(f):
    """the form cut at its stand-alone letters: pieces around the holes"""
    return forms.HOLE.split(f)


def fill(cx, family, qn, tn):
    f = cx.pick("form", [split_holes(x) for x in family])
    cx.assume(len(f) > 1)
    k = cx.pick("hole", list(range(6)))
    cx.assume(k < len(f) - 1)
    s = cx.str("s", 0, cx.bound(qn, tn), alpha=TAIL)
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    src = ""
    for i in range(len(f)):
        src += f[i]
        if i < len(f) - 1:
            src += s if i == k else "a"
    go(cx, "x " + src + " y", pre)


def mkfill(name, family):
    def fn(cx):
        fill(cx, family, 2, 3)
    fn.__name__ = name
    return harness(
        bounds="%d constructs, one of their arguments replaced by <=2 (thorough 3) symbolic characters over { } [ ] \\ $ a; with and without preprocessing" % len(family),
        covers=["pre", "plain"],
    )(fn)


fill_content = mkfill("fill_content", forms.CONTENT)
fill_author = mkfill("fill_author", forms.AUTHOR)
fill_format = mkfill("fill_format", forms.FORMAT)
fill_style = mkfill("fill_style", forms.STYLE)
fill_defs = mkfill("fill_defs", forms.DEFS)
fill_cond = mkfill("fill_cond", forms.COND)
fill_box = mkfill("fill_box", forms.BOX)
fill_env = mkfill("fill_env", forms.ENV)
fill_math = mkfill("fill_math", forms.MATH)


@harness(
    bounds="every text of <=4 (thorough 5) characters over { } [ ] \\ $ & # % ~ ^ _ newline and two letters, with and without preprocessing",
    covers=["done"],
)
def raw(cx):
    s = cx.str("s", 0, cx.bound(4, 5), alpha="{}[]\\$&#%~^_\nab")
    pre = cx.flag("pre")
    cx.cover("done")
    go(cx, s, pre)


@harness(
    bounds="%d containers, each holding each of the %d other constructs, quick: followed by one symbolic character over } ] $ \\\\ a; thorough: constructs with <=1 symbolic character in place of each argument, too" % (len(forms.CONTAINERS), len(forms.ALL)),
    covers=["done"],
)
def nested(cx):
    o = cx.pick("outer", [c.split("@") for c in forms.CONTAINERS])
    f = cx.pick("inner", forms.ALL)
    s = cx.str("s", 0, cx.bound(0, 1), alpha="}]$\\a")
    cx.cover("done")
    go(cx, (f + s).join(o) + " y", False)


RECURSIVE = [
    "\\def\\qa{\\qa}", "\\def\\qa{\\qb}\\def\\qb{\\qa}", "\\def\\qa{x\\qa}", "\\def\\qa{\\qa\\qa}", "\\def\\qa#1{\\qa{#1#1}}",
    "\\def\\qa{\\qb}\\def\\qb{\\qc}\\def\\qc{y\\qa}", "\\newcommand{\\qa}{\\qb}\\newcommand{\\qb}{\\qa x}",
    "\\def\\qa{\\textbf{\\qa}}", "\\def\\qa{$\\qa$}", "\\def\\qa{{\\qa}}", "\\let\\qa=\\qa", "\\def\\qa{\\csname qa\\endcsname}",
    "\\def\\qa{\\begin{quote}\\qa\\end{quote}}", "\\def\\qa{\\section{\\qa}}", "\\def\\qa{\\footnote{\\qa}}",
    "\\def\\qa{\\iftrue\\qa\\fi}", "\\newcommand{\\qa}[1]{\\qb{#1}}\\newcommand{\\qb}[1]{\\qa{#1}}", "\\edef\\qa{\\qa}", "\\gdef\\qa#1;{\\qa#1;;}",
]


@harness(
    bounds="19 endlessly recursive definitions, called in text, math, with and without preprocessing, before 1 symbolic structural character",
    covers=["done"], max_ticks=6000000, tiers=("thorough",),
    excludes="a call of the argument-doubling macro whose own argument is an unbalanced brace: half a million braces are scanned in quadratic time; preprocessing of the two definitions that recurse inside a nested construct",
)
def recursive(cx):
    d = cx.pick("def", RECURSIVE)
    u = cx.pick("use", ["\\qa", "\\qa{b}", "$\\qa$", "\\section{\\qa}", "\\begin{equation}\\qa\\end{equation}"])
    s = cx.str("s", 0, 1, alpha="a{")
    pre = cx.flag("pre")
    cx.assume(not (pre and len(d) > 15 and "\\textbf" in d or pre and "{{" in d))
    cx.assume(not (s == "{" and d == "\\def\\qa#1{\\qa{#1#1}}"))
    cx.cover("done")
    go(cx, d + u + s, pre)


DEEP = [("\\textbf{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("{", "}"), ("\\footnote{", "}"), ("\\frac{", "}{b}"),
        ("{\\it ", "}"), ("\\mbox{", "}"), ("\\begin{quote}", "\\end{quote}"), ("\\begingroup ", "\\endgroup "), ("\\section{", "}")]


@harness(
    bounds="10 constructs nested in themselves 100 to 160 levels deep around <=1 symbolic structural character, closed or not",
    covers=["done"], max_ticks=20000000, tiers=("thorough",),
)
def deep(cx):
    l, r = cx.pick("form", DEEP)
    n = cx.pick("n", [100, 119, 121, 160])
    s = cx.str("s", 0, 1, alpha="}{$\\a")
    closed = cx.flag("closed")
    cx.cover("done")
    go(cx, l * n + s + (r * n if closed else ""), False)
