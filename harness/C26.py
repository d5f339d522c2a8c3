"""C26 unknown commands and environments are kept, not dropped"""
import re
from symtex.api import harness, LETTERS, DIGITS
from hlib.common import parse, build, walk, squeeze, flat
from hlib import forms
from latex2json.latex_maps._latex2unicode_map import latex2unicode

CH = LETTERS + DIGITS + ".,:;()=*/'\"<>!?"
SYMBOLS = [k[1:] for k in latex2unicode if k.startswith("\\")]

# every command name used by the families, and some more the parser knows
KNOWN = sorted(set(re.findall(r"\\([a-zA-Z]{2,})", " ".join(forms.ALL)) + [
    "textbf", "textit", "emph", "underline", "bf", "it", "tt", "large", "small", "tiny", "item", "verb", "begin", "end", "left", "right", "if", "ifx", "fi", "else",
    "newcommand", "def", "let", "newenvironment", "newtheorem", "mbox", "fbox", "makebox", "parbox", "label", "cite", "par", "newline", "hat", "vec", "ae", "ss", "alpha", "ne",
    "csname", "expandafter", "setkeys", "foreach", "bibitem", "providecommand", "DeclareMathOperator", "in", "input", "multicolumn", "multirow", "hline", "cline", "toprule", "makecell"]))
# a longer name that no known symbol begins with
LONGER = [(n, q) for n in KNOWN for q in "qZ" if not [s for s in SYMBOLS if s.startswith(n + q) or n + q == s[:len(n) + 1]] and not [k for k in KNOWN if k.startswith(n + q)]]
LONGER = [(n, q) for i, (n, q) in enumerate(LONGER) if q == "q" or (n, "q") not in LONGER]

PLACES = [("w ", " e"), (" {w ", " e} "), ("\\footnote{w ", " e}"), ("\\begin{itemize}\\item w ", " e\\end{itemize}"), ("\\begin{tabular}{c}w ", " & e\\end{tabular}"), ("\\textit{w ", " e}"), ("\\caption{w ", " e}"),
          ("\\begin{qe}w ", " e\\end{qe}"), ("\\section{w ", " e}"), ("w $x$", "$y$ e"), ("\\begin{theorem}w ", " e\\end{theorem}"), ("w\n\n", "\n\ne"), ("w \\iftrue ", " e\\fi"), ("w \\bf ", " e")]
FEW = [PLACES[i] for i in (0, 2, 3, 4, 5)]


def without(x, skip):
    """text of everything but the skipped tokens, which leave a mark"""
    if isinstance(x, str):
        return squeeze(x)
    if isinstance(x, (list, tuple)):
        return "".join([without(t, skip) for t in x])
    if isinstance(x, dict):
        if skip(x):
            return "<>"
        return "".join([without(x.get(k), skip) for k in ("title", "content") if x.get(k) is not None])
    return ""


def commands(cx, place, src, want, after="", pre=False):
    o, c = place
    toks = parse(cx, o + src + c, pre)
    isc = lambda t: t.get("type") == "command"
    got = [(t["command"], t.get("content")) for t in walk(toks) if isc(t)]
    cx.check_eq([g[0] for g in got], [w[0] for w in want], "names of the commands")
    for (n, a), (m, b) in zip(got, want):
        cx.check_eq(a, b, "argument of the command")
    probe = parse(cx, o + "\\ref{zz}" * len(want) + after + c, pre)
    cx.check_eq(without(toks, isc), without(probe, lambda t: t.get("type") == "ref"), "what surrounds the command")
    js = build(cx, toks)
    got = [t for t in walk(js) if isc(t)]
    cx.check_eq([t["command"] for t in got], [w[0] for w in want], "names of the commands in the JSON")


@harness(
    bounds="unknown command: Q and a name of 1..3 symbolic letters or @, starred or not; no argument, an argument (directly, after a blank, empty, of a symbolic character, with a known construct inside); symbolic character after it; %d places; with and without preprocessing; tokens and JSON" % len(PLACES),
    covers=["argument", "none"],
)
def command(cx):
    name = "\\Q" + cx.str("n", 1, cx.bound(2, 3), alpha="".join(sorted(set("qzQZxX@jJ")))) + cx.pick("star", ["", "*"])
    arg = cx.pick("arg", [None, "{%s}", " {%s}", "\n{%s}", "{}", "{ %s }", "{{%s}}", "{\\textbf{%s}}", "{$%s$}", "{\\ref{%s}}", "{\\Qx{%s}}", "{a\n%s}", "{\\begin{itemize}\\item %s\\end{itemize}}", "{\\cite[a]{%s}, b}"])
    pl = cx.pick("place", PLACES)
    pre = cx.flag("pre")
    # (a quote in braces of its own is converted to a prime, as everywhere)
    s = cx.str("s", 1, 1, alpha=CH if arg and arg.count("{") == 1 else CH.replace("'", "")) if arg and "%s" in arg else ""
    cx.assume("cite" not in (arg or "") or "," not in s)
    cx.cover("argument" if arg else "none")
    if arg is None:
        src, want = name, None
        after = cx.pick("after", ["", ".", "1", " x", "-", "\n\nx", "[x]", "$z$", "~", "\\%", "(", "'"])
        if pl[1][:1].isalpha():
            src += " "
        commands(cx, pl, src + after, [(name, None)], after, pre)
    else:
        a = arg.replace("%s", s)
        want = a.strip()
        if pre:
            want = want.replace("\n", " ")
        after = cx.pick("after", ["", "x", " x", "[x]", "{x}"])
        commands(cx, pl, name + a + after, [(name, want)], after.replace("{", "").replace("}", ""), pre)


@harness(
    bounds="%d names of known commands, each with a letter that makes it unknown and up to one symbolic letter more, starred or not, with an argument of a symbolic character or none: kept under its own name" % len(LONGER),
    covers=["argument", "none"],
)
def longer(cx):
    n, q = cx.pick("known", LONGER)
    more = cx.str("more", 0, 1, alpha=LETTERS)
    name = "\\" + n + q + more + cx.pick("star", ["", "*"])
    pl = cx.pick("place", cx.bound([PLACES[0], PLACES[5]], PLACES))
    s = cx.str("s", 1, 1, alpha=CH)
    if cx.flag("arg"):
        cx.cover("argument")
        commands(cx, pl, name + "{" + s + "}", [(name, "{" + s + "}")])
    else:
        cx.cover("none")
        commands(cx, pl, name + " " + s, [(name, None)], " " + s)


@harness(
    bounds="two unknown commands, each with or without argument, directly after each other, inside one group, or with symbolic text between; the same name twice",
    covers=["done"],
)
def several(cx):
    a = cx.pick("a", ["\\Qa", "\\Qb", "\\Qa*", "\\Q@a"])
    b = cx.pick("b", ["\\Qa", "\\Qc", "\\Qa*"])
    x = cx.pick("x", [None, "{%s}", "{}"])
    y = cx.pick("y", [None, "{%s}"])
    s = cx.str("s", 1, 1, alpha=CH)
    t = cx.str("t", 0, 1, alpha=LETTERS + ".")
    xa = x.replace("%s", s) if x else None
    ya = y.replace("%s", s) if y else None
    mid = (" " + t if len(t) else "")
    cx.cover("done")
    pl = cx.pick("place", FEW)
    o, c = pl
    toks = parse(cx, o + a + (xa or "") + mid + b + (ya or "") + c)
    isc = lambda k: k.get("type") == "command"
    cx.check_eq([(k["command"], k.get("content")) for k in walk(toks) if isc(k)], [(a, xa), (b, ya)], "commands with their arguments")
    probe = parse(cx, o + "\\ref{zz}" + mid + "\\ref{zz}" + c)
    cx.check_eq(without(toks, isc), without(probe, lambda k: k.get("type") == "ref"), "what surrounds the commands")


CONTENT = ["%s", " %s ", "%s\n", "\\textbf{%s}", "$%s$", "\\begin{itemize}\\item %s\\end{itemize}", "\\Qx{%s}", "\\section{%s}", "%s\n\n%s", "{%s} b", "\\begin{tabular}{c}%s & b\\end{tabular}",
           "\\begin{equation}%s\\end{equation}", "\\begin{figure}\\caption{%s}\\end{figure}", "\\ref{%s}", "a \\begin{Qi}%s\\end{Qi} c", "\\verb|%s|", "\\footnote{%s} b", "\\'e %s", "\\label{k}%s", "\\begin{center}%s\\end{center}", "{\\it %s} b", "a\\\\%s"]


def env_check(cx, place, name, want_name, args, body, pre=False):
    o, c = place
    toks = parse(cx, o + "\\begin{" + name + "}" + args + body + "\\end{" + name + "}" + c, pre)
    for out in (toks, build(cx, toks)):
        hit = lambda t: t.get("type") == "environment" and t.get("name") not in ("qe", "center", "Qi")
        got = [t for t in walk(out) if hit(t)]
        cx.check_eq([t.get("name") for t in got], [want_name], "environments by name")
        probe = parse(cx, o + "\\ref{zz}" + c, pre)
        cx.check_eq(without(out, hit), without(probe, lambda t: t.get("type") == "ref"), "what surrounds the environment")
        if out is toks:
            inner = parse(cx, body, pre)
            cx.check_eq(flat_(got[0]["content"]), flat_(inner), "content of the environment")
            cx.check_eq(kinds(got[0]["content"]), kinds(inner), "structure of the environment")
            cx.check_eq(got[0].get("labels"), ["k"] if "label" in body else None, "labels")


def flat_(x):
    return without(x, lambda t: t.get("type") == "label").replace("<>", "")


def kinds(x):
    return [t.get("type") for t in walk(x) if t.get("type") not in ("text", "label")]


@harness(
    bounds="unknown environment: Q and a name of 1..3 symbolic characters (letters, digits, :, -, @), starred or not, holding one of %d contents with a symbolic character, in each of %d places; with and without an optional argument; with and without preprocessing; tokens and JSON" % (len(CONTENT), len(PLACES)),
    covers=["done"],
)
def environment(cx):
    name = "Q" + cx.str("n", 1, cx.bound(2, 3), alpha="qzQZxX@1:-")
    star = cx.pick("star", ["", "*"])
    pl = cx.pick("place", cx.bound([PLACES[i] for i in (0, 2, 3, 7, 10, 12)], PLACES))
    body = cx.pick("content", CONTENT)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".:()=")
    cx.assume("section" not in pl[0] or "section" not in body)
    args = cx.pick("args", ["", "[o]"]) if body[0] not in "{[" else ""
    cx.cover("done")
    env_check(cx, pl, name + star, name, args, body.replace("%s", s), cx.flag("pre"))


ENVS = sorted(set(re.findall(r"\\begin\{([a-z]+)", " ".join(forms.ALL)) + ["itemize", "enumerate", "description", "tabular", "table", "figure", "equation", "align", "verbatim", "lstlisting", "comment", "abstract", "algorithm",
              "theorem", "proof", "lemma", "document", "center", "quote", "minipage", "thebibliography", "bibdiv", "math", "split", "cases", "array", "subequations", "titlepage", "appendices", "tikzpicture", "subfigure", "longtable", "group"]))


@harness(
    bounds="%d names of known environments with q and up to one symbolic letter more, starred or not: an environment of that name with plain content" % len(ENVS),
    covers=["done"],
)
def longer_env(cx):
    n = cx.pick("known", ENVS) + "q" + cx.str("more", 0, 1, alpha=LETTERS)
    pl = cx.pick("place", cx.bound(PLACES[:1], FEW))
    body = cx.pick("content", ["%s", "\\textbf{%s} b", "$%s$", "{%s} b % c\n", "%s & b\\\\c", "\\item %s"])
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".:()=")
    cx.assume("tabular" not in pl[0] or "&" not in body)
    cx.assume("itemize" not in pl[0] or "item" not in body)
    cx.cover("done")
    env_check(cx, pl, n + cx.pick("star", ["", "*"]), n, "", body.replace("%s", s))


@harness(
    bounds="unknown environments of the same or different symbolic names nested two deep with text at each level",
    covers=["same", "different"],
)
def nested(cx):
    n = "Q" + cx.str("n", 1, 1, alpha="xyz1")
    m = "Q" + cx.str("m", 0, 2, alpha="xyz1")
    a = cx.str("a", 1, 1, alpha=CH)
    b = cx.str("b", 1, 1, alpha=CH)
    c = cx.str("c", 1, 1, alpha=CH)
    if n == m:
        cx.cover("same")
    else:
        cx.cover("different")
    toks = parse(cx, "w \\begin{" + n + "}x " + a + "\\begin{" + m + "}x" + b + "\\end{" + m + "}" + c + "\\end{" + n + "} e")
    cx.check_eq([t.get("type") for t in toks], ["text", "environment", "text"], "outer tokens")
    o = toks[1]
    cx.check_eq(o["name"], n, "outer name")
    cx.check_eq([t.get("type") for t in o["content"]], ["text", "environment", "text"], "inner tokens")
    cx.check_eq(o["content"][1]["name"], m, "inner name")
    cx.check_eq([flat_(t) for t in o["content"]], ["x" + a, "x" + b, c], "texts")
