"""C13 table rows and cells keep their position and span"""
from symtex.api import harness, LETTERS, DIGITS, LOWER
from hlib.common import squeeze, parse, build_tex, of_type, flat, text

CH = LETTERS + DIGITS + ".,;:!?()=+*/'\"<>@-"


def eq(s):
    return {"type": "equation", "content": s}


def styled(s, *styles):
    return {"type": "text", "content": s, "styles": list(styles)}


def span(content, rows, cols):
    return {"content": content, "rowspan": rows, "colspan": cols}


def cell(kind, s):
    """source and parsed content of a cell with text s"""
    return {
        "text": lambda: (s, s),
        "empty": lambda: (" ", None),
        "words": lambda: (s + " b " + s, s + " b " + s),
        "amp": lambda: (s + "\\&" + s, s + "&" + s),
        "escapes": lambda: ("\\%" + s + "\\_\\#\\$", "%" + s + "_#$"),
        "group": lambda: ("{" + s + "}", s),
        "groups": lambda: ("{" + s + "}{b}", s + "b"),
        "bold": lambda: ("\\textbf{" + s + "}", [styled(s, "bold")]),
        "it": lambda: ("{\\it " + s + "}", [styled(s, "italic")]),
        "bold amp": lambda: ("\\textbf{" + s + "\\& b}", [styled(s + "& b", "bold")]),
        "mixed": lambda: (s + "\\textbf{b}", [text(s), styled("b", "bold")]),
        "math": lambda: ("$" + s + "$", [eq(s)]),
        "math amp": lambda: ("$a&" + s + "\\\\c$", [eq("a&" + s + "\\\\c")]),
        "text math": lambda: (s + " $b$", [text(s + " "), eq("b")]),
        "cite": lambda: ("\\cite{k,l}" + s, [{"type": "citation", "content": ["k", "l"]}, text(s)]),
        "foot": lambda: ("b\\footnote{" + s + " \\& d}", [text("b"), {"type": "footnote", "content": [text(s + " & d")]}]),
        "newline": lambda: (s + "\\newline c", s + "\n c"),
        "makecell": lambda: ("\\makecell{" + s + "\\\\b}", s + "\nb"),
        "makecell in": lambda: ("c\\makecell[l]{" + s + "\\\\b}d", "c" + s + "\nbd"),
        "shortstack": lambda: ("\\shortstack{" + s + "\\\\b} \\makecell{c}", s + "\nb c"),
        "list": lambda: ("\\begin{itemize}\\item " + s + " \\& b & c\\\\d\\end{itemize}",
                         [{"type": "list", "name": "itemize", "content": [{"type": "item", "content": [text(s + " & b & c"), text("\n"), text("d")]}]}]),
        "macro": lambda: ("\\qm{" + s + "}", "(" + s + ")"),
        "verb": lambda: ("\\verb|a&" + s + "|", [{"type": "code", "content": "a&" + s, "display": "inline"}]),
        "comment": lambda: (s + "% & x \\\\\n", s),
        "mcol": lambda: ("\\multicolumn{2}{c}{" + s + "}", span(s, 1, 2)),
        "mcol1": lambda: ("\\multicolumn{1}{|c|}{" + s + "}", s),
        "mcol amp": lambda: ("\\multicolumn{3}{p{2cm}}{" + s + "\\& b\\\\c}", span(s + "& b\nc", 1, 3)),
        "mcol bold": lambda: ("\\multicolumn{2}{c}{\\textbf{" + s + "} $b$}", span([styled(s, "bold"), eq("b")], 1, 2)),
        "mrow": lambda: ("\\multirow{2}{*}{" + s + "}", span(s, 2, 1)),
        "brace": lambda: ("\\{" + s, "{" + s),
        "brace end": lambda: (s + "\\} b", s + "} b"),
        "brace bold": lambda: ("\\{\\textbf{" + s + "}", [text("{"), styled(s, "bold")]),
        "brace span": lambda: ("\\multicolumn{2}{c}{\\{" + s + "}", span("{" + s, 1, 2)),
        "brace group": lambda: ("{\\} " + s + "}", "} " + s),
        "mrow pos": lambda: ("\\multirow[t]{2}{*}{" + s + "}", span(s, 2, 1)),
        "mrow up": lambda: ("\\multirow{-2}{*}{" + s + "}", s),
        "mrow shift": lambda: ("\\multirow{2}[4]{2cm}[2pt]{" + s + "}", span(s, 2, 1)),
        "mrow bare": lambda: ("\\multirow2*{" + s + "}", span(s, 2, 1)),
        "mcol bare": lambda: ("\\multicolumn2c{" + s + "}", span(s, 1, 2)),
        "makecell star": lambda: ("\\makecell*{" + s + "\\\\b}", s + "\nb"),
        "verb end": lambda: ("\\verb|\\tabularnewline|" + s, [{"type": "code", "content": "\\tabularnewline", "display": "inline"}, text(s)]),
        "mrow cell": lambda: ("\\multirow{2}{*}{\\makecell{" + s + "\\\\b}}", span(s + "\nb", 2, 1)),
        "mboth": lambda: ("\\multicolumn{2}{c}{\\multirow{3}{*}{" + s + "}}", span(s, 3, 2)),
        "mrow mcol": lambda: ("\\multirow{3}{*}{\\multicolumn{2}{c}{" + s + "}}", span(s, 3, 2)),
        "makecell mrow": lambda: ("\\makecell{\\multirow{2}{*}{" + s + "}}", span(s, 2, 1)),
        "group esc": lambda: ("{" + s + "\\%}", s + "%"),
        "group amp": lambda: ("{" + s + "\\&b}", s + "&b"),
        "mbox": lambda: ("\\mbox{5\\%}" + s, "5%" + s),
        "parbox": lambda: ("\\parbox{2cm}{5\\% " + s + "}", "5% " + s),
        "raisebox": lambda: ("\\raisebox{1pt}{5\\%}" + s, "5%" + s),
        "symbol": lambda: ("\\o{}" + s, "\u00f8" + s),
        "symbols": lambda: (s + "\\textbackslash{}\\ss{}b", s + "\\\u00dfb"),
        "accent": lambda: (s + "\\'{e}\\~n", s + "\u00e9\u00f1"),
        "bold esc": lambda: ("{\\bf " + s + "\\_x}", [styled(s + "_x", "bold")]),
        "color": lambda: ("\\cellcolor{red}" + s, s),
        "tabular": lambda: ("\\begin{tabular}{c}" + s + "&b\\\\c\\end{tabular}",
                            [{"type": "tabular", "environment": "tabular", "column_spec": "c", "content": [[s, "b"], ["c"]]}]),
    }[kind]()


KINDS = ["text", "empty", "words", "amp", "escapes", "group", "groups", "bold", "it", "bold amp", "mixed", "math", "math amp", "text math",
         "cite", "foot", "newline", "makecell", "makecell in", "shortstack", "list", "macro", "verb", "comment", "mcol", "mcol1", "mcol amp",
         "mcol bold", "mrow", "mrow cell", "mrow mcol", "makecell mrow", "mboth", "color", "tabular",
         "group esc", "group amp", "mbox", "parbox", "raisebox", "symbol", "symbols", "accent", "bold esc",
         "mrow pos", "mrow up", "mrow shift", "mrow bare", "mcol bare", "makecell star", "verb end", "brace", "brace end", "brace bold", "brace span", "brace group"]
PRE = "\\newcommand{\\qm}[1]{(#1)}"


def table(src, env="tabular", spec="{cc}", end=None):
    return "\\begin{" + env + "}" + spec + src + "\\end{" + env + "}"


def norm(v):
    """neighbouring unstyled texts joined"""
    if isinstance(v, list):
        out = []
        for x in v:
            x = norm(x)
            if isinstance(x, dict) and x.get("type") == "text" and "styles" not in x and out and isinstance(out[-1], dict) and out[-1].get("type") == "text" and "styles" not in out[-1]:
                out[-1] = text(out[-1]["content"] + x["content"])
            else:
                out.append(x)
        return out
    if isinstance(v, dict):
        d = dict(v)
        if "content" in d:
            d["content"] = norm(d["content"])
        return d
    return v


def content(cx, src):
    toks = [t for t in parse(cx, src) if t["type"] == "tabular"]
    cx.check(len(toks) == 1, "one table")
    return norm(toks[0]["content"])


@harness(
    bounds="all pairs of %d kinds of cell in one of the corners of a 2x2 table, cell text of 1..2 symbolic characters" % len(KINDS),
    covers=["done"],
)
def cells(cx):
    s = cx.str("s", 1, 2, alpha=CH)
    k1 = cx.pick("k1", KINDS)
    k2 = cx.pick("k2", KINDS)
    a, av = cell(k1, s)
    b, bv = cell(k2, "w")
    if cx.flag("diagonal"):
        src = a + "&x\\\\y &" + b
        want = [[av, "x"], ["y", bv]]
    else:
        src = "x &" + a + "\\\\" + b + "&y"
        want = [["x", av], [bv, "y"]]
    cx.cover("done")
    cx.check_eq(content(cx, PRE + table(src)), norm(want), "cells of the table")


SIMPLE = ["text", "empty", "amp", "bold", "math amp", "makecell in", "mcol", "mrow"]


@harness(
    bounds="all tables of up to 2x3 cells (thorough 3x3) out of 4 (thorough 5) kinds, rows of different lengths, numbered texts",
    covers=["done"],
    excludes="tables that begin or end with a row without content",
)
def grids(cx):
    kinds = cx.bound(["text", "empty", "bold", "mcol"], ["text", "empty", "math amp", "mcol", "mrow"])
    rows = 2
    src = ""
    want = []
    for r in range(rows):
        n = cx.pick("n%d" % r, [1, 2, 3])
        cs = []
        vs = []
        for c in range(n):
            k = cx.pick("c%d%d" % (r, c), kinds)
            a, v = cell(k, "t%d%d" % (r, c))
            cs.append(a)
            vs.append(v)
        cx.assume(vs != [None] * n)
        src += "&".join(cs) + "\\\\"
        want.append(vs)
    cx.cover("done")
    cx.check_eq(content(cx, table(src)), norm(want), "cells of the table")


@harness(
    bounds="all 3x3 tables with every pattern of empty cells and different spellings of the row end",
    covers=["done"],
    excludes="tables that begin or end with a row without content",
)
def empties(cx):
    ends = ["\\\\", "\\\\[2pt]", "\\\\ \n", " \\\\\\hline ", "\\tabularnewline ", "\\tabularnewline[2pt]", "\\\\*[2pt]\n"]
    e = cx.pick("end", ends)
    src = ""
    want = []
    for r in range(3):
        vs = []
        for c in range(3):
            vs.append(cx.pick("c%d%d" % (r, c), ["%d%d" % (r, c), None]))
        want.append(vs)
        src += " & ".join([v or "" for v in vs]) + e
    cx.assume(want[0] != [None] * 3 and want[2] != [None] * 3)
    cx.cover("done")
    cx.check_eq(content(cx, table(src)), want, "cells of the table")


RULES = ["", "\\hline", "\\hline\\hline", "\\cline{1-2}", "\\toprule", "\\midrule[1pt]", "\\bottomrule", "\\cmidrule(lr){1-2}", "\\rowcolor{red}", "\\rowcolor[gray]{0.9}", "\\noalign{\\smallskip}", "\\addlinespace[2pt]", "\\specialrule{1pt}{2pt}{3pt}", "\\vspace{2pt}", "\\cmidrule{1-2}\\cmidrule(l){3-4}", "\\arrayrulecolor{red}"]
RULES = RULES[:8] + ["\\rowcolor[gray]{0.9}[1pt][1pt]", "\\vspace{2pt}", "\\cmidrule{1-2}\\cmidrule[1pt](l){3-4}", "\\hdashline[1pt/2pt]", "\\hhline{|=|=|}", "\\endhead", "\\endfirsthead\\hline\\endfoot\\endlastfoot", "\\noalign{\\vskip 2pt}"]


@harness(
    bounds="all combinations of %d rule and spacing commands before, between and after the rows of a 2x2 table, cell text of 1 symbolic character" % len(RULES),
    covers=["done"],
)
def rules(cx):
    s = cx.str("s", 1, 1, alpha=CH)
    a = cx.pick("before", RULES)
    b = cx.pick("between", RULES)
    c = cx.pick("after", RULES)
    sp = cx.pick("space", [" ", "\n"])
    src = a + sp + s + "&\\textbf{x}\\\\" + b + sp + "y&" + s + "\\\\" + c
    cx.cover("done")
    cx.check_eq(content(cx, table(src)), [[s, [styled("x", "bold")]], ["y", s]], "cells of the table")


@harness(
    bounds="spans of 1..2 symbolic digits, column format and text of 1..2 symbolic characters, nested or not, blanks between the arguments",
    covers=["mcol", "mrow", "one"],
)
def spans(cx):
    n = cx.str("n", 1, 2, alpha=DIGITS)
    cx.assume(n[0] != "0")
    s = cx.str("s", 1, 2, alpha=CH)
    sp = cx.pick("sp", ["", " "])
    form = cx.pick("form", ["mcol", "mrow", "both"])
    k = int(n)
    if k == 1:
        cx.cover("one")
    if form == "mcol":
        cx.cover("mcol")
        src = "\\multicolumn" + sp + "{" + n + "}" + sp + "{|c|}" + sp + "{" + s + "}"
        want = span(s, 1, k)
    elif form == "mrow":
        cx.cover("mrow")
        src = "\\multirow" + sp + "{" + n + "}" + sp + "{2cm}" + sp + "{" + s + "}"
        want = span(s, k, 1)
    else:
        src = "\\multicolumn{" + n + "}{c}{\\multirow{12}{*}{" + s + "}}"
        want = span(s, 12, k)
    out = content(cx, table("x & " + src + "&y\\\\" + src + "\\\\z"))
    if form != "both" and k == 1:
        want = s
    cx.check_eq(out, [["x", want, "y"], [want], ["z"]], "spanning cells")


ENVS = [
    ("tabular", "{cc}", "cc"),
    ("tabular", "[t]{cc}", "cc"),
    ("tabular", " {@{}l|p{2cm}@{\\hspace{1pt}}}", "@{}l|p{2cm}@{\\hspace{1pt}}"),
    ("tabular*", "{2cm}{cc}", "cc"),
    ("tabularx", "{\\textwidth}{XX}", "XX"),
    ("tabular*", "{2cm}[t]{cc}", "cc"),
    ("tabularx", " {\\textwidth} [b]\n{XX}", "XX"),
    ("tabulary", "{2cm}{LL}", "LL"),
    ("longtable", "{cc}", "cc"),
    ("longtable", "[c]{cc}", "cc"),
]
AROUND = ["<>", "\\begin{table}<>\\end{table}", "\\begin{center}<>\\end{center}", "\\resizebox{1cm}{!}{<>}", "{\\small <>}", "\\textbf{<>}", "\\begin{itemize}\\item <>\\end{itemize}", "\\scalebox{2}{<>}", "\\begin{adjustbox}{a}<>\\end{adjustbox}", "\\footnote{<>}"]


@harness(
    bounds="every table environment and argument form, in %d surroundings, first cell of %d kinds, text around; with and without preprocessing; JSON output" % (len(AROUND), len(SIMPLE)),
    covers=["done"],
)
def environments(cx):
    env, spec, col = cx.pick("env", ENVS)
    l, r = cx.pick("around", AROUND).split("<>")
    a, v = cell(cx.pick("k", SIMPLE), "s")
    pre = cx.flag("pre")
    src = l + table(a + "&x\\\\y&z", env, spec) + r + "v"
    want = norm([[v, "x"], ["y", "z"]])
    cx.cover("done")
    toks = of_type(parse(cx, src, pre), "tabular")
    styles = toks[0].get("styles", [])
    cx.check_eq([(norm(t["content"]), "" if pre else t["column_spec"], t["environment"]) for t in toks], [(want, "" if pre else col, env)], "the table")
    out = of_type(build_tex(cx, src, pre), "tabular")
    cx.check_eq([norm(t["content"]) for t in out], [want], "the table's output")
    cx.check_eq(out[0].get("styles", []), styles, "styles of the table")


@harness(
    bounds="tables nested in a cell two deep and tables one after the other, with spans and references in both",
    covers=["done"],
)
def nested(cx):
    k1 = cx.pick("k1", SIMPLE)
    k2 = cx.pick("k2", SIMPLE)
    k3 = cx.pick("k3", SIMPLE)
    a, av = cell(k1, "s")
    b, bv = cell(k2, "t")
    c, cv = cell(k3, "u")

    def tab(content):
        return [{"type": "tabular", "environment": "tabular", "column_spec": "cc", "content": content}]

    cx.cover("done")
    shape = cx.pick("shape", [0, 1])
    if shape == 0:
        inner = table("i &" + b + "\\\\" + c + "&j")
        src = a + "&" + inner + "\\\\" + c + "& x"
        cx.check_eq(content(cx, table(src)), norm([[av, tab([["i", bv], [cv, "j"]])], [cv, "x"]]), "table in a table")
    else:
        out = parse(cx, "1" + table(a + "&x\\\\y&" + b) + "2" + table(b + "&" + c + "&x") + "3")
        cx.check_eq([norm(t["content"]) for t in out], norm(["1", [[av, "x"], ["y", bv]], "2", [[bv, cv, "x"]], "3"]), "tables one after the other")


@harness(
    bounds="tables by commands (\\\\tabular, \\\\endtabular), nested or one after another, rows ended by backslashes or \\\\tabularnewline, cells of 1..2 symbolic characters, plain and preprocessed",
    covers=["plain", "nested", "two"],
)
def commands(cx):
    s = cx.str("s", 1, 2, alpha=CH)
    end = cx.pick("end", ["\\\\", "\\tabularnewline ", "\\tabularnewline[2pt] ", "\\tabularnewline\n\\hline "])
    pre = cx.flag("pre")
    form = cx.pick("form", ["plain", "nested", "two", "mixed"])
    cx.cover(form if form != "mixed" else "nested")
    inner = "\\tabular{cc}" + s + "&x" + end + "y&" + s + "\\endtabular"
    rows = [[s, "x"], ["y", s]]
    if form == "plain":
        src, want = inner, [rows]
    elif form == "two":
        src, want = inner + " u " + inner, [rows, rows]
    elif form == "nested":
        src, want = "\\tabular{c}a" + end + inner + "\\endtabular", None
    else:
        src, want = "\\begin{tabular}{c}a" + end + inner + "\\end{tabular}", None
    out = parse(cx, src + " v", pre)
    if want is None:
        tables = [t for t in out if t.get("type") == "tabular"]
        cx.check_eq(len(tables), 1, "one table outside")
        cx.check_eq([len(r) for r in tables[0]["content"]], [1, 1], "its cells")
        cx.check_eq(tables[0]["content"][0][0], "a", "its first cell")
        cx.check_eq([norm(t["content"]) for t in tables[0]["content"][1][0]], [rows], "the table in its second cell")
    else:
        cx.check_eq([norm(t["content"]) for t in out if t.get("type") == "tabular"], want, "the tables")
    cx.check_eq(squeeze(flat([t for t in out if t.get("type") == "text"])), "uv" if form == "two" else "v", "text around")
