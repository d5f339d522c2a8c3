"""C19 included files are spliced in at the place of inclusion"""
import os
from symtex.api import harness, LETTERS, DIGITS, LOWER
from latex2json.parser.tex_parser import LatexParser
from latex2json.tex_reader import TexReader
from hlib.common import parse, flat, walk, of_type, squeeze, spaced


def parse_folder(cx, files, main="main.tex", parser=None):
    d = cx.folder(files)
    return (parser or LatexParser(logger=cx.logger)).parse_file(os.path.join(d, main))


def same_document(cx, got, want, msg):
    """the same tokens, up to how neighbouring pieces of text are cut and to white space"""
    cx.check_eq(shape(got), shape(want), msg + ": structure")
    cx.check_eq(squeeze(flat(got)), squeeze(flat(want)), msg + ": text")


def shape(tokens):
    out = []
    for t in walk(tokens):
        if isinstance(t, dict) and t.get("type") != "text":
            out.append([t.get("type"), t.get("name"), t.get("labels"), t.get("level"), t.get("styles")])
    return out


@harness(
    bounds="the ways to name an included file (\\input, \\include, unbraced, with and without extension, in a folder, blanks and comments in the braces) x where it is included (text, style, list, table cell, title, footnote, user environment, macro argument), a folder of the same name next to the file or not, x a text of 1..2 (3) letters, digits or points",
    covers=["text", "list", "macro"],
    tiers=("quick", "thorough"),
)
def splice(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS + ".")
    cmd, name = cx.pick(
        "inc",
        [
            ("\\input{f}", "f.tex"),
            ("\\input{f.tex}", "f.tex"),
            ("\\include{f}", "f.tex"),
            ("\\input{sub/f}", "sub/f.tex"),
            ("\\input{./sub/f.tex}", "sub/f.tex"),
            ("\\input{ f }", "f.tex"),
            ("\\input {f}", "f.tex"),
            ("\\input{f%\n}", "f.tex"),
            ("\\input{f.v2}", "f.v2.tex"),
            ("\\input{f}", "f"),
            ("\\input f ", "f.tex"),
            ("\\input f.tex\n", "f.tex"),
            ("\\input sub/f ", "sub/f.tex"),
        ],
    )
    kind, pre, around = cx.pick(
        "where",
        [
            ("text", "", "x %s z"),
            ("text", "", "x\n\n%s\n\nz"),
            ("text", "", "x \\textbf{a %s b} z"),
            ("text", "", "x {\\it a %s b} z"),
            ("list", "", "x \\begin{itemize}\\item a %s b\\item c\\end{itemize} z"),
            ("text", "", "x \\begin{tabular}{cc}a & %s \\\\ c & d\\end{tabular} z"),
            ("text", "", "\\section{x} a %s b\\label{l} z"),
            ("text", "", "x \\title{a %s b} z"),
            ("text", "", "x\\footnote{a %s b} z"),
            ("text", "", "x \\begin{figure}%s\\caption{c}\\label{l}\\end{figure} z"),
            ("text", "\\newenvironment{qe}{[}{]}", "x \\begin{qe} %s \\end{qe} z"),
            ("macro", "\\newcommand{\\qm}[1]{<#1>}", "x \\qm{%s} z"),
        ],
    )
    cx.cover(kind)
    files = {"main.tex": pre + around.replace("%s", cmd), name: s}
    if kind == "text" and name.endswith(".tex") and cx.flag("folder"):
        # a folder of the same name next to the file
        files[name[:-4] + "/other.tex"] = "other"
    got = parse_folder(cx, files)
    want = parse(cx, pre + around.replace("%s", " " + s + " "), True)
    same_document(cx, got, want, "as if the text were written in place")


FILES = [
    "%s",
    "%s\n",
    "a %s\n\nb",
    "\\section{%s} a",
    "\\begin{itemize}\\item %s\\item b\\end{itemize}",
    "\\begin{tabular}{cc}%s & b\\end{tabular}",
    "$%s$",
    "\\textbf{%s} b",
    "\\label{%s}a",
    "\\ref{%s}",
    "\\verb|%s| b",
    "\\begin{verbatim}\n%s\n\\end{verbatim}",
    "a % %s\nb",
    "\\footnote{%s} b",
    "\\includegraphics{%s}",
    "{\\bf %s} b",
    "\\begin{equation}%s\\end{equation}",
    "\\begin{figure}a\\caption{%s}\\end{figure}",
    "\\unknowncommand{%s} b",
    "\\begin{unknownenv}%s\\end{unknownenv}",
]


@harness(
    bounds="an included file with each of 20 contents around a text of 1..2 (3) letters or digits, directly or through another included file, in the main folder or a folder below it",
    covers=["direct", "through"],
)
def contents(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS)
    text = cx.pick("text", FILES).replace("%s", s)
    route = cx.pick("route", ["direct", "through", "through a folder"])
    files = {"main.tex": "\\section{m} x \\input{f} z"}
    if route == "direct":
        cx.cover("direct")
        files["f.tex"] = text
        inner = text
    else:
        cx.cover("through")
        g = "g" if route == "through" else "sub/g"
        files["main.tex"] = files["main.tex"].replace("{f}", "{sub/f}") if g != "g" else files["main.tex"]
        files["sub/f.tex" if g != "g" else "f.tex"] = "u \\input{" + g + "} v"
        files[g + ".tex"] = text
        inner = "u " + text + " v"
    got = parse_folder(cx, files)
    want = parse(cx, "\\section{m} x " + inner + " z", True)
    same_document(cx, got, want, "as if the text were written in place")


@harness(
    bounds="one of 9 kinds of definition given before an inclusion, within the included file, after it or anew at each of them, used at all three places; values of 1..2 (3) letters",
    covers=["new", "again"],
)
def definitions(cx):
    n = cx.bound(2, 3)
    a = cx.str("a", 1, n, alpha=LOWER)
    b = cx.str("b", 1, n, alpha=LOWER)
    define, use = cx.pick(
        "kind",
        [
            ("\\newcommand{\\qa}{%s}", "\\qa{} "),
            ("\\renewcommand{\\qa}{%s}", "[\\qa] "),
            ("\\def\\qa{%s}", "\\qa, "),
            ("\\newcommand{\\qa}[1]{%s(#1)}", "\\qa{u} "),
            ("\\def\\qa#1{%s(#1)}", "\\qa{u} "),
            ("\\newcommand{\\qa}[1][o]{%s(#1)}", "\\qa[u] "),
            ("\\newenvironment{qa}{%s}{e}", "\\begin{qa}u\\end{qa} "),
            ("\\newcommand{\\qb}{%s}\\newcommand{\\qa}{<\\qb>}", "\\qa{} "),
            ("\\newif\\ifqa \\qatrue \\newcommand{\\qa}{%s}", "\\ifqa \\qa{} \\fi "),
        ],
    )
    place = cx.pick("place", ["before", "within", "before and within", "before and after", "within and after"])
    cx.cover("again" if " and " in place else "new")
    da, db = define.replace("%s", a), define.replace("%s", b)
    before = (da if "before" in place else "") + " m " + (use if "before" in place else "")
    within = (db if place == "before and within" else da if "within" in place else "") + " f " + use
    after = (db if "after" in place else "") + " n " + use
    got = parse_folder(cx, {"main.tex": before + "\\input{f} " + after, "f.tex": within})
    want = parse(cx, before + within + " " + after, True)
    same_document(cx, got, want, "definitions take effect in reading order")


@harness(
    bounds="2 inclusions and a bibliography, any of which is missing, a folder, empty or includes itself or the main file (up to twice), with texts of 1..2 (3) letters around",
    covers=["missing", "itself", "fine"],
)
def missing(cx):
    n = cx.bound(2, 3)
    s = cx.str("s", 1, n, alpha=LETTERS)
    t = cx.str("t", 1, n, alpha=LETTERS)
    kind = cx.pick("kind", ["fine", "missing", "folder", "empty", "itself", "itself twice", "the main file", "each other"])
    cmd = cx.pick("cmd", ["\\input{f}", "\\include{f}", "\\input f "])
    files = {"main.tex": "a" + s + " " + cmd + " b \\input{g} " + t + "c", "g.tex": "gg"}
    inner = ""
    if kind == "folder":
        files["f/x.tex"] = "no"
    elif kind == "empty":
        files["f.tex"] = ""
    elif kind != "missing":
        files["f.tex"] = "p " + {"itself": cmd, "itself twice": cmd + cmd, "the main file": "\\input{main}", "each other": "\\input{h}"}.get(kind, "") + " q"
        files["h.tex"] = "r" + cmd + "r"
        inner = "prrq" if kind == "each other" else "pq"
    cx.cover("missing" if kind == "missing" else "itself" if "itself" in kind else "fine" if kind == "fine" else "")
    got = parse_folder(cx, files)
    cx.check_eq(squeeze(flat(got)), "a" + s + inner + "bgg" + t + "c", "only the file that cannot be read is left out")


@harness(
    bounds="text of 1..2 (3) characters after \\end{document} or \\endinput, in the main file or an included one",
    covers=["document", "endinput"],
)
def ends(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS + "$%{}&")
    t = cx.str("t", 1, 2, alpha=LETTERS)
    kind = cx.pick("kind", ["main", "included", "endinput", "endinput in a line", "included document", "verbatim"])
    f = "f" + t
    main = "\\documentclass{article}\\begin{document}a \\input{f} b" + t + "\\end{document}\n"
    want = "af" + t + "b" + t
    if kind == "main":
        cx.cover("document")
        main += s
    elif kind == "included":
        main = main.replace(" b", " \\input{g} b")
        f += "\n\\endinput\n" + s
        want = "af" + t + "gb" + t
    elif kind == "endinput":
        cx.cover("endinput")
        f += "\n\\endinput\n" + s
    elif kind == "endinput in a line":
        f += " \\endinput g\n" + s
        want = "af" + t + "gb" + t
    elif kind == "included document":
        f = "\\documentclass[main]{subfiles}\\begin{document}" + f + "\\end{document}\n" + s
    else:
        f += "\\verb|\\endinput|"
        want = "af" + t + "\\endinputb" + t
    got = parse_folder(cx, {"main.tex": main, "f.tex": f, "g.tex": "g"})
    cx.check_eq(squeeze(flat(got)), want, "what comes after the end is not read")


@harness(
    bounds="packages and classes of the folder loaded in each of 18 ways (also from sub-folders), with each of 8 kinds of definition whose name and text are 1..2 (3) letters, on its own, in a branch taken or between text; commands they define leave no trace and take their arguments",
    covers=["environment", "command", "overridden"],
)
def packages(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LOWER)
    load, more = cx.pick(
        "load",
        [
            ("\\usepackage{p}", {}),
            ("\\usepackage[opt]{p}", {}),
            ("\\RequirePackage{p}", {}),
            ("\\usepackage{amsmath, p ,r}", {}),
            ("\\usepackage{o}", {"o.sty": "\\ProvidesPackage{o}[2020]\n\\RequirePackage{p}"}),
            ("\\usepackage{o}", {"o.sty": "\\input{p.sty}"}),
            ("\\documentclass[a4]{c}", {"c.cls": "\\LoadClass{article}\n\\RequirePackage{p}"}),
            ("\\usepackage{p}\\usepackage{p}", {}),
            ("\\usepackage{p}[2020/01/01]", {}),
            ("\\documentclass{c}[2020/01/01]", {"c.cls": "\\RequirePackage{p}[2020]"}),
            ("\\documentclass{c}", {"c.cls": "\\LoadClass[a4]{d}\n\\RequirePackage{r}", "d.cls": "\\RequirePackage{p}"}),
            ("\\usepackage{o}", {"o.sty": "\\RequirePackage{r,p}"}),
            ("\\usepackage{sub/o}", {"sub/o.sty": "\\RequirePackage{p}"}),
            ("\\usepackage{sub/o}", {"sub/o.sty": "\\RequirePackage{sub/n}", "sub/n.sty": "\\input{p.sty}"}),
            ("\\usepackage{o}", {"o.sty": "\\RequirePackage{sub/n}\n\\RequirePackage{p}", "sub/n.sty": "", "sub/p.sty": "\\newcommand{\\qb}{}"}),
            ("\\usepackage{sub/o}", {"sub/o.sty": "\\IfFileExists{sub/n.sty}{\\RequirePackage{p}}{}", "sub/n.sty": ""}),
            ("\\documentclass{sub/c}", {"sub/c.cls": "\\LoadClass{sub/d}", "sub/d.cls": "\\RequirePackage{p}"}),
            ("\\documentclass{c}", {"c.cls": "\\LoadClassWithOptions{d}", "d.cls": "\\RequirePackageWithOptions{p}"}),
        ],
    )
    kind, sty, use, plain = cx.pick(
        "kind",
        [
            ("environment", "\\newenvironment{qa}{%s}{e}", "\\begin{qa}u\\end{qa}", None),
            ("environment", "\\newtheorem{qa}{Lemma}", "\\begin{qa}u%s\\end{qa}", None),
            ("environment", "\\newtheorem{qa}{Lemma}[section]", "\\begin{qa}[%s]u\\end{qa}", None),
            ("command", "\\newcommand{\\qa}{%s}", "\\qa{}", ""),
            ("command", "\\newcommand{\\qa}[2]{#1%s#2}", "\\qa{v}{w}", ""),
            ("command", "\\def\\qa#1{%s#1}", "\\qa{v}", ""),
            ("overridden", "\\newcommand{\\qa}{%s}", "\\renewcommand{\\qa}{w%s}\\qa{}", "w%s"),
            ("overridden", "\\def\\qa#1{%s}", "\\renewcommand{\\qa}[1]{w#1}\\qa{%s}", "w%s"),
        ],
    )
    cx.cover(kind)
    sty, use = sty.replace("%s", s), use.replace("%s", s)
    wrap = cx.pick("wrap", ["<>", "\\iftrue<>\\else\\newcommand{\\qa}{no}\\fi", "\\iffalse\\newcommand{\\qa}{no}\\else<>\\fi", "\\@ifundefined{qa}{<>}{}", "\\@ifundefined {qa} {<>} {\\newcommand{\\qa}{no}}", "\\@ifpackageloaded{r}{<>}{}", "\\makeatletter<>\\makeatother", "\\ProvidesPackage{p}\n<>%", "text <> text"])
    cx.assume(wrap == "<>" or load == "\\usepackage{p}" or cx.tier == "thorough")
    files = {"p.sty": "% a package\n" + wrap.replace("<>", sty) + "\n\\endinput\n", "main.tex": load + "\n\\begin{document}x " + use + " z\\end{document}"}
    files.update(more)
    got = parse_folder(cx, files)
    if plain is None:
        if "newenvironment" in sty:
            sty = "\\newenvironment{qa}{}{}"  # the code of a package is left out
        want = parse(cx, sty + "\\begin{document}x " + use + " z\\end{document}", True)
        same_document(cx, got, want, "definitions of a package are in force")
        cx.check_eq(squeeze(flat(got)), squeeze(flat(want)), "text")
    else:
        cx.check_eq(squeeze(flat(got)), "x" + plain.replace("%s", s) + "z", "commands of a package")


@harness(
    bounds="definitions and packages before \\documentclass, and the name of the class in literal text, with values of 1..2 (3) letters",
    covers=["before", "literal"],
)
def document_class(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS)
    kind, main, want = cx.pick(
        "kind",
        [
            ("before", "\\newcommand{\\qa}{%s}\\documentclass{article}\\begin{document}x \\qa{} z\\end{document}", "x%sz"),
            ("before", "\\newcommand{\\qa}[1]{%s#1}\n\\documentclass[a]{article}\n\\begin{document}x \\qa{v} z\\end{document}", "x%svz"),
            ("before", "\\begin{filecontents}{a.bib}\n%s \\newcommand{\\qa}{no}\n\\end{filecontents}\n\\documentclass{article}\\newcommand{\\qa}{%s}\\begin{document}x \\qa{} z\\end{document}", "x%sz"),
            ("before", "%s\\documentclass{article}\\begin{document}x %s z\\end{document}", "x%sz"),
            ("literal", "x %s \\verb|\\documentclass{a}| z", "x%s\\documentclass{a}z"),
            ("literal", "x %s \\begin{verbatim}\\documentclass{a}\\end{verbatim} z", "x%s\\documentclass{a}z"),
            ("literal", "x %s % \\documentclass{a}\n z", "x%sz"),
            ("literal", "\\documentclass{b} x %s \\input{f} z", "x%su\\documentclass{a}vz"),
        ],
    )
    cx.cover(kind)
    got = parse_folder(cx, {"main.tex": main.replace("%s", s), "f.tex": "u \\verb|\\documentclass{a}| v"})
    cx.check_eq(squeeze(flat(got)), want.replace("%s", s), "nothing of the document is lost")


@harness(
    bounds="two documents with files of the same name in different folders, read one after the other by one parser or reader, the main file given by an absolute path; texts of 1..2 (3) letters",
    covers=["parser", "cleared", "reader"],
)
def folders(cx):
    n = cx.bound(2, 3)
    s = cx.str("s", 1, n, alpha=LETTERS)
    t = cx.str("t", 1, n, alpha=LETTERS)
    cmd = cx.pick("cmd", ["\\input{f}", "\\include{f}", "\\input{sub/f}", "\\newcommand{\\qi}[1]{\\input{#1}}\\qi{f}"])
    name = "sub/f.tex" if "sub" in cmd else "f.tex"
    d = cx.folder({
        "a/main.tex": "\\documentclass{article}\\begin{document}x " + cmd + " z\\end{document}",
        "a/" + name: s,
        "b/main.tex": "\\documentclass{article}\\begin{document}y " + cmd + " z\\end{document}",
        "b/" + name: t,
    })
    how = cx.pick("how", ["parser", "cleared", "reader"])
    cx.cover(how)
    if how == "reader":
        reader = TexReader(logger=cx.logger)
        reader.process(os.path.join(d, "a"))
        got = [x.model_dump(exclude_none=True) for x in reader.process(os.path.join(d, "b")).tokens]
    else:
        p = LatexParser(logger=cx.logger)
        p.parse_file(os.path.join(d, "a", "main.tex"))
        if how == "cleared":
            p.clear()
        got = p.parse_file(os.path.join(d, "b", "main.tex"))
    cx.check_eq(squeeze(flat(got)), "y" + t + "z", "files are those of the folder of the document")


@harness(
    bounds="one or two bibliography files named with or without extension, in BibTeX or bbl form, one of them possibly missing or empty, with keys and titles of 1..2 (3) letters",
    covers=["bib", "bbl", "two", "missing"],
)
def bibliographies(cx):
    n = cx.bound(2, 3)
    k = cx.str("k", 1, n, alpha=LOWER)
    t = cx.str("t", 1, n, alpha=LETTERS)
    bib = "@book{" + k + ",\n title={" + t + "}\n}\n"
    bbl = "\\begin{thebibliography}{9}\n\\bibitem{" + k + "} " + t + "\n\\end{thebibliography}\n"
    kind, cmd, files, want = cx.pick(
        "kind",
        [
            ("bib", "\\bibliography{r}", ["r.bib"], 1),
            ("bib", "\\bibliography{r.bib}", ["r.bib"], 1),
            ("bib", "\\bibliography{sub/r}", ["sub/r.bib"], 1),
            ("bbl", "\\bibliography{r}", ["r.bbl"], 1),
            ("bbl", "\\input{main.bbl}", ["main.bbl"], 1),
            ("two", "\\bibliography{r,q}", ["r.bib", "+q.bib"], 2),
            ("two", "\\bibliography{q, r}", ["r.bib", "+q.bib"], 2),
            ("missing", "\\bibliography{none,r}", ["r.bib"], 1),
            ("missing", "\\bibliography{none}", ["r.bib"], 0),
            ("missing", "\\bibliography{e}", ["!e.bib", "main.bbl"], 1),
            ("missing", "\\bibliography{none}", ["o.bbl"], 1),
        ],
    )
    cx.cover(kind)
    tree = {"main.tex": "x \\cite{" + k + "} " + cmd + " z"}
    for f in files:
        tree[f.lstrip("+!")] = "" if f[0] == "!" else "@article{zzzz,title={Other}}" if f[0] == "+" else bbl if "bbl" in f else bib
    got = parse_folder(cx, tree)
    items = of_type(got, "bibitem")
    cx.check_eq(len(items), want, "entries of the files")
    if want:
        mine = [i for i in items if cx.eq(i["cite_key"], k)]
        cx.check_eq(len(mine), 1, "the entry under its key")
        cx.check(t in squeeze(flat([mine[0]])), "title of the entry")
    if kind != "bbl" or "bibliography" in cmd:
        cx.check_eq(len(of_type(got, "bibliography")), 1, "one bibliography, where it is included")
    cx.check_eq(squeeze(flat([x for x in got if x.get("type") == "text"])), "xz", "text around")
