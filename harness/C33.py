"""C33 the result holds the built document and its colors"""
import json
import os
from pathlib import Path

from symtex.api import harness, LETTERS, DIGITS, LATIN1
from latex2json.parser.tex_parser import LatexParser
from latex2json.tex_reader import TexReader, ProcessingResult
from hlib.common import parse, build_tex, text, walk


def colors(cx, src, pre=False):
    p = LatexParser(logger=cx.logger)
    tokens = p.parse(src, preprocess=True) if pre else p.parse(src)
    return tokens, p.get_colors()


def color(value, format="rgb"):
    return {"format": format, "value": value}


def dumps(tokens):
    return [t.model_dump(mode="json", exclude_none=True) for t in tokens]


DEFINE = [
    ("\\definecolor{<n>}{<f>}{<v>}", None), ("\\definecolor {<n>} {<f>} {<v>}", None), ("\\definecolor[ps]{<n>}{<f>}{<v>}", None), ("\\providecolor{<n>}{<f>}{<v>}", None), ("\\definecolor{<n>}%\n  {<f>}%\n  {<v>}", None),
    ("\\xdefinecolor{<n>}{<f>}{<v>}", None), ("\\colorlet{<n>}{<v>}", "named"), ("\\colorlet{<n>}[<f>]{<v>}", "named"), ("\\definecolor{ <n>}{<f> }{<v>\n}", None),
]


@harness(
    bounds="%d spellings of a color definition; names of 1-2, formats of 1-2 and values of 0-3 (thorough 3, 3 and 4) symbolic characters (letters, digits, `,.!-` and blanks within), between texts; plain and preprocessed" % len(DEFINE),
    covers=["plain", "pre", "named"],
)
def definitions(cx):
    form, fixed = cx.pick("form", DEFINE)
    n = cx.str("n", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS + "-!@.")
    f = cx.str("f", 1, cx.bound(2, 3), alpha=LETTERS)
    v = cx.str("v", 0, cx.bound(3, 4), alpha=LETTERS + DIGITS + ",.!- ")
    cx.assume(v == v.strip() and "  " not in v)
    cx.assume("<f>" in form or f == "f")
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    if fixed:
        cx.cover("named")
        cx.assume(v != n)
    tokens, got = colors(cx, "x" + form.replace("<n>", n).replace("<f>", f).replace("<v>", v) + "y", pre)
    cx.check_eq(tokens, [text("xy")] if len(tokens) == 1 else [text("x"), text("y")], "the texts around it, and nothing of it")
    cx.check_eq(got, {n: color(v, fixed or f)}, "the color")


# how a definition D takes effect at this place
PLACES = [
    "§", "{§}", "\\textbf{§}", "\\section{s §}", "a\\footnote{§ n}", "\\begin{center}§ c\\end{center}", "\\begin{figure}§\\end{figure}", "\\begin{tabular}{cc}§ a & b\\end{tabular}", "\\begin{unknown}§\\end{unknown}",
    "\\begin{itemize}\\item § a\\end{itemize}", "\\title{§ t}", "\\author{§ t}", "\\begin{abstract}§\\end{abstract}", "\\mbox{§}", "\\iftrue §\\else ¶\\fi", "\\iffalse ¶\\else §\\fi", "\\ifx\\pa\\pb §\\else ¶\\fi", "\\@ifundefined{pp}{§}{¶}", "\\IfFileExists{none}{¶}{¶}§",
    "\\newcommand{\\pq<i>}{§}\\pq<i>", "\\newcommand{\\pq<i>}[1]{\\definecolor{#1}{rgb}{<v>}}\\pq<i>{<n>}", "\\newcommand{\\pq<i>}[1]{\\definecolor{<n>}{rgb}{#1}}\\pq<i>{<v>}", "\\newcommand{\\pq<i>}[2]{#1{#2}§}\\pq<i>{\\textit}{x}", "\\def\\pq<i>{§}\\pq<i>{}", "\\newcommand{\\pq<i>}{¶}\\renewcommand{\\pq<i>}{§}\\pq<i>",
    "\\newenvironment{pe<i>}{§}{}\\begin{pe<i>}x\\end{pe<i>}", "\\newenvironment{pe<i>}{}{§}\\begin{pe<i>}x\\end{pe<i>}", "\\newtheorem{pt<i>}{T}\\begin{pt<i>}§\\end{pt<i>}", "\\begin{minipage}{2cm}§\\end{minipage}", "\\color{<n>}§", "\\begin{quote}§\\end{quote}", "\\caption{§ c}", "\\begin{small}§\\end{small}", "\\let\\pl<i>\\definecolor §",
]
# where it has none
NOWHERE = [
    "%¶\n", "\\begin{comment}¶\\end{comment}", "\\verb|¶|", "\\begin{verbatim}¶\\end{verbatim}", "\\begin{lstlisting}¶\\end{lstlisting}", "$¶$", "\\begin{equation}¶\\end{equation}", "\\begin{tikzpicture}¶\\end{tikzpicture}", "\\iffalse ¶\\fi ", "\\iftrue\\else ¶\\fi ",
    "\\newcommand{\\pz}{¶}", "\\newcommand{\\pz}[1]{¶#1}", "\\def\\pz#1{¶}", "\\newenvironment{pz}{¶}{¶}", "\\lstinline{¶}", "\\url{¶}",
]


@harness(
    bounds="a color defined in each of %d places (text, groups, titles, notes, floats, tables, lists, branches, macros, environments) before or after a definition of the same or of another color elsewhere, with values of <=1 symbolic letter or digit: the last one in the order of the document counts; and in each of %d places without effect; plain and preprocessed" % (len(PLACES), len(NOWHERE)),
    covers=["plain", "pre", "same", "other", "nowhere"],
)
def places(cx):
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    i = cx.pick("place", list(range(len(PLACES) + len(NOWHERE))))
    other = cx.pick("other", cx.bound(["§", "\\newcommand{\\po}[1]{\\definecolor{<n>}{rgb}{#1}}\\po{<v>}", "\\begin{center}§\\end{center}"], PLACES))
    same = cx.flag("same")
    first = cx.flag("first")
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    cx.cover("same" if same else "other")
    values = ["1" + s, s + "2"]
    names = ["ca", "ca" if same else "cb"]
    want = {}
    pieces = []
    # the macros of both have their own names
    for place, k in ((i, 0), (other, 1)):
        nowhere = place == i and k == 0 and i >= len(PLACES)
        form = (PLACES + NOWHERE)[i] if k == 0 else other
        form = form.replace("<i>", "xy"[k]).replace("<n>", names[k]).replace("<v>", values[k])
        form = form.replace("§", "\\definecolor{" + names[k] + "}{rgb}{" + values[k] + "}", 1 if "\\IfFile" not in form else 9)
        pieces.append(form.replace("¶", "\\definecolor{" + names[k] + "}{rgb}{9}"))
        if nowhere:
            cx.cover("nowhere")
    order = [0, 1] if first else [1, 0]
    for k in order:
        if not (k == 0 and i >= len(PLACES)):
            want[names[k]] = color(values[k])
    tokens, got = colors(cx, "w\n" + "\n".join([pieces[k] for k in order]) + "\nz", pre)
    cx.check_eq(got, want, "the colors in force at the end")


STEPS = [
    ("\\definecolor{<n>}{rgb}{<v>}", "set"), ("\\providecolor{<n>}{gray}{<v>}", "provide"), ("\\colorlet{<n>}{<m>}", "let"), ("\\colorlet{<n>}{<m>!<v>}", "mix"), ("{\\definecolor{<n>}{cmyk}{<v>}}", "cmyk"),
    ("\\newcommand{\\pc<i>}[1]{\\definecolor{<n>}{rgb}{#1}}\\pc<i>{<v>}", "set"), ("\\newcommand{\\pd<i>}{\\providecolor{<n>}{gray}{<v>}}\\pd<i>", "provide"), ("\\newcommand{\\pd<i>}[1]{\\colorlet{#1}{<m>}}\\pd<i>{<n>}", "let"),
]


@harness(
    bounds="sequences of 3 (thorough 4) definitions of two colors in %d forms (defining, providing, naming again, mixing; directly and in macros), values with one symbolic letter or digit, against a table of what each does; plain and preprocessed" % len(STEPS),
    covers=["plain", "pre"],
    max_ticks=400000,
)
def sequences(cx):
    n = cx.bound(3, 4)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    steps = [cx.pick("f%d" % i, STEPS if i else STEPS[:4]) for i in range(n)]
    names = [cx.pick("n%d" % i, ["ca", "cb"]) if i else "ca" for i in range(n)]
    cx.assume(cx.tier == "thorough" or not any([f[0].startswith("\\new") for f in steps[:-2]]))
    table = {}
    src = "w"
    for i, ((form, kind), name) in enumerate(zip(steps, names)):
        value = str(i) + s
        other = "cb" if name == "ca" else "ca"
        src += "\n" + form.replace("<n>", name).replace("<v>", value).replace("<m>", other).replace("<i>", "abcd"[i])
        if kind == "set":
            table[name] = color(value)
        elif kind == "cmyk":
            table[name] = color(value, "cmyk")
        elif kind == "provide" and name not in table:
            table[name] = color(value, "gray")
        elif kind == "let":
            table[name] = table.get(other, color(other, "named"))
        elif kind == "mix":
            table[name] = color(other + "!" + value, "named")
    tokens, got = colors(cx, src + "\nz", pre)
    cx.check_eq(got, table, "the colors in force at the end")


BODIES = [
    "<>", "\\section{<>} a", "\\textbf{<>} b", "$<>$ c", "\\begin{itemize}\\item <>\\end{itemize}", "\\begin{tabular}{c}<>\\end{tabular}", "\\cite{<>} \\ref{<>}", "\\begin{figure}\\includegraphics{<>}\\caption{<>}\\end{figure}",
    "\\verb|<>|", "\\begin{verbatim}<>\\end{verbatim}", "\\footnote{<>} d", "\\title{<>}", "\\href{<>}{u}", "\\begin{equation}<>\\label{<>}\\end{equation}", "\\unknown{<>}", "\\begin{unknown}<>\\end{unknown}",
]
HEADS = ["", "\\definecolor{ca}{rgb}{1,<>}", "\\usepackage{colors}", "\\usepackage{colors}\\definecolor{ca}{HTML}{<>}"]


def source(s, head, body):
    head = "\\documentclass{article}" + head.replace("<>", s) + "\n"
    return head + "\\begin{document}\n" + body.replace("<>", s) + "\n\\end{document}\n"


def colors_of(s, head):
    table = {}
    for piece in head.split("\\"):
        if piece.startswith("definecolor"):
            table["ca"] = color("1," + s) if "rgb" in piece else color(s, "HTML")
        elif piece.startswith("usepackage"):
            table["ca"] = color("." + s, "gray")
            table["cp"] = color("2", "rgb")
    return table


@harness(
    bounds="%d documents (text, headings, lists, tables, floats, notes, math, verbatim, references, links, unknown commands) x %d preambles with colors in it and in a package, around 1-2 symbolic characters (printable Latin-1 without TeX's special ones; quotes and control characters are escaped in JSON), processed as a file or a folder and saved: the file is JSON with the tokens that are built from the document, and its colors" % (len(BODIES), len(HEADS)),
    excludes="archives (see C20); a package that defines anew what the document has before it",
    covers=["file", "folder", "colors", "none"],
    max_ticks=600000,
)
def saved(cx):
    s = cx.str("s", 1, cx.bound(1, 2), alpha="".join([c for c in LATIN1 if c not in "\\{}[]()$&#^_~%|\"`'-<>\u0085\u00a0\u00ad" and c > " " and not "\x7f" <= c <= "\x9f"]))
    body = cx.pick("body", BODIES)
    head = cx.pick("head", cx.bound(HEADS[:1] + HEADS[2:], HEADS))
    way = cx.pick("way", ["file", "folder"])
    folder = cx.folder({"main.tex": source(s, head, body), "colors.sty": "\\ProvidesPackage{colors}\n\\definecolor{ca}{gray}{." + s + "}\\definecolor{cp}{rgb}{2}\n"})
    cx.cover(way)
    path = os.path.join(folder, "main.tex") if way == "file" else folder
    reader = TexReader(logger=cx.logger)
    result = reader.process(path)
    want = colors_of(s, head)
    cx.cover("colors" if want else "none")
    cx.check_eq(result.color_map, want, "colors of the result")
    alone = dumps(LatexParserThenBuild(cx, os.path.join(folder, "main.tex")))
    cx.check_eq(dumps(result.tokens), alone, "tokens of the result")
    out = os.path.join(folder, "results", "deep", "out.json")
    reader.save_to_json(result, Path(out) if cx.flag("as path") else out)
    with open(out, encoding="utf-8") as f:
        data = json.loads(f.read())
    cx.check_eq(sorted(data), ["color_map", "tokens"], "what the file holds")
    cx.check_eq(data["tokens"], alone, "tokens in the file")
    cx.check_eq(data["color_map"], want, "colors in the file")
    # again over it, with something else
    reader.save_to_json(ProcessingResult(tokens=result.tokens[:0], color_map=want), out)
    with open(out, encoding="utf-8") as f:
        data = json.loads(f.read())
    cx.check_eq(data, {"tokens": [], "color_map": want}, "what is saved last is in the file")


def LatexParserThenBuild(cx, path):
    from latex2json.structure.builder import TokenBuilder

    return TokenBuilder(logger=cx.logger).build(LatexParser(logger=cx.logger).parse_file(path))


@harness(
    bounds="two documents processed by one reader, with colors and a symbolic character each, saved in either order after both: each result has its own tokens and colors",
    covers=["first", "second"],
    max_ticks=600000,
)
def results(cx):
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    heads = [cx.pick("head0", HEADS[:2] + HEADS[3:]), cx.pick("head1", HEADS[:2] + HEADS[2:3])]
    bodies = [cx.pick("body0", BODIES[:4]), cx.pick("body1", BODIES[4:8])]
    texts = [s, s + "q"]
    folders = [
        cx.folder({"main.tex": source(t, h, b), "colors.sty": "\\definecolor{ca}{gray}{." + t + "}\\definecolor{cp}{rgb}{2}\n"})
        for t, h, b in zip(texts, heads, bodies)
    ]
    reader = TexReader(logger=cx.logger)
    got = [reader.process(os.path.join(f, "main.tex")) for f in folders]
    order = cx.pick("order", [[0, 1], [1, 0]])
    cx.cover("first" if order[0] == 0 else "second")
    for i in order:
        data = json.loads(reader.to_json(got[i]))
        own = TexReader(logger=cx.logger).process(os.path.join(folders[i], "main.tex"))
        cx.check_eq(data["tokens"], dumps(own.tokens), "the tokens of this document")
        cx.check_eq(data["color_map"], colors_of(texts[i], heads[i]), "the colors of this document")
