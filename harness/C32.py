"""C32 floats keep their captions, graphics and parts"""
from symtex.api import harness, LETTERS, DIGITS, PLAIN
from hlib import forms
from hlib.common import parse, build_tex, text, walk, flat

# float, its arguments, and what it becomes
FLOATS = [
    ("figure", "", "figure", None),
    ("table", "", "table", None),
    ("figure*", "", "figure", None),
    ("table*", "", "table", None),
    ("wrapfigure", "{r}{<>cm}", "figure", ["r", "<>cm"]),
    ("wraptable", "{r}{<>cm}", "table", ["r", "<>cm"]),
    ("sidewaysfigure", "", "figure", None),
    ("sidewaystable", "", "table", None),
    ("algorithm", "", "algorithm", None),
]


def floated(name, kind, content, args=None):
    token = {"type": kind, "name": name.rstrip("*"), "numbered": True}
    if args:
        token["args"] = args
    token["content"] = content
    return token


def caption(content, **more):
    return dict({"type": "caption", **more}, content=[text(content)] if isinstance(content, str) else content)


def graphics(path):
    return {"type": "includegraphics", "content": path}


@harness(
    bounds="captions of <=3 (thorough 4) symbolic characters (letters, digits, blanks, punctuation), with and without a star and a short caption of <=1 symbolic character, in each of %d floats; plain and preprocessed" % len(FLOATS),
    covers=["plain", "pre", "short", "alone"],
    max_ticks=400000,
)
def captions(cx):
    s = cx.str("s", 1, cx.bound(3, 4), alpha="ab01 .,;:()-=+?!/'[]@*")
    form = cx.pick("form", ["\\caption{<>}", "\\caption*{<>}", "\\caption[~]{<>}", "\\caption [] {<>}", "\\subcaption{<>}"])
    name, args, kind, kept = cx.pick("float", cx.bound(FLOATS[:3] + FLOATS[-1:], FLOATS))
    short = cx.str("o", 0, 1, alpha="ab {},.*[") if "~" in form else ""
    # braces and brackets in it come in pairs
    cx.assume("{" not in short and "}" not in short and "[" not in short)
    cx.cover("short" if "~" in form else "alone")
    cx.assume("--" not in s and "''" not in s and s == s.strip() and "  " not in s and s != "")
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    src = "x\\begin{" + name + "}" + args.replace("<>", "2") + form.replace("<>", s).replace("~", short) + "\\end{" + name + "}y"
    want = floated(name, kind, [caption(s)], [a.replace("<>", "2") for a in kept] if kept else None)
    cx.check_eq(parse(cx, src, pre), [text("x"), want, text("y")], "the float with its caption between the texts")


# arguments of floats, which say where and how large it is
PLACES = [
    ("figure", ["", "[<>]", "[!<>]", " [<>]", "[]", "\n[<>]\n"], [""], "figure", []),
    ("table", ["", "[<>]", "[!<>]", "\n[<>]\n"], [""], "table", []),
    ("figure*", ["", "[<>]", "[!<>]"], [""], "figure", []),
    ("sidewaysfigure", ["", "[<>]"], [""], "figure", []),
    ("sidewaystable", ["", "[<>]"], [""], "table", []),
    ("algorithm", ["", "[<>]", "[!<>]"], [""], "algorithm", []),
    ("wrapfigure", ["", "[<>]"], ["{<>}{2cm}", "{<>}[2pt]{2cm}", "{<>} {2cm}", "{<>}[<>]{2cm}"], "figure", ["<>", "2cm"]),
    ("wraptable", ["", "[<>]"], ["{<>}{2cm}", "{<>}[2pt]{2cm}"], "table", ["<>", "2cm"]),
    ("subfigure", ["", "[<>]", "[t][<>]", "[t][2cm][<>]", "\n[<>]"], ["{<>}", " {<>}", "\n{<>cm}"], "subfigure", ["*"]),
    ("subtable", ["", "[<>]", "[t][<>]", "[t][2cm][<>]"], ["{<>}", "{<>cm}"], "table", ["*"]),
    ("minipage", ["", "[<>]", "[t][<>]", "[t][2cm][<>]"], ["{<>}", "{<>cm}"], "group", ["*"]),
    ("adjustbox", [""], ["{<>}", "{width=<>}"], "group", ["*"]),
]


@harness(
    bounds="%d floats and boxes with their optional and mandatory arguments in the usual spellings, which hold 1-2 (thorough 3) symbolic letters, digits and signs, before a text, a graphic, a caption or a group; plain and preprocessed" % len(PLACES),
    covers=["plain", "pre"],
)
def arguments(cx):
    name, optional, mandatory, kind, kept = cx.pick("env", PLACES)
    s = cx.str("s", 1, cx.bound(2, 3), alpha=LETTERS + DIGITS + "!,=./+-")
    opt = cx.pick("optional", optional)
    arg = cx.pick("mandatory", mandatory)
    inner, want = cx.pick("inner", [("q", [text("q")]), ("\\includegraphics{g}", [graphics("g")]), ("\n\\caption[o]{q}", [caption("q")]), ("{q}\\includegraphics[r]{g}", None), ("[q] r", [text("[q] r")]), (" [q]\\includegraphics{g}", [text("[q]"), graphics("g")]), ("(q) r", [text("(q) r")])])
    # otherwise the bracket is the argument
    cx.assume(inner.strip()[0] != "[" or (opt + arg).strip() != "")
    pre = cx.flag("pre")
    cx.cover("pre" if pre else "plain")
    cx.assume("--" not in s)
    got = parse(cx, "x\\begin{" + name + "}" + (opt + arg).replace("<>", s) + inner + "\\end{" + name + "}y", pre)
    cx.check_eq(len(got), 3, "a float between the texts")
    cx.check_eq([got[0], got[2]], [text("x"), text("y")], "texts around it")
    cx.check_eq(got[1]["type"], kind, "what it is")
    if want is not None:
        cx.check_eq(got[1]["content"], want, "its content without its arguments")
    else:
        cx.check_eq(flat(got[1]["content"][:-1]).strip(), "q", "its text without its arguments")
        cx.check_eq(got[1]["content"][-1], graphics("g"), "its graphic")
    if kept:
        values = [k.replace("<>", s) for k in kept]
        if kept == ["*"]:
            values = [arg.strip()[1:-1].replace("<>", s)]
        cx.check_eq(got[1].get("args"), values, "its arguments")


GRAPHICS = [
    "\\includegraphics<o>{<>}", "\\includegraphics*<o>{<>}", "\\includegraphics <o> {<>}", "\\centering\\includegraphics<o>{<>}", "\\centerline{\\includegraphics<o>{<>}}",
    "\\begin{center}\\includegraphics<o>{<>}\\end{center}", "\\fbox{\\includegraphics<o>{<>}}", "\\mbox{\\includegraphics<o>{<>}}", "\\resizebox{1cm}{!}{\\includegraphics<o>{<>}}",
    "\\scalebox{.5}{\\includegraphics<o>{<>}}", "\\rotatebox{90}{\\includegraphics<o>{<>}}", "\\raisebox{2pt}{\\includegraphics<o>{<>}}", "\\fcolorbox{red}{blue}{\\includegraphics<o>{<>}}",
    "\\begin{overpic}<o>{<>}\\put(1,2){z}\\end{overpic}", "{\\includegraphics<o>{<>}}", "\\hspace{1cm}\\includegraphics<o>{<>}\\hfill", "\\vspace*{-1em}\n\\includegraphics<o>{<>}\n\\vspace{2pt}", "\\textbf{\\includegraphics<o>{<>}}",
    "\\small\\includegraphics<o>{<>}", "\\parbox{2cm}{\\includegraphics<o>{<>}}", "\\makebox[2cm]{\\includegraphics<o>{<>}}", "\\noindent\\includegraphics<o>{<>}", "\\adjustbox{max width=2cm}{\\includegraphics<o>{<>}}",
    "\\href{u}{\\includegraphics<o>{<>}}", "\\footnotesize\n\n\\includegraphics<o>{<>}\n\n", "\\begin{minipage}{2cm}\\includegraphics<o>{<>}\\end{minipage}", "\\begin{tabular}{c}\\includegraphics<o>{<>}\\end{tabular}", "\\begin{adjustbox}{width=1cm}\\includegraphics<o>{<>}\\end{adjustbox}",
    "\\subfloat{\\includegraphics<o>{<>}}", "\\subfloat[z]{\\includegraphics<o>{<>}}", "\\begin{subfigure}{1cm}\\includegraphics<o>{<>}\\end{subfigure}", "\\begin{flushright}\\includegraphics<o>{<>}\\end{flushright}"
]
OPTIONS = ["", "[width=2cm]", "[width=0.5\\textwidth,height={3cm}]", "[trim={0 0 0 1cm},clip]", "[angle=90][]", "[]", "[width=\\dimexpr 2cm]", "[\nwidth=2cm,\n scale=.4]", "[1,2][3,4]"]


@harness(
    bounds="graphics with names of 1-3 (thorough 4) symbolic characters (letters, digits, `_-./` and blanks within) and %d kinds of options, in %d places of a figure before its caption; plain, preprocessed and built" % (len(OPTIONS), len(GRAPHICS)),
    covers=["plain", "pre", "built"],
)
def images(cx):
    s = cx.str("s", 1, cx.bound(3, 4), alpha="aZ09_-./ ")
    place = cx.pick("place", GRAPHICS)
    option = cx.pick("option", OPTIONS)
    cx.assume(s == s.strip() and "  " not in s and "--" not in s)
    mode = cx.pick("mode", ["plain", "pre", "built"])
    cx.cover(mode)
    # one of each is enough for most places
    cx.assume(place in GRAPHICS[:2] or cx.tier == "thorough" or option in OPTIONS[:3])
    src = "x\\begin{figure}" + place.replace("<o>", option).replace("<>", s) + "\\caption{c}\\end{figure}y"
    if mode == "built":
        got = build_tex(cx, src)
        cx.check_eq([t["content"] for t in walk(got) if t.get("type") == "includegraphics"], [s], "the graphic in the output")
        return
    got = parse(cx, src, mode == "pre")
    cx.check_eq([t["type"] for t in got], ["text", "figure", "text"], "a figure between the texts")
    found = [t["content"] for t in walk(got[1]["content"]) if t.get("type") == "includegraphics"]
    cx.check_eq(found, [s], "the graphic in the figure")
    titles = [flat(t["content"]) for t in walk(got[1]["content"]) if t.get("type") == "caption" and flat(t["content"]) != "z"]
    cx.check_eq(titles, ["c"], "its caption")
    cx.check(option == "" or "cm" not in flat(got), "no option in the text")


# a part of a figure with its caption <> and its graphic
PARTS = [
    ("\\begin{subfigure}{2cm}\\includegraphics{g}\\caption{<>}\\end{subfigure}", "subfigure"),
    ("\\begin{subfigure}[b]{.5\\textwidth}\n\\centering\n\\includegraphics[width=\\textwidth]{g}\n\\caption[o]{<>}\n\\end{subfigure}", "subfigure"),
    ("\\begin{subtable}[b]{2cm}\\includegraphics{g}\\caption{<>}\\end{subtable}", "table"),
    ("\\begin{minipage}[t]{2cm}\\includegraphics{g}\\caption{<>}\\end{minipage}", "group"),
    ("\\begin{minipage}{2cm}\\includegraphics{g}\\subcaption{<>}\\end{minipage}", "group"),
    ("\\subfloat[<>]{\\includegraphics{g}}", "group"),
    ("\\subfloat[o][<>]{\\includegraphics{g}}", "group"),
    ("\\subfloat[o] [<>]\n {\\includegraphics{g}}", "group"),
    ("\\subfigure[<>] {\\includegraphics{g}}", "group"),
    ("\\subtable[<>]{\\includegraphics{g}}", "group"),
    ("\\subfloat [<>] {\n\\includegraphics[width=2cm]{g}\n}", "group"),
    ("\\subcaptionbox{<>}{\\includegraphics{g}}", "group"),
    ("\\subcaptionbox[o]{<>}{\\includegraphics{g}}", "group"),
    ("\\subcaptionbox[o]{<>}[2cm]{\\includegraphics{g}}", "group"),
    ("\\subcaptionbox{<>}[2cm][c]{\\includegraphics{g}}", "group"),
    ("\\subcaptionbox [o] {<>} [2cm] [c] {\\includegraphics{g}}", "group"),
    ("\\subcaptionbox*{<>}{\\includegraphics{g}}", "group"),
]


@harness(
    bounds="figures and tables of 1-3 parts in %d spellings (subfigure, subtable, minipage, subfloat, subfigure and subcaptionbox commands), each with a caption of 1-2 (thorough 3) symbolic characters, with usual separators between them and the caption of the whole first or last; plain and preprocessed" % len(PARTS),
    covers=["plain", "pre", "first", "last", "three"],
)
def parts(cx):
    s = cx.str("s", 1, cx.bound(2, 3), alpha="ab1 .,-:()")
    cx.assume(s == s.strip() and "--" not in s and "  " not in s)
    form, kind = cx.pick("part", PARTS)
    name = cx.pick("name", ["figure", "table*"])
    between = cx.pick("between", ["", "\\hfill", "\\\\[2pt]\n", "~", "\n\n\\medskip", " & "])
    n = cx.pick("n", [1, 2, 3])
    place = cx.pick("place", ["first", "last"])
    pre = cx.flag("pre")
    cx.assume(between == "" or n > 1)
    cx.cover(place)
    cx.cover("pre" if pre else "plain")
    if n == 3:
        cx.cover("three")
    names = [s, "p", "q"][:n]
    body = between.join(form.replace("<>", c) for c in names)
    whole = "\\caption[all]{whole}"
    src = "x\\begin{" + name + "}" + (whole + body if place == "first" else body + whole) + "\\end{" + name + "}y"
    got = parse(cx, src, pre)
    cx.check_eq([t["type"] for t in got], ["text", name.rstrip("*"), "text"], "one float between the texts")
    inner = [t for t in got[1]["content"] if t["type"] != "text"]
    found = [t for t in inner if t["type"] != "caption"]
    cx.check_eq([t["type"] for t in found], [kind] * n, "its parts")
    cx.check_eq([flat(t["content"]) for t in inner if t["type"] == "caption"], ["whole"], "its own caption")
    cx.check_eq(inner[0 if place == "first" else -1]["type"], "caption", "where its caption is")
    for part, c in zip(found, names):
        cx.check_eq([flat(t["content"]) for t in walk(part["content"]) if t.get("type") == "caption"], [c], "the caption of the part")
        cx.check_eq([t["content"] for t in walk(part["content"]) if t.get("type") == "includegraphics"], ["g"], "the graphic of the part")


# what captions and footnotes contain is parsed like everything else
INNER = [
    "<>", "a <> b", "\\textbf{<>}", "{\\it <>}", "$x_<>$", "a $x$ <>", "\\cite{<>}", "\\ref{<>}", "\\url{<>}", "\\emph{<>} a", "\\'e<>", "\\\"{a}<>", "a~<>", "``<>''", "<>\\footnote{f}", "\\textcolor{red}{<>}", "\\href{u}{<>}",
    "\\mbox{<>}", "a\\\\ <>", "\\unknown{<>}", "[<>]", "a]<>[", "(\\subref{<>})", "\\%<>\\&", "\\{<>\\}", "\\underline{<>}$y$", "a\\label{<>}", "\\(<>\\)", "\\verb|<>|", "\\texttt{<>}",
]
HOLDERS = [
    ("\\caption{<>}", "caption", {}),
    ("\\caption[s]{<>}", "caption", {}),
    ("\\caption*{<>}", "caption", {}),
    ("\\captionof{figure}{<>}", "caption", {"title": "figure"}),
    ("\\captionof{table}[s]{<>}", "caption", {"title": "table"}),
    ("\\captionof*{figure}{<>}", "caption", {"title": "figure"}),
    ("\\subcaption{<>}", "caption", {}),
    ("\\footnote{<>}", "footnote", {}),
    ("\\footnote[3]{<>}", "footnote", {}),
    ("\\footnotetext{<>}", "footnote", {}),
    ("\\footnotetext[3]{<>}", "footnote", {}),
    ("\\thanks{<>}", "footnote", {}),
]


@harness(
    bounds="%d kinds of content (styles, math, references, links, accents, quotes, notes, brackets, unknown commands) around 1-2 symbolic letters and digits in %d spellings of captions and footnotes, between texts or in a figure; the content is what it is on its own; plain and preprocessed" % (len(INNER), len(HOLDERS)),
    covers=["plain", "pre", "text", "float"],
)
def contents(cx):
    holder, kind, more = cx.pick("holder", HOLDERS)
    inner = cx.pick("inner", INNER)
    s = cx.str("s", 1, cx.bound(1, 2), alpha=LETTERS + DIGITS)
    where = cx.pick("where", ["text", "float"])
    pre = cx.flag("pre")
    cx.cover(where)
    cx.cover("pre" if pre else "plain")
    cx.assume(cx.tier == "thorough" or where == "float" or holder in ("\\caption{<>}", "\\captionof{table}[s]{<>}", "\\footnote[3]{<>}", "\\footnotetext{<>}"))
    inner = inner.replace("<>", s)
    alone = parse(cx, inner, pre)
    token = dict({"type": kind, **more}, content=[{k: v for k, v in t.items() if k != "labels"} for t in alone])
    call = holder.replace("<>", inner)
    if where == "text":
        got = parse(cx, "x" + call + "y", pre)
        cx.check_eq([t["type"] for t in got], ["text", kind, "text"], "one token between the texts")
        cx.check_eq([got[0], got[2]], [text("x"), text("y")], "texts around it")
        token_got = got[1]
    else:
        got = parse(cx, "\\begin{figure}\\includegraphics{g}" + call + "\\end{figure}", pre)
        cx.check_eq([t["type"] for t in got], ["figure"], "one figure")
        cx.check_eq(got[0]["content"][0], graphics("g"), "its graphic")
        cx.check_eq(len(got[0]["content"]), 2, "its content")
        token_got = got[0]["content"][1]
    labels = token_got.pop("labels", [])
    cx.check_eq([t["content"] for t in token_got["content"] if t.get("type") != "label"], [t["content"] for t in token["content"] if t.get("type") != "label"], "what is in it")
    cx.check_eq({k: v for k, v in token_got.items() if k != "content"}, {k: v for k, v in token.items() if k != "content"}, "the token itself")
    cx.check_eq(labels, [s] if "\\label" in inner else [], "labels in it")


@harness(
    bounds="sequences of 2-3 floats of 5 kinds with and without captions, captions and footnotes outside of them and texts, each with a symbolic character; as a built document in order",
    covers=["built"],
)
def sequences(cx):
    kinds = [
        "\\begin{figure}\\includegraphics{g<>}\\caption{<>}\\end{figure}",
        "\\begin{table}[h]\\caption{<>}\\begin{tabular}{c}t<>\\end{tabular}\\end{table}",
        "\\begin{wrapfigure}[2]{l}[1pt]{2cm}\\includegraphics{g<>}\\end{wrapfigure}",
        "\\begin{algorithm}\\caption{<>}\\begin{algorithmic}\\State g<>\\end{algorithmic}\\end{algorithm}",
        "a<>\\footnote{<>}",
        "\\captionof{figure}{<>}",
    ]
    n = cx.pick("n", [2, 3])
    picks = [cx.pick("k%d" % i, kinds) for i in range(n)]
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    values = [s + "u", "v" + s, "w"][:n]
    sep = cx.pick("sep", ["\n\n", " text "])
    cx.cover("built")
    got = build_tex(cx, sep.join(k.replace("<>", v) for k, v in zip(picks, values)))
    want_notes, want_graphics = [], []
    for k, v in zip(picks, values):
        for piece in k.split("<>")[1:]:
            pass
        if "caption" in k:
            want_notes.append(("caption", v))
        if "footnote" in k:
            want_notes.append(("footnote", v))
        if "graphics" in k:
            want_graphics.append("g" + v)
    found = [(t["type"], flat(t["content"])) for t in walk(got) if t.get("type") in ("caption", "footnote")]
    cx.check_eq(found, want_notes, "captions and footnotes in order")
    cx.check_eq([t["content"] for t in walk(got) if t.get("type") == "includegraphics"], want_graphics, "graphics in order")
