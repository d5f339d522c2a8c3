"""C28 loops, keys and boxes leave exactly their own content"""
from symtex.api import harness, LETTERS, LOWER, DIGITS
from hlib.common import parse, build, flat, spaced

CH = LETTERS + DIGITS + ".:;()=/*\"<>!?-+|@&[],"


def check(cx, src, want, pre=False, what="text"):
    """the words of the text, in tokens and JSON"""
    toks = parse(cx, src, pre)
    cx.check_eq(spaced(flat(toks)), spaced(want), what)
    cx.check_eq(spaced(flat(build(cx, toks))), spaced(want), what + " in the JSON")


HEADS = ["\\foreach \\x in ", "\\foreach\\x in", "\\foreach \\x/\\y in ", "\\foreach \\x [count=\\xi] in ", "\\foreach \\x [evaluate=\\x as \\z using {\\x+1}] in\n", "\\foreach \\x\nin "]
LISTINGS = ["{1,2}", "{%s}", "{1,...,%s}", "\\lst", "{a/{b,%s},c/d}", "{}", "{\\a{%s}}"]
BODIES = ["{%s}", " {%s{q}\\x}", "\n{%s \\foreach \\y in {1} {s}}", " \\foreach \\y in {1,2} {%s}", " \\node at (0,\\x) {%s;};", " \\draw (%s) -- (1,{2});", "{\\textbf{%s} $x$}", " \\foreach \\y in {1} \\draw[a] ({3*(\\x)},1);", "{\\{%s}", "{}", "{% }\n%s}"]
AFTER = ["%s", " text {%s} {q}", "\n%s {r} in {s}", " \\mbox{%s}", "; {%s}", " \\mbox{%s} {x}"]


def plain(src, s):
    return src.replace("%s", s).replace("\\mbox", "").replace("{", "").replace("}", "")


@harness(
    bounds="one loop with every combination of %d headers, %d lists, %d bodies (nested loops, nested and escaped braces, bodies without braces) and %d continuations on the same line with braces of their own, a symbolic character in each: all of the loop is left out and all of the rest stays" % (len(HEADS), len(LISTINGS), len(BODIES), len(AFTER)),
    covers=["done"],
)
def foreach(cx):
    head = cx.pick("head", cx.bound(HEADS[:2] + HEADS[4:5], HEADS))
    lst = cx.pick("list", cx.bound(LISTINGS[:1] + LISTINGS[3:5], LISTINGS))
    body = cx.pick("body", BODIES)
    after = cx.pick("after", cx.bound(AFTER[:3], AFTER))
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".:()=")
    t = cx.str("t", 1, 1, alpha=LETTERS + DIGITS + ".:(")
    if not body.endswith(";"):
        s = s + ";" if cx.flag("semicolon") else s
    cx.cover("done")
    src = "a " + head + lst.replace("%s", "3") + body.replace("%s", s) + after.replace("%s", t)
    check(cx, src, "a " + plain(after, t), cx.flag("pre"))


@harness(
    bounds="one to three loops of either kind one after another or inside braces or environments, text of one symbolic character before, between and after them; \\forloop with and without step",
    covers=["1", "2", "3"],
)
def loops(cx):
    n = cx.pick("n", [1, 2, 3])
    cx.cover(str(n))
    o, c = cx.pick("place", [("", ""), ("{\\bf ", "}"), ("\\begin{center}", "\\end{center}"), ("\\footnote{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\\fbox{", "}")])
    src, want = "", ""
    for i in range(n):
        t = cx.str("t%d" % i, 1, 1, alpha=LETTERS + ".;")
        kind = cx.pick("kind%d" % i, ["\\foreach \\x in {1,2} {u{v}}", "\\forloop{i}{1}{\\value{i} < 3}{u{v}}", "\\forloop[2]{i}{1}{i<3} {u}", "\\foreach \\x in {1} \\draw (u);"])
        src += t + " {x} " + kind + " "
        want += t + " x "
    check(cx, "w " + o + src + "{y}" + c + " e", "w " + want + "y e") if o in ("", "\\fbox{") else check_squeezed(cx, "w " + o + src + "{y}" + c + " e", "w " + want + "y e")


def check_squeezed(cx, src, want):
    toks = parse(cx, src)
    cx.check_eq("".join(spaced(all_text(toks)).split(" ")), "".join(spaced(want).split(" ")), "text")


def all_text(x):
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return all_text(x.get("content") or "")
    return " ".join([all_text(t) for t in x])


# ---- keys

# source of the value -> the value
VALUES = [("=%s", "%s"), (" = %s ", "%s"), ("={%s}", "%s"), ("={a,%s}", "a,%s"), ("={a=%s}", "a=%s"), ("=a %s", "a %s"), ("=a=%s", "a=%s"), ("={{%s}}", "{%s}"), ("=", ""), ("={}", ""), ("", None), ("=\\textbf{%s}", "%s"), ("=\\qm{%s,a}", "m%s,a"), ("= {a, %s} ", "a, %s"), ("=\n%s", "%s")]


@harness(
    bounds="a key with or without default and one or two keys set in one or two \\setkeys, in any order, each with each of %d forms of value (blanks, braces, commas, equals signs, empty, none, commands) with a symbolic character; the code with text on both sides of its argument; with and without preprocessing" % len(VALUES),
    covers=["one", "two", "default"],
)
def keys(cx):
    default = cx.pick("default", ["", "[d]", "[]", "[{d e}]"])
    dval = {"": "true", "[d]": "d", "[]": "", "[{d e}]": "d e"}[default]
    form, val = cx.pick("value", VALUES)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".:;()<>*")
    two = cx.pick("other", ["none", "before", "after", "again", "separate", "unknown", "other family"])
    cx.cover("one" if two == "none" else "two")
    if val is None:
        cx.cover("default")
        val = dval
    val = val.replace("%s", s).replace("{", "").replace("}", "")
    own = "< " + val + " >"
    src = "\\newcommand{\\qm}[1]{m#1}\\define@key{f}{ka}" + default + "{< #1 >}\\define@key{f}{kb}[n]{(#1,#1)}\\define@key{g}{ka}{no}w "
    setting = "ka" + form.replace("%s", s)
    if two == "before":
        src, want = src + "\\setkeys{f}{kb=x," + setting + "}", "(x,x)" + own
    elif two == "after":
        src, want = src + "\\setkeys{f}{" + setting + ", kb}", own + "(n,n)"
    elif two == "again":
        src, want = src + "\\setkeys{f}{ka=1," + setting + ",ka=2}", "< 1 >" + own + "< 2 >"
    elif two == "separate":
        src, want = src + "\\setkeys{f}{kb=2}, \\setkeys {f} {" + setting + "}", "(2,2), " + own
    elif two == "unknown":
        src, want = src + "\\setkeys{f}{kc=3," + setting + ",}", own
    elif two == "other family":
        src, want = src + "\\setkeys{g}{ka=3}\\setkeys{h}{ka}\\setkeys{f}{" + setting + "}", "no" + own
    else:
        src, want = src + "\\setkeys{f}{" + setting + "}", own
    check_words(cx, src + " e", "w " + want + " e", cx.flag("pre"))


@harness(
    bounds="a macro of any of two definition forms changed, once or twice, by the code of a key or of a macro with an argument, with a symbolic new value: uses before have the old value, uses after it the new one; with and without preprocessing",
    covers=["key", "macro"],
)
def changes(cx):
    first = cx.pick("first", ["\\newcommand{\\qa}{old}", "\\def\\qa{old}"])
    how = cx.pick("how", ["\\renewcommand{\\qa}{#1}", "\\def\\qa{#1}", "\\gdef\\qa{#1}", "\\let\\qa=#1", "\\renewcommand\\qa{(#1)}", "\\def\\qa{#1}\\def\\qb{\\qa!}"])
    key = cx.flag("key")
    cx.cover("key" if key else "macro")
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".:(")
    order = cx.pick("order", ["first", "last"])
    defs = [first, ("\\define@key{f}{k}{" + how + "}") if key else ("\\newcommand{\\set}[1]{" + how + "}")]
    if order == "last":
        defs = defs[::-1]
    call = (lambda v: "\\setkeys{f}{k=" + v + "}") if key else (lambda v: "\\set{" + v + "}")
    new = (lambda v: "(" + v + ")") if "(#1)" in how else (lambda v: v)
    tail, wtail = ("; \\qb", "; " + new("y") + "!") if "\\qb" in how else ("", "")
    src = "".join(defs) + "w \\qa, " + call(s) + "\\qa, " + call("y") + "\\qa" + tail + "; e"
    check(cx, src, "w old, " + new(s) + ", " + new("y") + wtail + "; e", cx.flag("pre"))


# ---- boxes

BOXES = ["\\fbox{%s}", "\\hbox{%s}", "\\vbox{%s}", "\\hbox to 3in{%s}", "\\hbox to2cm {%s}", "\\hbox spread 2pt{%s}", "\\vbox to \\hsize {%s}", "\\parbox{5cm}{%s}", "\\parbox[t][3cm][s]{5cm}{%s}", "\\makebox{%s}", "\\makebox[3cm]{%s}", "\\makebox[3cm][l]{%s}", "\\makebox(0,0){%s}",
         "\\makebox(2,3)[l]{%s}", "\\framebox{%s}", "\\framebox[3cm][l]{%s}", "\\framebox(1,2){%s}", "\\raisebox{2pt}{%s}", "\\raisebox{2pt}[1pt][2pt]{%s}", "\\colorbox{red}{%s}", "\\colorbox[rgb]{1,0,0}{%s}", "\\fcolorbox{red}{blue}{%s}", "\\fcolorbox[rgb]{1,0,0}{0,1,0}{%s}",
         "\\fcolorbox[rgb]{1,0,0}[rgb]{0,1,0}{%s}", "\\scalebox{2}{%s}", "\\scalebox{2}[3]{%s}", "\\mbox{%s}", "\\pbox{3cm}{%s}", "\\pbox[b]{3cm}{%s}", "\\resizebox{1cm}{!}{%s}", "\\resizebox*{1cm}{!}{%s}", "\\rotatebox{90}{%s}", "\\rotatebox[origin=c]{90}{%s}", "\\adjustbox{a=b}{%s}"]
INNER = [("%s", "%s"), ("{%s} b", "%s b"), ("%s \\fbox{b}", "%s b"), ("\\textbf{%s} c", "%s c"), ("%s\\'e", "%sé"), ("\\{%s\\}", "{%s}"), ("a %s", "a %s"), (" %s ", " %s "), ("%s\n", "%s "), (" %s \\textbf{b}", " %sb"), ("", ""), (" a %s", " a %s")]
AROUND = [("w ", " e", "w ", " e"), ("w", "e", "w", "e"), ("w\\ ", "\\ e", "w ", " e"), ("w\n", "\ne", "w ", " e"), ("w \\mbox{p} ", " {\\it q} e", "w p ", " q e"), ("w ", "[x] {y}", "w ", "[x] y"), ("w $x$ ", " (2)", "w <x> ", " (2)"), ("w{\\bf b} ", ", e", "wb ", ", e")]


@harness(
    bounds="every box command in every form of its arguments (%d) with each of %d contents and %d texts around it, a symbolic character in each: content and text around stay, apart where they are apart; with and without preprocessing" % (len(BOXES), len(INNER), len(AROUND)),
    covers=["done"],
)
def boxes(cx):
    box = cx.pick("box", BOXES)
    isrc, iwant = cx.pick("inner", cx.bound(INNER[:3] + INNER[5:9], INNER))
    o, c, wo, wc = cx.pick("around", cx.bound(AROUND[:2] + AROUND[5:6], AROUND))
    s = cx.str("s", 1, 1, alpha=CH)
    pre = cx.flag("pre")
    # a minipage-like box beside an equation
    cx.cover("done")
    check_words(cx, o + box.replace("%s", isrc.replace("%s", s)) + c, wo + iwant.replace("%s", s) + wc, pre)


def check_words(cx, src, want, pre):
    # beside what is not text, blanks may fall away
    if "<" in want and "<x>" in want or "it q" in src or "\\bf" in src or "\\textbf" in src:
        toks = parse(cx, src, pre)
        cx.check_eq("".join(spaced(flat(toks)).split(" ")), "".join(spaced(want).split(" ")), "text")
    else:
        check(cx, src, want, pre)


@harness(
    bounds="boxes of any two kinds inside each other (%d x %d) with a symbolic character at each level" % (len(BOXES), len(BOXES)),
    covers=["done"],
)
def nested(cx):
    outer = cx.pick("outer", BOXES)
    inner = cx.pick("inner", cx.bound(BOXES[::4], BOXES))
    a = cx.str("a", 1, 1, alpha=LETTERS + ".[")
    b = cx.str("b", 1, 1, alpha=LETTERS + ".")
    cx.cover("done")
    check(cx, "w " + outer.replace("%s", a + " " + inner.replace("%s", b) + " c") + " e", "w " + a + " " + b + " c e")


NAMES = ["\\bx", "7"]
SETS = ["\\setbox%n=\\hbox{%s}", "\\setbox%n\\hbox{%s}", "\\setbox %n = \\vbox to 2cm{%s}", "\\sbox{%n}{%s}", "\\sbox%n{%s}", "\\savebox{%n}{%s}", "\\savebox{%n}[2cm]{%s}", "\\savebox{%n}[2cm][l]{%s}", "\\savebox{%n}(2,3)[l]{%s}", "\\global\\setbox%n=\\fbox{%s}"]
USES = ["\\usebox{%n}", "\\usebox%n", "\\copy%n", "\\unhcopy%n", "\\box%n", "\\unhbox%n", "\\unvbox %n"]


@harness(
    bounds="histories of 3 (thorough: 4) steps over a named and a numbered box, each step sets a box to a symbolic or empty text in one of %d ways, copies one to the other, or uses it in one of %d ways: each use yields what the box holds, the TeX primitives empty it" % (len(SETS), len(USES)),
    covers=["used", "emptied", "set anew"],
)
def saved(cx):
    n = cx.bound(3, 4)
    form = cx.pick("form", cx.bound(SETS[1::3], SETS))
    use = cx.pick("use", cx.bound(USES[1:6:2] + USES[4:5], USES))
    state = {"\\bx": "", "7": ""}
    src, want = "\\newsavebox{\\bx}w ", "w "
    for i in range(n):
        name = cx.pick("name%d" % i, NAMES)
        op = cx.pick("op%d" % i, ["set", "use"] if i == 0 else ["set", "use", "clear", "copy"])
        other = "7" if name == "\\bx" else "\\bx"
        if op == "set":
            a = cx.str("a%d" % i, 1, 1, alpha=LETTERS + ".")
            if state[name] != "":
                cx.cover("set anew")
            src += form.replace("%n", name).replace("%s", a + " q") + ";"
            state[name] = a + " q"
        elif op == "clear":
            src += form.replace("%n", name).replace("%s", "") + ";"
            state[name] = ""
        elif op == "copy":
            src += "\\setbox" + name + "=\\copy" + other + " ;"
            state[name] = state[other]
        else:
            src += use.replace("%n", name) + ";"
            want += state[name]
            cx.cover("used")
            if "copy" not in use and "use" not in use:
                if state[name] != "":
                    cx.cover("emptied")
                state[name] = ""
        want += ";"
    for name in NAMES:
        src += "\\usebox{" + name + "};"
        want += state[name] + ";"
    toks = parse(cx, src, cx.flag("pre"))
    cx.check_eq("".join(spaced(flat(toks)).split(" ")), "".join(spaced(want).split(" ")), "text")


STORED = [("$%s$", "<%s>"), ("\\textbf{%s}", "%s"), ("\\includegraphics{%s}", "%s"), ("{\\bf %s} a", "%sa"), ("\\begin{tabular}{c}%s\\end{tabular}", "%s"), ("\\ref{%s}", "%s"), ("\\qm{%s}", "m%s"), ("\\fbox{%s}", "%s"), ("\\footnote{%s}", "%s")]


@harness(
    bounds="a saved box with each of %d contents with a symbolic character, used twice: the same tokens at each use, and they are those of the content itself" % len(STORED),
    covers=["done"],
)
def stored(cx):
    src, _ = cx.pick("content", STORED)
    how = cx.pick("how", ["\\sbox{\\bx}{%s}", "\\savebox{\\bx}[2cm]{%s}", "\\setbox\\bx=\\hbox{%s}", "\\setbox\\bx\\vbox to 3cm{%s}"])
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS + ".")
    cx.cover("done")
    c = src.replace("%s", s)
    pre = "\\newcommand{\\qm}[1]{m#1}"
    direct = parse(cx, pre + c)
    for t in direct:
        if t.get("type") == "footnote":
            cx.assume(False)
    twice = parse(cx, pre + how.replace("%s", c) + "\\usebox{\\bx}\\section{x}\\usebox{\\bx}")
    at = [i for i, t in enumerate(twice) if t.get("type") == "section"]
    cx.check(len(at) == 1, "the section between the uses is there")
    cx.check_eq(twice[: at[0]], direct, "first use")
    cx.check_eq(twice[at[0]].get("content", []) if twice[at[0]].get("content") else twice[at[0] + 1 :], direct, "second use")


def styles_of(x, inherited=()):
    """text with the styles in force at each character"""
    out = []
    if isinstance(x, dict):
        st = tuple(inherited) + tuple([s for s in x.get("styles") or [] if s not in inherited])
        c = x.get("content")
        if isinstance(c, str):
            return [(ch, sorted(set(st))) for ch in c if ch not in " \n"]
        return styles_of(c or [], st)
    for t in x:
        out += styles_of(t, inherited)
    return out


FILLS = [("%s", []), ("\\textit{%s}", ["italic"]), ("{%s}", []), ("{\\bf %s}", ["bold"]), ("\\fbox{%s}", []), ("$%s$", [])]
STYLED = [("\\textbf{%u}", "bold"), ("\\textbf{q %u}", "bold"), ("{\\sc %u}", "small-caps"), ("\\textcolor{red}{%u}", "color=red"), ("\\emph{\\mbox{%u}}", "italic"), ("\\underline{%u}", "underline"), ("%u", None)]


@harness(
    bounds="a named or numbered box with each of %d contents used three times, each time plain or in one of %d styles, a symbolic character in it: each use has the styles of the box and of its own place only" % (len(FILLS), len(STYLED)),
    covers=["done"],
)
def uses(cx):
    fill, own = cx.pick("fill", FILLS)
    s = cx.str("s", 1, 1, alpha=LETTERS + DIGITS)
    b = cx.pick("box", [("\\newsavebox{\\bx}\\sbox{\\bx}{%s}", "\\usebox{\\bx}"), ("\\newbox\\bx\\setbox\\bx=\\hbox{%s}", "\\copy\\bx"), ("\\setbox3=\\hbox{%s}", "\\unhcopy3")])
    src, want = b[0].replace("%s", fill.replace("%s", s)), []
    for i in range(3):
        o, st = cx.pick("use%d" % i, STYLED)
        src += " " + o.replace("%u", b[1]) + ";"
        if "q" in o:
            want.append(("q", [st]))
        want.append((s, sorted(set(own + ([st] if st else [])))))
        want.append((";", []))
    cx.cover("done")
    toks = parse(cx, src)
    cx.check_eq(styles_of(toks), want, "text and styles")
    cx.check_eq(styles_of(build(cx, toks)), want, "text and styles in the JSON")


BREAKS = ["\n", " \n ", "\n\n", " "]


@harness(
    bounds="an \\mbox with two words parted by a line end or blank line and with a style, reference or math before, between or after them: one line, the words apart",
    covers=["done"],
)
def lines(cx):
    br = cx.pick("br", BREAKS)
    a = cx.str("a", 1, 1, alpha=LOWER + DIGITS)
    b = cx.str("b", 1, 1, alpha=LOWER + DIGITS)
    x = cx.pick("x", ["", "\\textbf{X}", "$X$", "\\ref{X}", "\\fbox{X}"])
    pos = cx.pick("pos", ["before", "between", "after"])
    body = {"before": x + " " + a + br + b, "between": a + br + b + " " + x + " " + a + br + b, "after": a + br + b + " " + x}[pos]
    cx.cover("done")
    toks = parse(cx, "w \\mbox{" + body + "} e", cx.flag("pre"))
    words = []
    for t in toks:
        if t.get("type") == "text" and not t.get("styles"):
            cx.check("\n" not in t["content"], "one line")
            words += [w for w in t["content"].split(" ") if w and w != "X"]
    cx.check_eq(words, ["w"] + ([a, b, a, b] if pos == "between" else [a, b]) + ["e"], "words")
