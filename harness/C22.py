"""C22 accents and symbol commands yield their characters"""
import unicodedata
from symtex.api import harness, LOWER, UPPER
from hlib.common import parse, flat, text, of_type

# accent command -> combining character (LaTeX's documented meaning)
ACCENTS = {
    "'": 0x301, "`": 0x300, '"': 0x308, "^": 0x302, "~": 0x303, "=": 0x304, ".": 0x307,
    "c": 0x327, "H": 0x30B, "k": 0x328, "b": 0x331, "d": 0x323, "r": 0x30A, "u": 0x306, "v": 0x30C,
    "vec": 0x20D7, "dot": 0x307, "hat": 0x302, "check": 0x30C, "breve": 0x306, "acute": 0x301, "grave": 0x300,
    "tilde": 0x303, "bar": 0x305, "ddot": 0x308,
}
NAMES = sorted(ACCENTS)
# the accent alone
ALONE = {"'": "\u00b4", "`": "`", '"': "\u00a8", "^": "^", "~": "~", "=": "\u00af", ".": "\u02d9",
         "c": "\u00b8", "H": "\u02dd", "k": "\u02db", "r": "\u02da", "u": "\u02d8", "v": "\u02c7"}
LETTERS_Q = "aeiouncszlgtAEIOUCSZ"
LETTERS_T = LOWER + UPPER
TAIL = "ab 1.,-)"


def tail(cx, alpha=TAIL):
    """0..1 (thorough 0..2) symbolic characters, no two blanks in a row (runs of blanks are one blank)"""
    z = cx.str("z", 0, cx.bound(1, 2), alpha=alpha)
    cx.assume(z != "  ")
    return z


def accented(c, name):
    return unicodedata.normalize("NFC", c + chr(ACCENTS[name]))


def one(c, opts):
    """the character as one of these"""
    for o in opts:
        if c == o:
            return o


@harness(
    bounds="25 accent commands on 20 letters (thorough: all 52), argument in braces (with or without blanks), after a blank, or directly; 0..1 (thorough 0..2) symbolic characters around, another letter or further accents in the same braces",
    covers=["braces", "blank in braces", "blank", "direct", "group", "two letters"],
)
def accent(cx):
    name = cx.pick("name", NAMES)
    c = cx.str("c", 1, 1, alpha=cx.bound(LETTERS_Q, LETTERS_T))
    c = one(c, cx.bound(LETTERS_Q, LETTERS_T))
    word = name[0].isalpha()
    form = cx.pick("form", ["braces", "blank in braces", "blank", "direct", "group", "two letters", "two accents", "blank braces"])
    cx.assume(not (word and form == "direct"))
    cx.cover({"blank braces": "braces", "two accents": "two letters"}.get(form, form))
    a = cx.str("a", 0, 1, alpha=TAIL)
    z = tail(cx)
    cmd = "\\" + name
    want = accented(c, name)
    src = cmd + "{" + c + "}"
    if form == "blank in braces":
        src = cmd + "{ " + c + " }"
    elif form == "blank braces":
        src = cmd + " {" + c + "}"
    elif form == "blank":
        src = cmd + " " + c
    elif form == "direct":
        src = cmd + c
    elif form == "group":
        src = "{" + cmd + "{" + c + "}}"
        cx.assume(a == "" or a == " ")  # braces within a word stay (not this property)
    elif form == "two letters":
        src = cmd + "{" + c + "q}"
        want = want + "q"
    elif form == "two accents":
        src = cmd + "{" + c + "q\\~n\\c{c}\\'{\\i}s}"
        want = want + "q\u00f1\u00e7\u00eds"
    cx.check_eq(parse(cx, "w" + a + src + z + "e"), [text("w" + a + want + z + "e")], "the accented letter, nothing else touched")


INNER = [("\\i", "i"), ("\\j", "j"), ("\\i{}", "i"), ("\\^e", "e\u0302"), ("\\'{u}", "u\u0301"), ("\\\"{\\i}", "i\u0308"), ("\\c{c}", "c\u0327"), ("\\u a", "a\u0306"),
         ("\\'{q}", "q\u0301"), ("\\v{b}", "b\u030c"), ("\\H{\\~x}", "x\u0303\u030b"), ("\\o", "\u00f8"), ("\\ae", "\u00e6"), ("\\aa", "\u00e5"), ("\\l", "\u0142")]


@harness(
    bounds="25 accent commands on 15 commands as their letter (dotless i and j, special letters, further accents with and without a letter of their own in Unicode), in braces or directly; 0..1 (thorough 0..2) symbolic characters around",
    covers=["braces", "direct"],
)
def on_command(cx):
    name = cx.pick("name", NAMES)
    src, base = cx.pick("inner", INNER)
    braces = cx.flag("braces")
    a = cx.str("a", 0, 1, alpha=TAIL)
    z = tail(cx)
    cx.cover("braces" if braces else "direct")
    want = unicodedata.normalize("NFC", base[:1] + base[1:] + chr(ACCENTS[name]))
    if braces:
        full = "\\" + name + "{" + src + "}"
    else:
        # a plain control word ends where the next letter cannot belong to it
        cx.assume(src.endswith("}") or src.endswith(" ") or (z != "" and not z[0].isalpha() and z[0] != " "))
        full = "\\" + name + src
    got = parse(cx, "w" + a + full + z + "e")
    cx.check_eq([dict(t, content=unicodedata.normalize("NFC", "".join([str(t["content"])]))) for t in got] if isinstance(got[0]["content"], str) else got,
                [text("w" + a + want + z + "e")], "the accented letter, nothing else touched")


@harness(
    bounds="13 accent commands with an empty argument between 0..1 (thorough 0..2) symbolic characters: the accent sign itself",
    covers=["done"],
)
def alone(cx):
    name = cx.pick("name", sorted(ALONE))
    a = cx.str("a", 0, 1, alpha=TAIL)
    z = tail(cx)
    arg = cx.pick("arg", ["{}", "{ }", " {}"])
    cx.cover("done")
    cx.check_eq(parse(cx, "w" + a + "\\" + name + arg + z + "e"), [text("w" + a + ALONE[name] + z + "e")], "the sign, nothing else touched")


AFTER = [("$a$", "<a>"), ("\\textbf{a}", "a"), ("\\ref{k}", "k"), ("\\&", "&"), ("\\emph{a}b", "ab"), ("\\begin{center}a\\end{center}", "a"), ("}b", "b"), ("\\item a", "a"), ("#b", "#b")]


@harness(
    bounds="25 accent commands directly before 9 things that are no letter (math, commands, environments, a closing brace), symbolic text behind",
    covers=["done"],
)
def before_other(cx):
    name = cx.pick("name", NAMES)
    src, want = cx.pick("after", AFTER)
    s = cx.str("s", 0, 2, alpha="ab1")
    cx.cover("done")
    pre = "w "
    if src.startswith("}"):
        full = pre + "{\\textit{\\" + name + src + s + " e"
        full = pre + "\\textit{u\\" + name + src + s + " e"
    else:
        full = pre + "\\" + name + src + s + " e"
    out = ref_flat(parse(cx, full))
    cx.check(squash(out).endswith(squash(want + s + "e")), "what follows is untouched")
    cx.check(squash(out).startswith("w"), "what precedes is untouched")
    if src == "$a$":
        cx.check_eq(len(of_type(parse(cx, full), "equation")), 1, "math stays math")


def ref_flat(tokens):
    out = ""
    for t in tokens:
        if t.get("type") == "ref":
            out += "".join(t["content"])
        else:
            out += flat([t])
    return out


def squash(s):
    return "".join([c for c in s if not c.isspace()])


# command -> character, by Unicode name (LaTeX's documented meaning)
N = unicodedata.lookup
SYMBOLS = {
    "ss": N("LATIN SMALL LETTER SHARP S"), "o": N("LATIN SMALL LETTER O WITH STROKE"), "O": N("LATIN CAPITAL LETTER O WITH STROKE"),
    "l": N("LATIN SMALL LETTER L WITH STROKE"), "L": N("LATIN CAPITAL LETTER L WITH STROKE"),
    "ae": N("LATIN SMALL LETTER AE"), "AE": N("LATIN CAPITAL LETTER AE"), "oe": N("LATIN SMALL LIGATURE OE"), "OE": N("LATIN CAPITAL LIGATURE OE"),
    "aa": N("LATIN SMALL LETTER A WITH RING ABOVE"), "AA": N("LATIN CAPITAL LETTER A WITH RING ABOVE"),
    "i": N("LATIN SMALL LETTER DOTLESS I"), "j": N("LATIN SMALL LETTER DOTLESS J"),
    "dh": N("LATIN SMALL LETTER ETH"), "DH": N("LATIN CAPITAL LETTER ETH"), "th": N("LATIN SMALL LETTER THORN"), "TH": N("LATIN CAPITAL LETTER THORN"),
    "dj": N("LATIN SMALL LETTER D WITH STROKE"), "DJ": N("LATIN CAPITAL LETTER D WITH STROKE"), "ng": N("LATIN SMALL LETTER ENG"), "NG": N("LATIN CAPITAL LETTER ENG"),
    "S": N("SECTION SIGN"), "P": N("PILCROW SIGN"), "dag": N("DAGGER"), "ddag": N("DOUBLE DAGGER"), "pounds": N("POUND SIGN"),
    "copyright": N("COPYRIGHT SIGN"), "textcopyright": N("COPYRIGHT SIGN"), "textregistered": N("REGISTERED SIGN"), "texttrademark": N("TRADE MARK SIGN"),
    "textsection": N("SECTION SIGN"), "textparagraph": N("PILCROW SIGN"), "textdagger": N("DAGGER"), "textdaggerdbl": N("DOUBLE DAGGER"),
    "textendash": N("EN DASH"), "textemdash": N("EM DASH"), "textellipsis": N("HORIZONTAL ELLIPSIS"), "ldots": N("HORIZONTAL ELLIPSIS"),
    "textbullet": N("BULLET"), "textperiodcentered": N("MIDDLE DOT"), "textdegree": N("DEGREE SIGN"), "textpm": N("PLUS-MINUS SIGN"),
    "textmu": N("MICRO SIGN"), "textonehalf": N("VULGAR FRACTION ONE HALF"), "texteuro": N("EURO SIGN"), "textsterling": N("POUND SIGN"),
    "textyen": N("YEN SIGN"), "textcent": N("CENT SIGN"), "textquoteleft": N("LEFT SINGLE QUOTATION MARK"), "textquoteright": N("RIGHT SINGLE QUOTATION MARK"),
    "textquotedblleft": N("LEFT DOUBLE QUOTATION MARK"), "textquotedblright": N("RIGHT DOUBLE QUOTATION MARK"),
    "quotesinglbase": N("SINGLE LOW-9 QUOTATION MARK"), "quotedblbase": N("DOUBLE LOW-9 QUOTATION MARK"),
    "guillemotleft": N("LEFT-POINTING DOUBLE ANGLE QUOTATION MARK"), "guillemotright": N("RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK"),
    "guilsinglleft": N("SINGLE LEFT-POINTING ANGLE QUOTATION MARK"), "textquestiondown": N("INVERTED QUESTION MARK"), "textexclamdown": N("INVERTED EXCLAMATION MARK"),
    "textless": "<", "textgreater": ">", "textbackslash": "\\", "textasciitilde": "~", "textasciicircum": "^", "textdollar": "$",
    "textbar": "|", "textunderscore": "_", "textbraceleft": "{", "textbraceright": "}", "textordmasculine": N("MASCULINE ORDINAL INDICATOR"),
    "alpha": N("GREEK SMALL LETTER ALPHA"), "Omega": N("GREEK CAPITAL LETTER OMEGA"), "infty": N("INFINITY"), "checkmark": N("CHECK MARK"),
    "divideontimes": N("DIVISION TIMES"),
}


@harness(
    bounds="%d symbol commands, ended by {}, a backslash-blank, or a symbolic character that is no letter, in braces of their own or bare; 0..1 (thorough 0..2) symbolic characters around" % len(SYMBOLS),
    covers=["empty braces", "group", "next"],
)
def symbol(cx):
    name = cx.pick("name", sorted(SYMBOLS))
    form = cx.pick("form", ["empty braces", "group", "next"])
    cx.cover(form)
    a = cx.str("a", 0, 1, alpha="b 1.,-(")
    z = tail(cx, "b 1.,-)")
    want = SYMBOLS[name]
    src = "\\" + name
    if form == "empty braces":
        src += "{}"
    elif form == "group":
        src = "{" + src + "}"
        cx.assume(a == " ")
    else:
        cx.assume(z != "" and not z[0].isalpha() and z[0] != " ")
    cx.check_eq(parse(cx, "w" + a + src + z + "e"), [text("w" + a + want + z + "e")], "the character, nothing else touched")


@harness(
    bounds="%d commands with one sign (escaped characters) and the %d accents and symbols with symbolic text that does not touch them: unescaped text stays itself" % (8, len(SYMBOLS)),
    covers=["done"],
)
def escaped(cx):
    src, want = cx.pick("sym", [("\\&", "&"), ("\\%", "%"), ("\\$", "$"), ("\\#", "#"), ("\\_", "_"), ("\\{", "{"), ("\\}", "}"), ("--", "--")])
    a = cx.str("a", 0, 2, alpha="ab 1.,-(")
    z = tail(cx)
    cx.cover("done")
    cx.check_eq(parse(cx, "w" + a + src + z + "e"), [text("w" + a + want + z + "e")], "the character, nothing else touched")


WORDS = sorted([n for n in NAMES if n[0].isalpha()] + list(SYMBOLS) + ["not"])


@harness(
    bounds="%d accent and symbol names, longer by 1..2 symbolic letters of q Z (no known command), with an argument and text after it" % len(WORDS),
    covers=["done"],
)
def longer(cx):
    name = cx.pick("name", WORDS)
    s = cx.str("s", 1, 2, alpha="qZ")
    s = one(s, ["q", "Z", "qq", "qZ", "Zq", "ZZ"])
    cx.cover("done")
    cmd = "\\" + name + s
    cx.check_eq(parse(cx, "w " + cmd + "{a} e"), [text("w "), {"type": "command", "command": cmd, "content": "{a}"}, text("e")], "a longer name is another command")


PLACES = [("\\section{", "}"), ("\\caption{", "}"), ("\\footnote{", "}"), ("\\textbf{", "}"), ("\\title{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"),
          ("\\begin{tabular}{ll}", "& x\\\\\\end{tabular}"), ("\\begin{abstract}", "\\end{abstract}"), ("\\href{u}{", "}"), ("\\mbox{", "}"),
          ("\\begin{theorem}[", "]x\\end{theorem}"), ("\\cite[", "]{k}"), ("\\item[", "] x"), ("\\newcommand\\qa[1]{#1}\\qa{", "}"), ("\\newcommand\\qa{", "}\\qa{}"),
          ("\\begin{qq}", "\\end{qq}"), ("{\\bf ", "}"), ("\\author{", "}"), ("\\email{", "}"), ("\\paragraph{", "}")]
KINDS = [("\\'e", "\u00e9"), ("\\\"{\\i}", "\u00ef"), ("\\c{c}", "\u00e7"), ("\\v s", "\u0161"), ("\\ss{}", "\u00df"), ("{\\o}", "\u00f8"), ("\\&", "&"), ("\\textquoteright{}", "\u2019"), ("\\^{}", "^"), ("\\H{o}", "\u0151")]


def everything(x):
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return "".join([everything(x[k]) for k in x if k in ("content", "title")])
    if isinstance(x, (list, tuple)):
        return " ".join([everything(t) for t in x])
    return ""


@harness(
    bounds="%d forms of accents and symbols in %d places (titles, captions, notes, styles, lists, cells, links, macro arguments and bodies, ...), symbolic letters around" % (len(KINDS), len(PLACES)),
    covers=["done"],
)
def places(cx):
    p, q = cx.pick("place", PLACES)
    src, want = cx.pick("kind", KINDS)
    a = cx.str("a", 0, 1, alpha="bz")
    z = cx.str("z", 0, 1, alpha="bz1")
    cx.cover("done")
    if src == "{\\o}":
        a = a + " "
    cx.assume(not (src == "{\\o}" and False))
    got = squash(everything(parse(cx, "w " + p + "W" + a + src + z + "E" + q + " y")))
    cx.check(squash("W" + a + want + z + "E") in got, "the character in its place")
