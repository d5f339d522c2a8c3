"""C02 comment removal"""
from symtex.api import harness, LATIN1
from latex2json.utils import tex_utils as tu
from latex2json.parser.tex_parser import LatexParser

LINEBREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85"


def strip_line(line):
    run = 0
    i = 0
    for c in line:
        if c == "%" and run % 2 == 0:
            return line[:i].rstrip()
        run = run + 1 if c == "\\" else 0
        i += 1
    return line.rstrip()


@harness(
    bounds="single lines of length <=5 (thorough 6) over all 256 latin-1 characters",
    covers=["comment", "escaped", "double"],
)
def one_line(cx):
    t = cx.str("t", 0, cx.bound(5, 6), alpha=[c for c in LATIN1 if c not in LINEBREAKS])
    got = tu.strip_latex_comments(t)
    if t.startswith("a\\%"):
        cx.cover("escaped")
    if t.startswith("a\\\\%"):
        cx.cover("double")
    want = strip_line(t)
    if len(t) > 3 and t[1] == "%":
        cx.cover("comment")
    cx.check_eq(got, want, "line without its comment")


@harness(
    bounds="up to 3 lines of length <=2 (thorough 3) each over % \\ a space, joined by newlines",
    covers=["multi"],
)
def lines(cx):
    n = cx.bound(2, 3)
    ls = [cx.str("l%d" % i, 0, n, alpha="%\\a ") for i in range(3)]
    t = "\n".join(ls) + "\nend"
    got = tu.strip_latex_comments(t)
    cx.cover("multi")
    cx.check_eq(got, "\n".join([strip_line(x) for x in ls]) + "\nend", "each line separately")


@harness(
    bounds="long backslash runs: k<=9 backslashes then %, followed by <=2 symbolic characters",
    covers=["odd", "even"],
)
def runs(cx):
    k = cx.pick("k", list(range(10)))
    tail = cx.str("tail", 0, 2, alpha="%\\ab")
    t = "x" + "\\" * k + "%" + tail
    cx.cover("odd" if k % 2 else "even")
    cx.check_eq(tu.strip_latex_comments(t), strip_line(t), "backslash parity")


@harness(
    bounds="documents: plain words around a comment of <=3 symbolic characters, parsed end to end",
    covers=["parsed"],
)
def through_parser(cx):
    c = cx.str("c", 0, 3, alpha="%\\{}$a[]&")
    p = LatexParser(logger=cx.logger)
    got = p.parse("one %" + c + "\ntwo")
    cx.cover("parsed")
    cx.check_eq(got, [{"type": "text", "content": "one\ntwo"}], "comment text never reaches the output")


@harness(
    bounds="escaped percent signs between words of <=2 plain characters, parsed end to end",
    covers=["parsed"],
)
def escaped_percent(cx):
    a = cx.str("a", 1, 2, alpha="abz059.,")
    b = cx.str("b", 1, 2, alpha="abz059.,")
    p = LatexParser(logger=cx.logger)
    got = p.parse(a + "\\%" + b)
    cx.cover("parsed")
    cx.check_eq(got, [{"type": "text", "content": a + "%" + b}], "an escaped percent stays a percent sign")
