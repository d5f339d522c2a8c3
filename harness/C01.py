"""C01 balanced argument extraction"""
from symtex.api import harness, LATIN1
from latex2json.utils import tex_utils as tu

CORE = "{}\\a "
BR = "[]\\a "
MIX = "{}[]\\a \n"


def esc_flags(t):
    """escaped[i]: an odd run of backslashes stands directly before i"""
    out = []
    run = 0
    for c in t:
        out.append(run % 2 == 1)
        if c == "\\":
            run += 1
        else:
            run = 0
    return out


def ref_match(t, o, c):
    """(start, end) of the leading balanced group, or None"""
    i = 0
    while i < len(t) and t[i].isspace():
        i += 1
    if i >= len(t) or t[i] != o:
        return None
    esc = esc_flags(t)
    depth = 0
    start = i
    while i < len(t):
        ch = t[i]
        if not esc[i]:
            if ch == o:
                depth += 1
            elif ch == c:
                depth -= 1
                if depth == 0:
                    return (start, i + 1)
        i += 1
    return None


def check_one(cx, t, o, c):
    want = ref_match(t, o, c)
    got, end = tu.extract_nested_content(t, o, c)
    if want is None:
        cx.cover("unbalanced")
        cx.check(got is None, "content returned for an unbalanced group")
        cx.check(end == 0, "position advanced past an unbalanced group")
    else:
        cx.cover("balanced")
        s, e = want
        cx.check(got is not None, "balanced group not extracted")
        cx.check_eq(got, t[s + 1:e - 1], "content of the group")
        cx.check(end == e, "end position")
    p = tu.find_matching_delimiter(t, o, c)
    cx.check(p == ((-1, -1) if want is None else want), "delimiter positions")


@harness(
    bounds="every string of length <=7 (thorough 8) over { } \\ a space",
    covers=["balanced", "unbalanced"],
)
def braces(cx):
    t = cx.str("t", 0, cx.bound(7, 8), alpha=CORE)
    check_one(cx, t, "{", "}")


@harness(bounds="'{' + every latin-1 string of length <=4 (thorough 5) + '}' and a tail", covers=["balanced"])
def braces_wide(cx):
    t = "{" + cx.str("t", 0, cx.bound(4, 5), alpha=LATIN1) + "}x"
    check_one(cx, t, "{", "}")


@harness(bounds="every string of length <=6 (thorough 7) over [ ] \\ a space", covers=["balanced", "unbalanced"])
def brackets(cx):
    t = cx.str("t", 0, cx.bound(6, 7), alpha=BR)
    check_one(cx, t, "[", "]")


@harness(
    bounds="deep nesting: k<=5 opening braces, symbolic filler of <=3 characters, matching closers, tail",
    covers=["deep"],
)
def nested_deep(cx):
    k = cx.pick("k", [1, 2, 3, 5, 9])
    f = cx.str("f", 0, 3, alpha="a\\ []$%")
    tail = cx.str("tail", 0, 2, alpha="}a\\")
    t = "{" * k + f + "}" * k + tail
    if k > 3:
        cx.cover("deep")
    check_one(cx, t, "{", "}")


@harness(
    bounds="up to 3 consecutive groups requested from every string of length <=6 (thorough 7) over { } \\ a space",
    covers=["two", "none"],
)
def sequence_blocks(cx):
    t = cx.str("t", 0, cx.bound(6, 7), alpha=CORE)
    n = cx.pick("n", [1, 2, 3])
    blocks, end = tu.extract_nested_content_sequence_blocks(t, "{", "}", max_blocks=n)
    want = []
    pos = 0
    while len(want) < n:
        m = ref_match(t[pos:], "{", "}")
        if m is None:
            break
        want.append(t[pos + m[0] + 1: pos + m[1] - 1])
        pos += m[1]
    if len(want) >= 2:
        cx.cover("two")
    if not want:
        cx.cover("none")
    cx.check_eq(blocks, want, "blocks")
    cx.check(end == pos, "end position after the last group")


@harness(
    bounds="delimited arguments: patterns {, {{, [{, [{{ on templates with two symbolic bodies of <=2 characters",
    covers=["opt", "noopt", "missing"],
)
def delimited_args(cx):
    a = cx.str("a", 0, 2, alpha="a{}\\ ")
    b = cx.str("b", 0, 2, alpha="a[]\\ ")
    ws = cx.pick("ws", ["", " ", "\n"])
    form = cx.pick("form", [0, 1, 2, 3])
    cx.assume(tu_balanced(a, "{", "}"))
    cx.assume(tu_balanced(b, "[", "]"))
    if form == 0:
        text, pat = "{" + a + "}" + ws + "{q}z", "{{"
        want, end = [a, "q"], None
        end = len(text) - 1
    elif form == 1:
        text, pat = "[" + b + "]" + ws + "{" + a + "}z", "[{"
        want = [b, a]
        end = len(text) - 1
        cx.cover("opt")
    elif form == 2:
        text, pat = ws + "{" + a + "}z", "[{"
        want = [None, a]
        end = len(text) - 1
        cx.cover("noopt")
    else:
        text, pat = "{" + a + "}" + ws + "z{q}", "{{"
        want = [a]
        end = 2 + len(a)
        cx.cover("missing")
    got, e = tu.extract_delimited_args(text, pat)
    cx.check_eq(got, want, "arguments")
    cx.check(e == end, "end position")


@harness(
    bounds="optional+required arguments (up to 2+2) with symbolic bodies of <=2 characters",
    covers=["both"],
)
def opt_req_args(cx):
    no = cx.pick("no", [0, 1, 2])
    nr = cx.pick("nr", [0, 1, 2])
    b = cx.str("b", 0, 2, alpha="a[]\\ ")
    a = cx.str("a", 0, 2, alpha="a{}\\ ")
    cx.assume(tu_balanced(a, "{", "}"))
    cx.assume(tu_balanced(b, "[", "]"))
    opts = [b, "o"][:no]
    reqs = [a, "r"][:nr]
    text = "".join(["[" + o + "]" for o in opts]) + "".join(["{" + r + "}" for r in reqs])
    got, end = tu.extract_args(text + "z", req_args=nr, opt_args=no)
    if no and nr:
        cx.cover("both")
    cx.check_eq(got["req"], reqs, "required arguments")
    cx.check_eq(got["opt"], opts, "optional arguments")


def tu_balanced(s, o, c):
    """s can stand inside one group: never closes it, and does not end in an open escape"""
    depth = 0
    esc = False
    for ch in s:
        if esc:
            esc = False
            continue
        if ch == "\\":
            esc = True
        elif ch == o:
            depth += 1
        elif ch == c:
            depth -= 1
            if depth < 0:
                return False
    return depth == 0 and not esc


@harness(
    bounds="balance test on every string of length <=7 over { } \\ a", covers=["yes", "no"]
)
def balance(cx):
    t = cx.str("t", 0, 7, alpha="{}\\a")
    got = tu.check_delimiter_balance(t)
    esc = esc_flags(t)
    depth = 0
    ok = True
    i = 0
    for ch in t:
        if not esc[i]:
            if ch == "{":
                depth += 1
            elif ch == "}":
                depth -= 1
                if depth < 0:
                    ok = False
        i += 1
    ok = ok and depth == 0
    cx.cover("yes" if ok else "no")
    cx.check(got == ok, "balance verdict")


@harness(
    bounds="every string of length <=6 over $ { } \\ a after the opening delimiter ($ and $$)",
    covers=["closed", "open"],
)
def math_delimiter(cx):
    d = cx.pick("d", ["$", "$$"])
    t = d + cx.str("t", 0, cx.bound(5, 6), alpha="${}\\a")
    got, end = tu.extract_equation_content(t, d)
    esc = esc_flags(t)
    depth = 0
    i = len(d)
    want = None
    while i < len(t):
        ch = t[i]
        if not esc[i]:
            if ch == "{":
                depth += 1
            elif ch == "}":
                if depth:
                    depth -= 1
            elif depth == 0 and t[i:i + len(d)] == d:
                want = (t[len(d):i].strip(), i + len(d))
                break
        i += 1
    if want is None:
        cx.cover("open")
        cx.check(end == 0, "unterminated math consumed input")
    else:
        cx.cover("closed")
        cx.check_eq(got, want[0], "math body")
        cx.check(end == want[1], "math end")
