"""C07 every parse result builds into valid JSON output"""
from symtex.api import harness
from hlib.common import parse, build
from hlib.jsonok import problem
from hlib import forms

TAIL = "{}[]\\$a"


def go(cx, src, pre=False):
    tokens = parse(cx, src, pre)
    out = build(cx, tokens)
    for t in out:
        r = problem(t)
        cx.check(r is None, "well-formed output" if r is None else "well-formed output: " + r)


@harness(
    bounds="%d containers, each holding each of the %d other constructs (thorough: followed by <=1 symbolic structural character)" % (len(forms.CONTAINERS), len(forms.ALL)),
    covers=["done"],
)
def nested(cx):
    o = cx.pick("outer", [c.split("@") for c in forms.CONTAINERS])
    f = cx.pick("inner", forms.ALL)
    s = cx.str("s", 0, cx.bound(0, 1), alpha="}]$\\a")
    cx.cover("done")
    go(cx, (f + s).join(o) + " y")


def mk(name, family):
    def fn(cx):
        f = cx.pick("form", [forms.HOLE.split(x) for x in family])
        cx.assume(len(f) > 1)
        k = cx.pick("hole", list(range(6)))
        cx.assume(k < len(f) - 1)
        s = cx.str("s", 0, cx.bound(2, 3), alpha=TAIL)
        pre = cx.flag("pre")
        cx.cover("pre" if pre else "plain")
        src = ""
        for i in range(len(f)):
            src += f[i]
            if i < len(f) - 1:
                src += s if i == k else "a"
        go(cx, "x " + src + " y", pre)

    fn.__name__ = name
    return harness(
        bounds="%d constructs, one of their arguments replaced by <=2 (thorough 3) symbolic characters over { } [ ] \\ $ a; with and without preprocessing" % len(family),
        covers=["pre", "plain"],
    )(fn)


fill_content = mk("fill_content", forms.CONTENT)
fill_author = mk("fill_author", forms.AUTHOR)
fill_format = mk("fill_format", forms.FORMAT)
fill_style = mk("fill_style", forms.STYLE)
fill_defs = mk("fill_defs", forms.DEFS)
fill_cond = mk("fill_cond", forms.COND)
fill_box = mk("fill_box", forms.BOX)
fill_env = mk("fill_env", forms.ENV)
fill_math = mk("fill_math", forms.MATH)
