"""C21 token models give back every declared field"""
import copy
from symtex.api import harness, LOWER, LATIN1
from latex2json.structure.token_factory import TokenFactory
from latex2json.structure.tokens.base import BaseToken
from latex2json.structure.tokens.types import TokenType


# the fields each kind declares beyond type, styles and labels: name -> how it is filled
STR, TOKS, STRS, INT, FIELDS = "str", "toks", "strs", "int", "fields"
EITHER = ("str", "toks")  # the content may be either
PROSE = {"content!": EITHER}
ENVIRON = {"content!": EITHER, "name": STR}
KINDS = {
    "document": PROSE, "abstract": PROSE, "quote": PROSE, "subfigure": PROSE, "email": PROSE, "affiliation": PROSE,
    "keywords": PROSE, "address": PROSE, "environment": ENVIRON,
    "text": {"content!": STR},
    "title": {"content!": TOKS}, "group": {"content!": TOKS}, "footnote": {"content!": TOKS}, "appendix": {"content!": TOKS},
    "caption": {"content!": TOKS, "title": STR},
    "command": {"command!": STR, "content": STR},
    "section": {"title!": TOKS, "level!": INT, "numbering": STR, "content!": TOKS},
    "paragraph": {"title!": TOKS, "level!": INT, "numbering": STR, "content!": TOKS},
    "math_env": {"name!": STR, "content!": TOKS, "numbering": STR, "title": TOKS, "proof": "proof"},
    "figure": {"content!": EITHER, "numbering": STR}, "table": {"content!": EITHER, "numbering": STR},
    "algorithm": {"content!": EITHER, "name": STR, "numbering": STR}, "algorithmic": {"content!": STR},
    "code": {"content!": STR, "title": STR, "display": STR},
    "includegraphics": {"content!": STR, "page": INT}, "includepdf": {"content!": STR, "pages": STR},
    "diagram": {"name!": STR, "content!": STR},
    "list": {"content!": "items", "name": STR, "depth!": INT}, "item": {"content!": EITHER, "title": TOKS},
    "equation": {"content!": STR, "align": "bool", "display": "display", "numbering": STR, "placeholders": "placeholders"},
    "citation": {"content!": STRS, "title": TOKS}, "ref": {"content!": STRS, "title": TOKS},
    "url": {"content!": STR, "title": EITHER},
    "bibitem": {"format!": STR, "cite_key!": STR, "content!": EITHER, "label": STR, "fields": FIELDS},
    "bibliography": {"content!": "bibitems"},
    "author": {"content!": "authors"},
    "tabular": {"content!": "rows"},
}


def tok(typ, **kw):
    d = {"type": typ}
    d.update(kw)
    return d


def toks(s):
    return [tok("text", content=s + "a", styles=["bold"]), tok("ref", content=["k" + s, "l"], title=[tok("text", content=s)])]


def fill(how, s, k):
    """values for a field; s a symbolic text, k which field it is"""
    if how == "str":
        return k + s
    if how == "toks":
        return toks(k + s)
    if how == "strs":
        return [s, k, ""]
    if how == "int":
        return 3
    if how == "bool":
        return True
    if how == "display":
        return "block"
    if how == "fields":
        return {"author": s, "title": k}
    if how == "proof":
        return tok("math_env", name="proof", content=toks(s), title=[tok("text", content=k)], labels=["p" + s])
    if how == "placeholders":
        return {"_A_": toks(s), "_B_": [tok("includegraphics", content=s, page=2)]}
    if how == "items":
        return [tok("text", content=s), tok("item", content=toks(s), title=[tok("text", content=k)]), tok("item", content=s)]
    if how == "bibitems":
        return [tok("bibitem", format="bibtex", cite_key=s, content=k, label="l", fields={"a": s}), tok("bibitem", format="bibitem", cite_key=k, content=toks(s))]
    if how == "authors":
        return [toks(s), [], [tok("text", content=k), tok("email", content=s)]]
    if how == "rows":
        return [
            [s, None, toks(s), {"content": toks(s), "rowspan": 2, "colspan": 1}],
            [{"content": None, "rowspan": 1, "colspan": 3}, {"content": s, "rowspan": 1, "colspan": 2}],
            [],
        ]


def variants(how):
    return how if isinstance(how, tuple) else (how,)


def field(name):
    return name[:-1] if name.endswith("!") else name


def dump(cx, data, **kw):
    t = TokenFactory(logger=cx.logger).create(data)
    cx.check(isinstance(t, BaseToken), "a token model comes out")
    return t.model_dump(**kw)


def full(kind, s, drop=None, alt=0):
    d = {"type": kind, "styles": ["bold", "color=" + s], "labels": ["l" + s, "m"]}
    for name in KINDS[kind]:
        if field(name) != drop:
            v = variants(KINDS[kind][name])
            d[field(name)] = fill(v[alt % len(v)], s, field(name))
    return d


@harness(
    bounds="all %d kinds of tokens with all their declared fields, one optional field left out (or none), contents as text or tokens, texts with 0..2 symbolic Latin-1 characters in every text field" % len(KINDS),
    covers=["all", "one out"],
)
def fields(cx):
    kind = cx.pick("kind", sorted(KINDS))
    alt = cx.pick("alt", [0, 1])
    k = cx.pick("out", [None, 0, 1, 2, 3, 4, 5])
    opt = ["styles", "labels"] + [n for n in KINDS[kind] if not n.endswith("!")]
    cx.assume(k is None or k < len(opt))
    cx.cover("all" if k is None else "one out")
    s = cx.str("s", 0, 2, alpha=LATIN1)
    d = full(kind, s, None if k is None else opt[k], alt)
    if k is not None and opt[k] in d:
        del d[opt[k]]
    before = copy.deepcopy(d)
    cx.check_eq(dump(cx, d, mode="json", exclude_none=True), before, "every declared field comes back")
    cx.check_eq(d, before, "the description is not changed")


@harness(
    bounds="all %d kinds of tokens with only the fields they must have, or with one more (styles and labels among them); symbolic texts" % len(KINDS),
    covers=["required", "one more"],
)
def few(cx):
    kind = cx.pick("kind", sorted(KINDS))
    k = cx.pick("more", [None, 0, 1, 2, 3, 4])
    opt = [n for n in KINDS[kind] if not n.endswith("!")] + ["styles", "labels"]
    cx.assume(k is None or k < len(opt))
    cx.cover("required" if k is None else "one more")
    s = cx.str("s", 0, 2, alpha=LATIN1)
    f = full(kind, s)
    d = {"type": kind}
    for n in KINDS[kind]:
        if n.endswith("!"):
            d[field(n)] = f[field(n)]
    if k is not None:
        d[opt[k]] = f[opt[k]]
    cx.check_eq(dump(cx, d, mode="json", exclude_none=True), d, "every declared field comes back")


@harness(
    bounds="all %d kinds with all or only the required fields; the dump (JSON or Python values, with or without empty fields) is turned into a token again" % len(KINDS),
    covers=["full", "required"],
)
def again(cx):
    kind = cx.pick("kind", sorted(KINDS))
    alt = cx.pick("alt", [0, 1])
    every = cx.flag("every")
    kw = cx.pick("kw", [{}, {"mode": "json"}, {"exclude_none": True}, {"mode": "json", "exclude_none": True}])
    cx.cover("full" if every else "required")
    s = cx.str("s", 0, 2, alpha=LATIN1)
    d = full(kind, s, None, alt)
    if not every:
        for n in KINDS[kind]:
            if not n.endswith("!"):
                del d[n]
        del d["styles"]
        del d["labels"]
    out = dump(cx, d, **kw)
    cx.check_eq(dump(cx, out, **kw), out, "a dumped token makes the same token")
    cx.check_eq(dump(cx, out, mode="json", exclude_none=True), d, "nothing lost on the way")


SLOTS = {
    "content": lambda t: tok("abstract", content=[tok("text", content="a"), t, tok("text", content="b")]),
    "section": lambda t: tok("section", title=[tok("text", content="a")], level=1, content=[t]),
    "section title": lambda t: tok("section", title=[t], level=1, content=[tok("text", content="a")]),
    "item": lambda t: tok("list", name="itemize", depth=1, content=[tok("item", content=[t])]),
    "item title": lambda t: tok("list", name="itemize", depth=1, content=[tok("item", content="a", title=[t])]),
    "url title": lambda t: tok("url", content="u", title=[t]),
    "cite title": lambda t: tok("citation", content=["u"], title=[t]),
    "math_env": lambda t: tok("math_env", name="x", content=[t]),
    "math_env title": lambda t: tok("math_env", name="x", content=[], title=[t]),
    "proof": lambda t: tok("math_env", name="x", content=[], proof=tok("math_env", name="proof", content=[t])),
    "placeholder": lambda t: tok("equation", content="x", placeholders={"_A_": [t]}),
    "author": lambda t: tok("author", content=[[t], [tok("text", content="b")]]),
    "cell": lambda t: tok("tabular", content=[["a", [t]]]),
    "span cell": lambda t: tok("tabular", content=[["a", {"content": [t], "rowspan": 1, "colspan": 2}]]),
    "bibitem": lambda t: tok("bibliography", content=[tok("bibitem", format="bibitem", cite_key="k", content=[t])]),
    "deep": lambda t: tok("document", content=[tok("group", content=[tok("footnote", content=[tok("tabular", content=[[[t]]])])])]),
}


@harness(
    bounds="%d places for tokens within tokens, each holding each of the %d kinds (all fields, or with its content as text), nested once more in a document; symbolic texts" % (len(SLOTS), len(KINDS)),
    covers=["done"],
)
def nested(cx):
    place = cx.pick("place", sorted(SLOTS))
    kind = cx.pick("kind", sorted(KINDS))
    alt = cx.pick("alt", [0, 1])
    s = cx.str("s", 0, 1, alpha=LATIN1)
    cx.cover("done")
    d = tok("document", content=[SLOTS[place](full(kind, s, None, alt)), tok("text", content="end")])
    out = dump(cx, d, mode="json", exclude_none=True)
    cx.check_eq(out, d, "every declared field comes back at every level")
    cx.check_eq(dump(cx, out, mode="json", exclude_none=True), d, "and once more")


@harness(
    bounds="a type that is a symbolic name of 0..8 characters over letters and _ (any but the %d known ones), alone and between tokens of a list in 6 places" % len(KINDS),
    covers=["alone", "in a list"],
)
def unknown(cx):
    s = cx.str("s", 0, 8, alpha="abcdefgilmnoprstuv_EX")
    for t in TokenType:
        cx.assume(s != t.value)
    cx.assume(s != "date")
    place = cx.pick("place", ["", "content", "math_env", "placeholder", "author", "item title", "deep"])
    odd = tok(s, content="lost")
    if place == "":
        cx.cover("alone")
        logger = Recorder()
        cx.check(TokenFactory(logger=logger).create(odd) is None, "an unknown type makes no token")
        cx.check(len(logger.warned) == 1 and s in logger.warned[0], "and is reported")
    else:
        cx.cover("in a list")
        a, b = tok("text", content="a"), tok("text", content="b")
        # the place takes one token; put a group with three tokens there
        d = SLOTS[place](tok("group", content=[a, odd, b]))
        want = SLOTS[place](tok("group", content=[a, b]))
        cx.check_eq(dump(cx, d, mode="json", exclude_none=True), want, "only the unknown token is left out")


class Recorder:
    def __init__(self):
        self.warned = []

    def warning(self, msg, *args):
        self.warned.append(msg % args if args else msg)

    def error(self, *args, **kw):
        pass

    debug = info = error


@harness(bounds="dates make no token; a string stays itself (1 symbolic string of up to 3 Latin-1 characters); handlers registered in one factory are used by it and by no other", covers=["done"])
def custom(cx):
    s = cx.str("s", 0, 3, alpha=LATIN1)
    cx.cover("done")
    f = TokenFactory(logger=cx.logger)
    g = TokenFactory(logger=cx.logger)
    cx.check_eq(f.create(s), s, "a string stays itself")
    cx.check(f.create(tok("date", content=s)) is None, "dates make no token")
    f.register_custom_type("mine", lambda data: BaseToken(type=TokenType.TEXT, content="<" + data["content"] + ">"))
    d = tok("document", content=[tok("text", content="a"), tok("mine", content=s)])
    cx.check_eq(f.create(d).model_dump(mode="json", exclude_none=True)["content"][1], tok("text", content="<" + s + ">"), "the handler is used, also within contents")
    cx.check_eq(g.create(d).model_dump(mode="json", exclude_none=True), tok("document", content=[tok("text", content="a")]), "other factories do not know it")


EMPTY = {"str": "", "toks": [], "strs": [], "int": 0, "bool": False, "display": "inline", "fields": {}, "placeholders": {}, "items": [], "bibitems": [], "authors": [], "rows": []}


@harness(bounds="all %d kinds with one field empty (empty text or list, 0, false) or all of them" % len(KINDS), covers=["one", "all"])
def empties(cx):
    kind = cx.pick("kind", sorted(KINDS))
    k = cx.pick("which", [None, 0, 1, 2, 3, 4, 5])
    alt = cx.pick("alt", [0, 1])
    names = sorted(KINDS[kind])
    cx.assume(k is None or k < len(names))
    cx.cover("all" if k is None else "one")
    s = cx.str("s", 0, 2, alpha=LATIN1)
    d = full(kind, s, None, alt)
    for i in range(len(names)):
        how = variants(KINDS[kind][names[i]])
        if (k is None or i == k) and how[0] in EMPTY:
            d[field(names[i])] = EMPTY[how[alt % len(how)]]
    out = dump(cx, d, mode="json", exclude_none=True)
    cx.check_eq(out, d, "every declared field comes back")
    cx.check_eq(dump(cx, dump(cx, d)), dump(cx, d), "and makes the same token again")
