"""helpers shared by the harnesses (instrumented in symbolic runs, plain in replays)"""
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder


def parse(cx, text, pre=False):
    p = LatexParser(logger=cx.logger)
    if pre:
        return p.parse(text, preprocess=True)
    return p.parse(text)


def build(cx, tokens):
    """the JSON-ready output for parser tokens"""
    b = TokenBuilder(logger=cx.logger)
    return [t.model_dump(mode="json", exclude_none=True) for t in b.build(tokens)]


def build_tex(cx, text, pre=False):
    return build(cx, parse(cx, text, pre))


def flat(tokens):
    """all text below these tokens, in reading order"""
    if isinstance(tokens, str):
        return tokens
    if isinstance(tokens, dict):
        if tokens.get("type") == "equation":
            return "<" + flat(tokens.get("content", "")) + ">"
        return flat(tokens.get("content", ""))
    if isinstance(tokens, (list, tuple)):
        return "".join([flat(t) for t in tokens])
    return ""


def walk(tokens):
    """every token dict below, pre-order (titles, contents, cells, placeholders)"""
    out = []
    if isinstance(tokens, dict):
        out.append(tokens)
        for k in ("title", "content"):
            v = tokens.get(k)
            if isinstance(v, (list, dict)):
                out += walk(v)
        ph = tokens.get("placeholders")
        if isinstance(ph, dict):
            for v in ph.values():
                out += walk(v)
    elif isinstance(tokens, (list, tuple)):
        for t in tokens:
            out += walk(t)
    return out


def of_type(tokens, typ):
    return [t for t in walk(tokens) if t.get("type") == typ]


def text(s):
    return {"type": "text", "content": s}


def squeeze(s):
    return "".join([c for c in s if not c.isspace()])


def spaced(s):
    """with every run of blanks as one space, and none at the ends"""
    out, gap = [], False
    for c in s:
        if c.isspace():
            gap = True
        else:
            if gap and out:
                out.append(" ")
            gap = False
            out.append(c)
    return "".join(out)
