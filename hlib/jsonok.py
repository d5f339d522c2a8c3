"""what the JSON output must look like, independently of the token classes"""

STR = "str"  # content is text
TOKS = "tokens"  # content is a list of tokens
STRS = "strings"
KINDS = {
    "text": [STR], "command": [STR, None], "equation": [STR], "code": [STR], "algorithmic": [STR], "url": [STR],
    "includegraphics": [STR], "includepdf": [STR], "diagram": [STR], "citation": [STRS], "ref": [STRS],
    "section": [TOKS], "paragraph": [TOKS], "title": [TOKS], "appendix": [TOKS], "caption": [TOKS], "footnote": [TOKS],
    "list": [TOKS], "group": [TOKS], "math_env": [TOKS], "bibliography": [TOKS], "author": ["authors"], "tabular": ["rows"],
}
OTHER = ["document", "abstract", "quote", "environment", "figure", "subfigure", "table", "item", "algorithm", "bibitem", "email",
         "affiliation", "keywords", "address"]
for _t in OTHER:
    KINDS[_t] = [STR, TOKS]
NEEDS = {
    "section": ["title", "level"], "paragraph": ["title", "level"], "command": ["command"], "equation": ["display"],
    "math_env": ["name"], "list": ["depth"], "bibitem": ["cite_key"], "diagram": ["name"],
}


def is_text(x):
    return isinstance(x, str)


def problem(tok, where="output"):
    """None, or what is wrong with this dumped token"""
    if not isinstance(tok, dict):
        return where + ": not a token"
    typ = tok.get("type")
    if not isinstance(typ, str) or typ not in KINDS:
        return where + ": unknown type"
    where = where + "." + typ
    for k in tok:
        if not isinstance(k, str):
            return where + ": key is not a string"
    for k in NEEDS.get(typ, []):
        if k not in tok and not (typ == "equation" and k == "display"):
            return where + ": no " + k
    got = None
    c = tok.get("content")
    for kind in KINDS[typ]:
        r = fits(kind, c, where)
        if r is None:
            got = True
            break
        if got is None:
            got = r
    if got is not True:
        return got
    t = tok.get("title")
    if t is not None and not is_text(t):
        r = fits(TOKS, t, where + ".title")
        if r:
            return r
    for k in ("labels", "styles"):
        v = tok.get(k)
        if v is not None:
            r = fits(STRS, v, where + "." + k)
            if r:
                return r
    n = tok.get("numbering")
    if n is not None and not is_text(n):
        return where + ": numbering is not text"
    if typ in ("section", "paragraph") and (isinstance(tok["level"], bool) or not isinstance(tok["level"], int)):
        return where + ": level is not a number"
    if typ == "equation" and tok.get("display") not in (None, "inline", "block"):
        return where + ": display"
    ph = tok.get("placeholders")
    if ph is not None:
        for k in ph:
            r = fits(TOKS, ph[k], where + ".placeholders")
            if r:
                return r
    for k in tok:
        if k not in ("content", "title", "placeholders"):
            r = plain(tok[k], where + "." + k)
            if r:
                return r
    return None


def plain(v, where):
    """only JSON values"""
    if v is None or isinstance(v, (str, bool, int, float)):
        return None
    if isinstance(v, list):
        for x in v:
            r = plain(x, where)
            if r:
                return r
        return None
    if isinstance(v, dict):
        for k in v:
            if not isinstance(k, str):
                return where + ": key is not a string"
            r = plain(v[k], where)
            if r:
                return r
        return None
    return where + ": not a JSON value"


def fits(kind, c, where):
    if kind is None:
        return None if c is None else where + ": content"
    if kind == STR:
        return None if is_text(c) else where + ": content is not text"
    if not isinstance(c, list):
        return where + ": content is not a list"
    for x in c:
        if kind == STRS:
            if not is_text(x):
                return where + ": content is not a list of texts"
        elif kind == TOKS:
            r = problem(x, where)
            if r:
                return r
        elif kind == "authors":
            r = fits(TOKS, x, where)
            if r:
                return r
        elif kind == "rows":
            if not isinstance(x, list):
                return where + ": a row is not a list"
            for cell in x:
                r = cell_problem(cell, where + ".cell")
                if r:
                    return r
    return None


def cell_problem(c, where):
    if c is None or is_text(c):
        return None
    if isinstance(c, list):
        return fits(TOKS, c, where)
    if isinstance(c, dict) and "type" not in c:
        for k in ("rowspan", "colspan"):
            if isinstance(c.get(k), bool) or not isinstance(c.get(k), int):
                return where + ": span is not a number"
        return cell_problem(c.get("content"), where)
    return problem(c, where)
