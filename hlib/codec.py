"""Symbolic bytes and how Python decodes them.  Bytes are kept as Latin-1 text, whose
characters may be symbolic; characters beyond Latin-1 are not told apart (BEYOND)."""
import codecs

BEYOND = 0x4E00  # stands for any character beyond Latin-1
REPLACED = 0xFFFD
CP1252 = [ord(bytes([b]).decode("cp1252", "replace")) for b in range(256)]


def items(s):
    from symtex.values import items_of

    return items_of(s)


def text(its):
    from symtex.values import mkstr

    return mkstr(list(its))


def among(it, lo, hi):
    """whether a byte lies in a range (decided on this path)"""
    from symtex.values import it_in, decide

    return decide(it_in(it, ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)))


def mapped(it, offset):
    """a Latin-1 character at a fixed distance of the value of a byte"""
    from symtex.values import SymChar

    if isinstance(it, int):
        return it + offset
    t = it.table or tuple(range(256))
    return SymChar(it.var, tuple((x + offset) & 255 for x in t)) if offset else it


class SymBytes:
    """bytes, some of which are symbolic"""

    def __init__(self, latin):
        self.s = latin

    def __len__(self):
        return len(self.s)

    def __bool__(self):
        return len(self.s) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return wrap(self.s[i])
        c = self.s[i]
        if isinstance(c, str):
            return ord(c)
        return c.items[0].concretize()

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __add__(self, o):
        return wrap(self.s + latin(o))

    def __radd__(self, o):
        return wrap(latin(o) + self.s)

    def __eq__(self, o):
        return isinstance(o, (bytes, bytearray, SymBytes)) and self.s == latin(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(bytes(self))

    def __bytes__(self):
        return self.s.realize().encode("latin-1")

    def __contains__(self, o):
        return (chr(o) if isinstance(o, int) else latin(o)) in self.s

    def startswith(self, p, *a):
        return self.s.startswith(tuple(map(latin, p)) if isinstance(p, tuple) else latin(p), *a)

    def endswith(self, p, *a):
        return self.s.endswith(tuple(map(latin, p)) if isinstance(p, tuple) else latin(p), *a)

    def find(self, p, *a):
        return self.s.find(latin(p), *a)

    def rfind(self, p, *a):
        return self.s.rfind(latin(p), *a)

    def count(self, p, *a):
        return self.s.count(latin(p), *a)

    def replace(self, a, b, n=-1):
        return wrap(self.s.replace(latin(a), latin(b), n))

    def removeprefix(self, p):
        return wrap(self.s.removeprefix(latin(p)))

    def isascii(self):
        return self.s.isascii()

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)


def latin(b):
    return b.s if type(b) is SymBytes else bytes(b).decode("latin-1")


def wrap(s):
    return SymBytes(s) if hasattr(s, "realize") else s.encode("latin-1")


def of_text(s):
    """the UTF-8 bytes of a text of Latin-1 characters"""
    out = []
    for it in items(s):
        if isinstance(it, int):
            out += chr(it).encode("utf-8")
        elif among(it, 0, 0x7F):
            out.append(it)
        elif among(it, 0x80, 0xBF):
            out += [0xC2, it]
        else:
            out += [0xC3, mapped(it, -0x40)]
    return wrap(text(out))


def failure(name, why="invalid"):
    return UnicodeDecodeError(name, b"?", 0, 1, why)


def decode(b, encoding="utf-8", errors="strict"):
    """bytes.decode"""
    name = codecs.lookup(encoding).name  # LookupError for unknown ones
    if type(b) is not SymBytes:
        return b.decode(encoding, errors)
    its = items(b.s)
    if name == "utf-8-sig":
        sig = [0xEF, 0xBB, 0xBF]
        if len(its) >= 3 and all(among(x, c, c) for x, c in zip(its, sig)):
            its = its[3:]
        name = "utf-8"
    if name == "iso8859-1":
        return b.s
    out = []
    if name == "utf-8":
        i = 0
        while i < len(its):
            n, bad, c = utf8(its, i)
            if not bad and all(isinstance(x, int) for x in its[i : i + n]):
                c = ord(bytes(its[i : i + n]).decode("utf-8"))
            out += [c] if not bad else handled(name, errors, its[i : i + n])
            i += n
    elif name in ("ascii", "cp1252", "utf-7"):
        for i, it in enumerate(its):
            if among(it, 0, 0x7F):
                if name == "utf-7" and among(it, ord("+"), ord("+")):
                    if i + 1 == len(its) or not among(its[i + 1], 0, 0x7F):
                        out += handled(name, errors, [it])
                    else:
                        out.append(BEYOND)  # base 64 of other characters
                        return text(out)
                else:
                    out.append(it)
            elif name != "cp1252":
                out += handled(name, errors, [it])
            elif among(it, 0xA0, 0xFF):
                out.append(it)
            elif any(among(it, c, c) for c in (0x81, 0x8D, 0x8F, 0x90, 0x9D)):
                out += handled(name, errors, [it])
            else:
                out.append(CP1252[it] if isinstance(it, int) else BEYOND)
    elif name in ("utf-16", "utf-16-le", "utf-16-be"):
        little = name != "utf-16-be"
        if name == "utf-16" and len(its) >= 2:
            if among(its[0], 0xFF, 0xFF) and among(its[1], 0xFE, 0xFE):
                its = its[2:]
            elif among(its[0], 0xFE, 0xFE) and among(its[1], 0xFF, 0xFF):
                its, little = its[2:], False
        for i in range(0, len(its) - 1, 2):
            lo, hi = (its[i], its[i + 1]) if little else (its[i + 1], its[i])
            if among(hi, 0, 0):
                out.append(lo)
            elif among(hi, 0xD8, 0xDF):
                out += handled(name, errors, [lo, hi])  # pairs of surrogates are not modelled
            else:
                out.append(BEYOND)
        if len(its) % 2:
            out += handled(name, errors, its[-1:])
    else:
        from symtex.core import Unsupported

        raise Unsupported("decoding from " + name)
    return text(out)


def handled(name, errors, its):
    if errors == "replace":
        return [REPLACED]
    if errors == "ignore":
        return []
    if errors in ("surrogateescape", "backslashreplace"):
        return [BEYOND] * len(its)
    raise failure(name)


def utf8(its, i):
    """(number of bytes, whether they are invalid, character)"""
    a = its[i]
    if among(a, 0, 0x7F):
        return 1, False, a
    if not among(a, 0xC2, 0xF4):
        return 1, True, None
    if among(a, 0xC2, 0xDF):
        if i + 1 == len(its) or not among(its[i + 1], 0x80, 0xBF):
            return 1, True, None
        if among(a, 0xC2, 0xC2):
            return 2, False, its[i + 1]
        if among(a, 0xC3, 0xC3):
            return 2, False, mapped(its[i + 1], 0x40)
        return 2, False, BEYOND
    more = 2 if among(a, 0xE0, 0xEF) else 3
    lo, hi = 0x80, 0xBF
    for first, l, h in ((0xE0, 0xA0, 0xBF), (0xED, 0x80, 0x9F), (0xF0, 0x90, 0xBF), (0xF4, 0x80, 0x8F)):
        if among(a, first, first):
            lo, hi = l, h
    for k in range(1, more + 1):
        if i + k == len(its) or not among(its[i + k], lo, hi):
            return k, True, None
        lo, hi = 0x80, 0xBF
    return more + 1, False, BEYOND


def lines(s, newline=None):
    """a text file gives each line the same end, unless told otherwise"""
    return s.replace("\r\n", "\n").replace("\r", "\n") if newline is None else s
