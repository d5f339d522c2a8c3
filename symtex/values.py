"""symtex.values -- symbolic strings, booleans and integers"""
import operator

import z3

from .core import (
    E, ALL, Mask, And, Or, Not, Z, mk_and, mk_or, mk_not, mask_of, Unsupported,
)


def _class_mask(pred):
    m = 0
    for i in range(256):
        if pred(chr(i)):
            m |= 1 << i
    return m


M_SPACE = _class_mask(str.isspace)
M_ALPHA = _class_mask(str.isalpha)
M_DIGIT = _class_mask(str.isdigit)
M_DECIMAL = _class_mask(str.isdecimal)
M_NUMERIC = _class_mask(str.isnumeric)
M_ALNUM = _class_mask(str.isalnum)
M_UPPER = _class_mask(str.isupper)
M_LOWER = _class_mask(str.islower)
M_TITLEC = _class_mask(str.istitle)
M_PRINT = _class_mask(str.isprintable)
M_IDSTART = _class_mask(str.isidentifier)
M_LINEB = _class_mask(lambda c: len((c + "x").splitlines()) == 2)
# case maps that stay inside latin-1 and keep length 1
M_LOWER_OK = _class_mask(lambda c: len(c.lower()) == 1 and ord(c.lower()) < 256)
M_UPPER_OK = _class_mask(lambda c: len(c.upper()) == 1 and ord(c.upper()) < 256)
T_LOWER = tuple(ord(chr(i).lower()) if M_LOWER_OK >> i & 1 else i for i in range(256))
T_UPPER = tuple(ord(chr(i).upper()) if M_UPPER_OK >> i & 1 else i for i in range(256))
T_SWAP = tuple(
    ord(chr(i).swapcase()) if (M_LOWER_OK & M_UPPER_OK) >> i & 1 else i for i in range(256)
)


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return E.branch(self.c)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        c = o.c if type(o) is SymBool else o
        return sbool(mk_and([self.c, c]))

    __rand__ = __and__

    def __or__(self, o):
        c = o.c if type(o) is SymBool else o
        return sbool(mk_or([self.c, c]))

    __ror__ = __or__

    def __invert__(self):
        return sbool(mk_not(self.c))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return "<SymBool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def sbool(c):
    if c is True or c is False:
        return c
    v = E.eval3(c)
    if v is not None:
        return v
    return SymBool(c)


def cond_of(b):
    if type(b) is SymBool:
        return b.c
    return bool(b)


class SymChar:
    """one symbolic latin-1 code point: table[base variable] (table None = identity)"""

    __slots__ = ("var", "table")

    def __init__(self, var, table=None):
        self.var = var
        self.table = table

    def dom(self):
        """mask of possible values"""
        d = E.dom[self.var]
        if self.table is None:
            return d
        m = 0
        t = self.table
        while d:
            b = d & -d
            m |= 1 << t[b.bit_length() - 1]
            d ^= b
        return m

    def pre(self, mask):
        """mask over the base variable for `value in mask`"""
        if self.table is None:
            return mask
        m = 0
        for i, x in enumerate(self.table):
            if mask >> x & 1:
                m |= 1 << i
        return m

    def isin(self, mask):
        return Mask(self.var, self.pre(mask))

    def fixed(self):
        if E.no_collapse:
            return None
        d = E.dom[self.var]
        if d & (d - 1):
            return None
        v = d.bit_length() - 1
        return v if self.table is None else self.table[v]

    def expr(self):
        x = E.var_expr(self.var)
        if self.table is None:
            return x
        e = x
        # group by offset
        groups = {}
        for i, t in enumerate(self.table):
            if t != i:
                groups.setdefault((t - i) & 255, []).append(i)
        for off, idx in groups.items():
            m = 0
            for i in idx:
                m |= 1 << i
            e = z3.If(E.expr(Mask(self.var, m)), x + z3.BitVecVal(off, 8), e)
        return e

    def key(self):
        return (self.var, self.table)

    def __eq__(self, o):
        return type(o) is SymChar and o.var == self.var and o.table == self.table

    def __hash__(self):
        return hash((self.var, self.table))

    def concretize(self):
        v = E.concretize_char(self.var)
        return v if self.table is None else self.table[v]


class CharCode:
    """ord() of a symbolic character: compared without deciding its value"""

    def __init__(self, it):
        self.it = it

    def realize(self):
        return self.it.concretize()

    __index__ = __int__ = realize

    def __hash__(self):
        return hash(self.realize())

    def __repr__(self):
        return repr(self.realize())

    def __bool__(self):
        return decide(it_in(self.it, ALL & ~1))

    def __format__(self, spec):
        return format(self.realize(), spec)


def _code_cmp(name):
    f = getattr(int, name)

    def op(self, o):
        if type(o) is CharCode or type(o) is SymInt:
            o = o.realize()
        if not isinstance(o, (int, float)):
            return NotImplemented
        m = 0
        for v in range(256):
            if getattr(operator, name)(v, o):
                m |= 1 << v
        return sbool(it_in(self.it, m))

    return op


for _n in "__lt__ __le__ __gt__ __ge__ __eq__ __ne__".split():
    setattr(CharCode, _n, _code_cmp(_n))


def _code_op(name):
    def op(self, *a):
        return getattr(self.realize(), name)(*[x.realize() if hasattr(x, "realize") else x for x in a])

    return op


for _n in "add sub mul floordiv mod and or xor lshift rshift truediv pow radd rsub rmul rfloordiv rmod rand ror rxor neg pos abs invert".split():
    setattr(CharCode, "__%s__" % _n, _code_op("__%s__" % _n))


class Opaque:
    """text whose characters are not modelled (e.g. repr of a container in a log line)"""

    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


def it_in(it, mask, pred=None):
    """item in char class -> bool or Cond"""
    if type(it) is int:
        if it < 256:
            return bool(mask >> it & 1)
        return bool(pred(chr(it))) if pred else False
    if type(it) is Opaque:
        raise Unsupported("inspected opaque text")
    d = E.dom[it.var]
    m = it.pre(mask)
    if not d & ~m:
        return True
    if not d & m:
        return False
    return Mask(it.var, m)


def it_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is int:
        if tb is int:
            return a == b
        a, b, ta, tb = b, a, tb, ta
    if ta is Opaque or tb is Opaque:
        raise Unsupported("compared opaque text")
    if tb is int:
        if b > 255:
            return False
        return it_in(a, 1 << b)
    if a.var == b.var and a.table == b.table:
        return True
    if a.var == b.var:
        m = 0
        for i in range(256):
            x = a.table[i] if a.table else i
            y = b.table[i] if b.table else i
            if x == y:
                m |= 1 << i
        return sb_mask(a.var, m)
    da, db = a.dom(), b.dom()
    if not da & db:
        return False
    if db & (db - 1) == 0:
        return it_in(a, db)
    if da & (da - 1) == 0:
        return it_in(b, da)
    if a.var > b.var:
        a, b = b, a
    return Z(a.expr() == b.expr())


def sb_mask(var, m):
    d = E.dom[var]
    if not d & ~m:
        return True
    if not d & m:
        return False
    return Mask(var, m)


def decide(c):
    if c is True or c is False:
        return c
    return E.branch(c)


def items_of(s):
    if type(s) is SymStr:
        return s.items
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("can only concatenate str (not %r) to str" % type(s).__name__)


def mkstr(items):
    """collapse to a native str when every item is fixed"""
    out = []
    symbolic = False
    for it in items:
        if type(it) is SymChar:
            v = it.fixed()
            if v is not None:
                it = v
            else:
                symbolic = True
        elif type(it) is Opaque:
            symbolic = True
        out.append(it)
    if not symbolic:
        return "".join(map(chr, out))
    return SymStr(tuple(out))


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


class _StructHash:
    depth = 0


class SymStr:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    # ---- basics
    def __len__(self):
        for it in self.items:
            if type(it) is Opaque:
                raise Unsupported("length of opaque text")
        return len(self.items)

    def __bool__(self):
        return True  # a SymStr is never empty

    def __iter__(self):
        for it in self.items:
            yield mkstr((it,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.items[_slice(i)])
        if type(i) is SymInt:
            i = i.__index__()
        return mkstr((self.items[i],))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr(self.items + items_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr(items_of(o) + self.items)

    def __mul__(self, n):
        return mkstr(self.items * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent_format(self, args)

    def _norm(self):
        return mkstr(self.items)

    def eq_cond(self, o):
        b = items_of(o)
        a = self.items
        if a is b:
            return True
        if len(a) != len(b):
            for it in a + b:
                if type(it) is Opaque:
                    raise Unsupported("compared opaque text")
            return False
        return mk_and([it_eq(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        if _StructHash.depth:
            return type(o) is SymStr and o.items == self.items
        if not is_str(o):
            return NotImplemented
        return sbool(self.eq_cond(o))

    def __ne__(self, o):
        if _StructHash.depth:
            return not (type(o) is SymStr and o.items == self.items)
        if not is_str(o):
            return NotImplemented
        return sbool(mk_not(self.eq_cond(o)))

    def __hash__(self):
        if _StructHash.depth:
            return hash(self.items)
        return hash(self.realize())

    def realize(self):
        """exhaustively fork until concrete"""
        out = []
        for it in self.items:
            if type(it) is SymChar:
                it = it.concretize()
            elif type(it) is Opaque:
                raise Unsupported("realized opaque text")
            out.append(it)
        return "".join(map(chr, out))

    def __str__(self):
        return self.realize()

    def __repr__(self):
        return "<SymStr %s>" % "".join(
            chr(i) if type(i) is int else ("?%d" % i.var if type(i) is SymChar else "<opaque>")
            for i in self.items
        )

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __fspath__(self):
        return self.realize()

    def __reduce__(self):
        return (str, (self.realize(),))

    # ---- ordering
    def _cmp(self, o):
        a, b = self.items, items_of(o)
        for x, y in zip(a, b):
            if decide(it_eq(x, y)):
                continue
            return -1 if decide(it_lt(x, y)) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0 if is_str(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o) <= 0 if is_str(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o) > 0 if is_str(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o) >= 0 if is_str(o) else NotImplemented

    # ---- searching
    def _match_at(self, sub, i):
        a = self.items
        cs = []
        for k, y in enumerate(sub):
            c = it_eq(a[i + k], y)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return mk_and(cs)

    def _range(self, start, end):
        n = len(self.items)
        if start is None:
            start = 0
        if end is None:
            end = n
        start, end = int(start), int(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        s = items_of(sub)
        lo, hi = self._range(start, end)
        if lo > len(self.items):
            return -1
        for i in range(lo, hi - len(s) + 1):
            c = self._match_at(s, i)
            if decide(c):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = items_of(sub)
        lo, hi = self._range(start, end)
        for i in range(hi - len(s), lo - 1, -1):
            if decide(self._match_at(s, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def contains_cond(self, sub):
        if not is_str(sub):
            raise TypeError(
                "'in <string>' requires string as left operand, not %s" % type(sub).__name__
            )
        s = items_of(sub)
        if not s:
            return True
        return mk_or([self._match_at(s, i) for i in range(len(self.items) - len(s) + 1)])

    def __contains__(self, sub):
        return decide(self.contains_cond(sub))

    def count(self, sub, start=None, end=None):
        s = items_of(sub)
        lo, hi = self._range(start, end)
        if not s:
            return max(0, hi - lo + 1)
        n, i = 0, lo
        while i <= hi - len(s):
            if decide(self._match_at(s, i)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, start, end)) for q in p)
        s = items_of(p)
        lo, hi = self._range(start, end)
        if hi - lo < len(s) or lo > len(self.items):
            return False
        return sbool(self._match_at(s, lo))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q, start, end)) for q in p)
        s = items_of(p)
        lo, hi = self._range(start, end)
        if hi - lo < len(s):
            return False
        return sbool(self._match_at(s, hi - len(s)))

    # ---- trimming
    def _strip_test(self, chars):
        if chars is None:
            return lambda it: it_in(it, M_SPACE, str.isspace)
        cs = items_of(chars)
        if all(type(c) is int and c < 256 for c in cs):
            m = mask_of(cs)
            return lambda it: it_in(it, m)
        return lambda it: mk_or([it_eq(it, c) for c in cs])

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.items) and decide(t(self.items[i])):
            i += 1
        return mkstr(self.items[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        j = len(self.items)
        while j > 0 and decide(t(self.items[j - 1])):
            j -= 1
        return mkstr(self.items[:j])

    def strip(self, chars=None):
        t = self._strip_test(chars)
        a = self.items
        i, j = 0, len(a)
        while i < j and decide(t(a[i])):
            i += 1
        while j > i and decide(t(a[j - 1])):
            j -= 1
        return mkstr(a[i:j])

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return mkstr(self.items[len(items_of(p)):])
        return self

    def removesuffix(self, p):
        n = len(items_of(p))
        if n and bool(self.endswith(p)):
            return mkstr(self.items[:-n])
        return self

    # ---- splitting / joining
    def split(self, sep=None, maxsplit=-1):
        a = self.items
        out = []
        if sep is None:
            i, n = 0, len(a)
            while i < n:
                while i < n and decide(it_in(a[i], M_SPACE, str.isspace)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(a[i:]).rstrip())
                    break
                j = i
                while j < n and not decide(it_in(a[j], M_SPACE, str.isspace)):
                    j += 1
                out.append(mkstr(a[i:j]))
                i = j
            return out
        s = items_of(sep)
        if not s:
            raise ValueError("empty separator")
        i = start = 0
        while i <= len(a) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if decide(self._match_at(s, i)):
                out.append(mkstr(a[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(mkstr(a[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        a = self.items
        out = []
        if sep is None:
            j = len(a)
            while True:
                while j > 0 and decide(it_in(a[j - 1], M_SPACE, str.isspace)):
                    j -= 1
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    out.append(mkstr(a[:j]).lstrip())
                    break
                i = j
                while i > 0 and not decide(it_in(a[i - 1], M_SPACE, str.isspace)):
                    i -= 1
                out.append(mkstr(a[i:j]))
                j = i
            return out[::-1]
        s = items_of(sep)
        end = len(a)
        i = end - len(s)
        while i >= 0 and len(out) < maxsplit:
            if decide(self._match_at(s, i)):
                out.append(mkstr(a[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(mkstr(a[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        n = len(items_of(sep))
        return (mkstr(self.items[:i]), sep, mkstr(self.items[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        n = len(items_of(sep))
        return (mkstr(self.items[:i]), sep, mkstr(self.items[i + n:]))

    def splitlines(self, keepends=False):
        a = self.items
        out = []
        i = start = 0
        n = len(a)
        big = lambda c: len((c + "x").splitlines()) == 2
        while i < n:
            if decide(it_in(a[i], M_LINEB, big)):
                end = i
                if (
                    i + 1 < n
                    and decide(it_eq(a[i], 13))
                    and decide(it_eq(a[i + 1], 10))
                ):
                    i += 1
                i += 1
                out.append(mkstr(a[start:i] if keepends else a[start:end]))
                start = i
            else:
                i += 1
        if start < n:
            out.append(mkstr(a[start:]))
        return out

    def join(self, seq):
        return sym_join(self, seq)

    def replace(self, old, new, count=-1):
        s, r, a = items_of(old), items_of(new), self.items
        out = []
        if not s:
            k = 0
            for it in a:
                if count < 0 or k < count:
                    out.extend(r)
                    k += 1
                out.append(it)
            if count < 0 or k < count:
                out.extend(r)
            return mkstr(out)
        i = k = 0
        while i < len(a):
            if (
                i <= len(a) - len(s)
                and (count < 0 or k < count)
                and decide(self._match_at(s, i))
            ):
                out.extend(r)
                i += len(s)
                k += 1
            else:
                out.append(a[i])
                i += 1
        return mkstr(out)

    def expandtabs(self, n=8):
        return self.realize().expandtabs(n)

    # ---- classes
    def _all(self, mask, pred):
        return sbool(mk_and([it_in(it, mask, pred) for it in self.items]))

    def isspace(self):
        return self._all(M_SPACE, str.isspace)

    def isalpha(self):
        return self._all(M_ALPHA, str.isalpha)

    def isdigit(self):
        return self._all(M_DIGIT, str.isdigit)

    def isdecimal(self):
        return self._all(M_DECIMAL, str.isdecimal)

    def isnumeric(self):
        return self._all(M_NUMERIC, str.isnumeric)

    def isalnum(self):
        return self._all(M_ALNUM, str.isalnum)

    def isprintable(self):
        return self._all(M_PRINT, str.isprintable)

    def isascii(self):
        return self._all((1 << 128) - 1, str.isascii)

    def isupper(self):
        if len(self.items) == 1:
            return self._all(M_UPPER, str.isupper)
        return self.realize().isupper()

    def islower(self):
        if len(self.items) == 1:
            return self._all(M_LOWER, str.islower)
        return self.realize().islower()

    def isidentifier(self):
        return self.realize().isidentifier()

    def istitle(self):
        return self.realize().istitle()

    # ---- case
    def _map(self, ok, table, fn):
        out = []
        for it in self.items:
            if type(it) is SymChar:
                if not decide(it_in(it, ok)):
                    it = it.concretize()
            if type(it) is int:
                out.extend(map(ord, fn(chr(it))))
            elif type(it) is Opaque:
                raise Unsupported("case of opaque text")
            else:
                t = table if it.table is None else tuple(table[x] for x in it.table)
                d = E.dom[it.var]
                # identity on the whole domain: keep the plain variable
                if it.table is None and all(
                    t[i] == i for i in range(256) if d >> i & 1
                ):
                    out.append(it)
                else:
                    out.append(SymChar(it.var, t))
        return mkstr(out)

    def lower(self):
        return self._map(M_LOWER_OK, T_LOWER, str.lower)

    casefold = lower

    def upper(self):
        return self._map(M_UPPER_OK, T_UPPER, str.upper)

    def swapcase(self):
        return self._map(M_LOWER_OK & M_UPPER_OK, T_SWAP, str.swapcase)

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def title(self):
        return self.realize().title()

    # ---- padding
    def ljust(self, w, f=" "):
        return self + f * max(0, w - len(self.items))

    def rjust(self, w, f=" "):
        return f * max(0, w - len(self.items)) + self

    def center(self, w, f=" "):
        return self.realize().center(w, f)

    def zfill(self, w):
        return self.realize().zfill(w)

    def encode(self, *a, **k):
        return self.realize().encode(*a, **k)

    def translate(self, t):
        return self.realize().translate(t)

    def format(self, *a, **k):
        return brace_format(self, a, k)

    def isolate(self):
        return self


def it_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(a) is Opaque or type(b) is Opaque:
        raise Unsupported("ordered opaque text")
    if type(b) is int:
        return it_in(a, (1 << min(b, 256)) - 1)
    if type(a) is int:
        if a >= 255:
            return False
        return it_in(b, ALL & ~((1 << (a + 1)) - 1))
    return Z(z3.ULT(a.expr(), b.expr()))


def _slice(s):
    def c(x):
        return x.__index__() if type(x) is SymInt else x

    return slice(c(s.start), c(s.stop), c(s.step))


def sym_join(sep, seq):
    seq = list(seq)
    out = []
    si = items_of(sep)
    for i, x in enumerate(seq):
        if not is_str(x):
            raise TypeError(
                "sequence item %d: expected str instance, %s found" % (i, type(x).__name__)
            )
        if i and si:
            out.extend(si)
        out.extend(items_of(x))
    return mkstr(out)


def contains_symbolic(x, depth=0):
    t = type(x)
    if t in (SymStr, SymBool, SymInt):
        return True
    if depth > 40:
        return False
    if t is str or x is None or t is int or t is bool:
        return False
    if isinstance(x, dict):
        return any(
            contains_symbolic(k, depth + 1) or contains_symbolic(v, depth + 1)
            for k, v in x.items()
        )
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(contains_symbolic(i, depth + 1) for i in x)
    if isinstance(x, BaseException):
        return contains_symbolic(x.args, depth + 1)
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict) and not isinstance(x, type):
        return depth < 6 and any(contains_symbolic(v, depth + 4) for v in d.values())
    return False


def to_text(x, conv=None):
    """str(x) / repr(x) without inspecting symbolic parts"""
    if conv in ("r", "a"):
        if not contains_symbolic(x):
            return repr(x)
        return mkstr((Opaque("repr"),))
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t is SymInt:
        return str(x.__index__())
    if t is SymBool:
        return str(bool(x))
    if isinstance(x, BaseException):
        if not contains_symbolic(x.args):
            return str(x)
        if len(x.args) == 1:
            return to_text(x.args[0])
        return mkstr((Opaque("exc"),))
    if isinstance(x, (list, dict, tuple, set, frozenset)):
        if contains_symbolic(x):
            return mkstr((Opaque("container"),))
        return str(x)
    if hasattr(x, "__dict__") and not isinstance(x, type) and contains_symbolic(x):
        if type(x).__str__ is object.__str__ or hasattr(type(x), "model_dump"):
            return mkstr((Opaque("object"),))
    return type(x).__str__(x)


def fmt_value(v, conv, spec):
    if conv:
        v = to_text(v, conv) if conv != "s" else to_text(v)
    if type(v) in (SymInt, SymBool):
        v = v.realize()
    if spec:
        if type(v) is SymStr:
            if type(spec) is SymStr:
                spec = spec.realize()
            return format(v.realize(), spec)
        return format(v, spec if type(spec) is str else spec.realize())
    if type(v) is SymStr or type(v) is str:
        return v
    if isinstance(v, (list, dict, tuple, set, frozenset, BaseException)) or hasattr(
        v, "__dict__"
    ):
        return to_text(v)
    return format(v, "")


def percent_format(f, args):
    f = items_of(f)
    tup = args if isinstance(args, tuple) else (args,)
    out = []
    i = k = 0
    n = len(f)

    def get(name=None):
        nonlocal k
        if name is not None:
            return args[name]
        if k >= len(tup):
            raise TypeError("not enough arguments for format string")
        v = tup[k]
        k += 1
        return v

    while i < n:
        c = f[i]
        if type(c) is not int:
            if decide(it_eq(c, 37)):
                c = 37
            else:
                out.append(f[i])
                i += 1
                continue
        if c != 37:
            out.append(c)
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError("incomplete format")
        name = None
        spec = ""
        c = _conc(f, i)
        if c == "(":
            j = i
            while _conc(f, j) != ")":
                j += 1
            name = "".join(_conc(f, q) for q in range(i + 1, j))
            i = j + 1
            c = _conc(f, i)
        while c in "-+ #0123456789.":
            spec += c
            i += 1
            c = _conc(f, i)
        i += 1
        if c == "%":
            out.append(37)
            continue
        v = get(name)
        if c == "s" and not spec:
            out.extend(items_of(to_text(v)))
        elif c == "r" and not spec:
            out.extend(items_of(to_text(v, "r")))
        else:
            if type(v) in (SymInt, SymStr, SymBool):
                v = v.realize() if hasattr(v, "realize") else bool(v)
            out.extend(map(ord, ("%" + spec + c) % (v,)))
    if name_unused(args, k, tup):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def name_unused(args, k, tup):
    if isinstance(args, dict):
        return False
    return k < len(tup)


def _conc(f, i):
    it = f[i]
    if type(it) is SymChar:
        it = it.concretize()
    return chr(it)


def brace_format(f, args, kw):
    import string

    if type(f) is SymStr:
        f = f.realize()
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        else:
            head, rest = __import__("_string").formatter_field_name_split(field)
            v = args[head] if isinstance(head, int) else kw[head]
            for is_attr, name in rest:
                v = getattr(v, name) if is_attr else v[name]
        out.append(fmt_value(v, conv, spec))
    return sym_join("", out)


# --------------------------------------------------------------------------


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def realize(self):
        return E.concretize_int(self.e)

    def __index__(self):
        return self.realize()

    __int__ = __index__

    def __hash__(self):
        if _StructHash.depth:
            return hash(self.e)
        return hash(self.realize())

    def __bool__(self):
        return decide(_z(self.e != 0))

    def __repr__(self):
        return "<SymInt>"

    def __str__(self):
        return str(self.realize())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))


def _z(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Z(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _num(o):
    if type(o) is SymInt:
        return o.e
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    if type(o) is SymBool:
        return int(bool(o))
    return None


def _arith(name, f):
    def op(self, o):
        if isinstance(o, float):
            return getattr(self.realize(), name)(o)
        b = _num(o)
        if b is None:
            return NotImplemented
        return mkint(f(self.e, b))

    return op


def _cmpop(f, name):
    def op(self, o):
        if isinstance(o, float):
            if o == float("inf"):
                return {"lt": True, "le": True, "gt": False, "ge": False, "eq": False, "ne": True}[name]
            o2 = int(o)
            if o2 != o:
                return getattr(self.realize(), "__%s__" % name)(o)
            o = o2
        b = _num(o)
        if b is None:
            return NotImplemented
        c = _z(f(self.e, b))
        return sbool(c)

    return op


def _fdiv(a, b):
    return a / b  # z3 Int division: floor for positive divisor


SymInt.__add__ = SymInt.__radd__ = _arith("__add__", lambda a, b: a + b)
SymInt.__sub__ = _arith("__sub__", lambda a, b: a - b)
SymInt.__rsub__ = _arith("__rsub__", lambda a, b: b - a)
SymInt.__lt__ = _cmpop(lambda a, b: a < b, "lt")
SymInt.__le__ = _cmpop(lambda a, b: a <= b, "le")
SymInt.__gt__ = _cmpop(lambda a, b: a > b, "gt")
SymInt.__ge__ = _cmpop(lambda a, b: a >= b, "ge")


def _mul(self, o):
    if is_str(o) or isinstance(o, (list, tuple)):
        return o * self.realize()
    b = _num(o)
    if b is None:
        return NotImplemented
    return mkint(self.e * b)


SymInt.__mul__ = SymInt.__rmul__ = _mul


def _floordiv(self, o):
    if isinstance(o, int) and o > 0:
        return mkint(self.e / o)
    return self.realize() // int(o)


def _modi(self, o):
    if isinstance(o, int) and o > 0:
        return mkint(self.e % o)
    return self.realize() % int(o)


SymInt.__floordiv__ = _floordiv
SymInt.__mod__ = _modi
SymInt.__rfloordiv__ = lambda self, o: o // self.realize()
SymInt.__rmod__ = lambda self, o: o % self.realize()
SymInt.__truediv__ = lambda self, o: self.realize() / o
SymInt.__rtruediv__ = lambda self, o: o / self.realize()


def _ieq(self, o):
    if isinstance(o, float):
        if int(o) != o:
            return False
        o = int(o)
    b = _num(o)
    if b is None:
        return NotImplemented
    if _StructHash.depth:
        return type(o) is SymInt and o.e.eq(self.e)
    return sbool(_z(self.e == b))


def _ine(self, o):
    r = _ieq(self, o)
    if r is NotImplemented:
        return r
    return sbool(mk_not(cond_of(r)))


SymInt.__eq__ = _ieq
SymInt.__ne__ = _ine


# --------------------------------------------------------------------------
# containers with symbolic keys


def is_sym_key(k):
    t = type(k)
    if t is SymStr or t is SymInt:
        return True
    if t is tuple:
        return any(is_sym_key(x) for x in k)
    return False


def eq_cond(a, b):
    """a == b as a Cond/bool"""
    if type(a) is SymStr and is_str(b):
        return a.eq_cond(b)
    if type(b) is SymStr and is_str(a):
        return b.eq_cond(a)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return mk_and([eq_cond(x, y) for x, y in zip(a, b)])
    if is_str(a) != is_str(b) and (type(a) is SymStr or type(b) is SymStr):
        # enum members that equal strings (str compare in __eq__)
        r = a == b
        return cond_of(r)
    r = a == b
    return cond_of(r)


class _struct:
    def __enter__(self):
        _StructHash.depth += 1

    def __exit__(self, *a):
        _StructHash.depth -= 1


_STRUCT = _struct()
_MISSING = object()


def find_key(keys, has_sym, key, native):
    """resolve `key` against stored keys; returns the stored key or _MISSING"""
    ks = is_sym_key(key)
    if not ks and not has_sym:
        return key if native(key) else _MISSING
    if ks and type(key) is SymStr:
        key = key._norm()
        if type(key) is str and not has_sym:
            return key if native(key) else _MISSING
    cands = []
    klen = len(key) if is_str(key) else None
    for k in keys:
        if klen is not None and is_str(k) and len(k) != klen:
            continue
        if klen is None and is_str(k):
            continue
        c = eq_cond(key, k)
        if c is False:
            continue
        if c is True:
            if not cands:
                return k
            cands.append((k, True))
            break
        cands.append((k, c))
    if not cands:
        return _MISSING
    anyc = mk_or([c for _, c in cands])
    if not decide(anyc):
        return _MISSING
    for k, c in cands[:-1]:
        if decide(c):
            return k
    return cands[-1][0]


class SymDict(dict):
    """dict whose lookups decide key equality symbolically"""

    __slots__ = ("_hs",)

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._hs = False
        if a or k:
            self.update(*a, **k)

    def _find(self, key):
        if not self._hs and not is_sym_key(key):
            return key if dict.__contains__(self, key) else _MISSING
        return find_key(
            list(dict.keys(self)), self._hs, key, lambda q: dict.__contains__(self, q)
        )

    def __contains__(self, key):
        return self._find(key) is not _MISSING

    def __missing__(self, key):
        raise KeyError(key)

    def _raw_get(self, k):
        if self._hs:
            with _STRUCT:
                return dict.__getitem__(self, k)
        return dict.__getitem__(self, k)

    def __getitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            return self.__missing__(key)
        return self._raw_get(k)

    def get(self, key, default=None):
        k = self._find(key)
        if k is _MISSING:
            return default
        return self._raw_get(k)

    def __setitem__(self, key, value):
        k = self._find(key)
        if k is _MISSING:
            k = key
            if is_sym_key(key):
                self._hs = True
        if self._hs:
            with _STRUCT:
                dict.__setitem__(self, k, value)
        else:
            dict.__setitem__(self, k, value)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            raise KeyError(key)
        with _STRUCT:
            dict.__delitem__(self, k)

    def pop(self, key, *d):
        k = self._find(key)
        if k is _MISSING:
            if d:
                return d[0]
            raise KeyError(key)
        with _STRUCT:
            return dict.pop(self, k)

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is _MISSING:
            self[key] = default
            return default
        return self._raw_get(k)

    def update(self, *a, **kw):
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                if isinstance(src, dict):
                    for k, v in list(src.items()):
                        self[k] = v
                else:
                    for k in src.keys():
                        self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        n = SymDict()
        n._hs = self._hs
        with _STRUCT:
            dict.update(n, self)
        return n

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c

        n = SymDict()
        memo[id(self)] = n
        n._hs = self._hs
        for k, v in list(dict.items(self)):
            v2 = _c.deepcopy(v, memo)
            with _STRUCT:
                dict.__setitem__(n, k, v2)
        return n

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def __ror__(self, o):
        n = SymDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in list(dict.items(self)):
            if isinstance(o, SymDict):
                w = o.get(k, _MISSING)
            else:
                w = SymDict(o).get(k, _MISSING)
            if w is _MISSING:
                return False
            if not (v is w or v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    @classmethod
    def fromkeys(cls, ks, v=None):
        n = cls()
        for k in ks:
            n[k] = v
        return n

    def __reduce__(self):
        return (dict, (list(self.items()),))


class SymSet(set):
    def __init__(self, it=()):
        set.__init__(self)
        self._hs = False
        for x in it:
            self.add(x)

    def _find(self, key):
        if not self._hs and not is_sym_key(key):
            return key if set.__contains__(self, key) else _MISSING
        return find_key(list(set.__iter__(self)), self._hs, key, lambda q: set.__contains__(self, q))

    def __contains__(self, key):
        return self._find(key) is not _MISSING

    def add(self, key):
        if self._find(key) is _MISSING:
            if is_sym_key(key):
                self._hs = True
            if self._hs:
                with _STRUCT:
                    set.add(self, key)
            else:
                set.add(self, key)

    def discard(self, key):
        k = self._find(key)
        if k is not _MISSING:
            with _STRUCT:
                set.discard(self, k)

    def remove(self, key):
        k = self._find(key)
        if k is _MISSING:
            raise KeyError(key)
        with _STRUCT:
            set.discard(self, k)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def copy(self):
        n = SymSet()
        n._hs = self._hs
        with _STRUCT:
            set.update(n, self)
        return n

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def union(self, *its):
        n = self.copy()
        n.update(*its)
        return n

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *its):
        out = SymSet()
        for x in list(set.__iter__(self)):
            if all(x in (it if isinstance(it, set) else list(it)) for it in its):
                out.add(x)
        return out

    def __and__(self, o):
        return self.intersection(o)

    def difference(self, *its):
        out = SymSet()
        for x in list(set.__iter__(self)):
            if not any(x in (SymSet(it)) for it in its):
                out.add(x)
        return out

    def __sub__(self, o):
        return self.difference(o)

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in list(set.__iter__(self)))

    __le__ = issubset

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


def sym_int(x, *base):
    """int(x)"""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return int(bool(x))
    if type(x) is SymStr:
        if base:
            b = base[0]
        else:
            b = 10
        return int(x.realize_for_int(b), b)
    return int(x, *base)


def _realize_for_int(self, b):
    """concretize only as far as needed to decide validity, then the digits"""
    t = self.strip()
    if type(t) is str:
        return t
    items = t.items
    digs = M_DECIMAL | mask_of("+-_") | (mask_of("abcdefABCDEFxX") if b != 10 else 0)
    for it in items:
        if type(it) is SymChar and not decide(it_in(it, digs)):
            raise ValueError("invalid literal for int() with base %d" % b)
        if type(it) is int and it < 256 and not digs >> it & 1:
            raise ValueError("invalid literal for int() with base %d" % b)
    return t.realize()


SymStr.realize_for_int = _realize_for_int


def sym_float(x):
    if type(x) is SymStr:
        return float(x.realize())
    if type(x) is SymInt:
        return float(x.realize())
    return float(x)
