"""symtex.rx -- the `re` module over symbolic strings.

Patterns are parsed by CPython's own regex parser (re._parser); fully concrete
subjects are handed to the real `re`.  For subjects with symbolic characters the
parse tree is executed by a backtracking matcher whose character tests fork through
the engine, so match results are exactly those of `re` on every path."""
import re as _re
import re._parser as _p
import re._constants as _c
import re._compiler as _comp

from .core import E, ALL, mk_and, mk_or, mk_not, tick, Unsupported
from .values import (
    SymStr, SymChar, SymInt, mkstr, items_of, it_in, it_eq, decide, is_str, Opaque, sym_join, M_ALNUM,
    cond_of,
)

PUA = 0xE000
_real_compile = _re.compile

_WORD = M_ALNUM | (1 << 95)
_isword = lambda ch: ch.isalnum() or ch == "_"


_SETS = {}


class _Set:
    """a one-character matcher: mask over latin-1 plus exact native test beyond"""

    __slots__ = ("mask", "native", "cache", "syms", "neg", "lit")

    def __init__(self, op, av, flags, state, symmap):
        self.syms = None
        self.cache = {}
        self.neg = False
        self.lit = None
        if symmap and _has_sym(op, av, symmap):
            # symbolic members: (mask of the rest, list of items)
            self.neg = op is _c.NOT_LITERAL or (op is _c.IN and av and av[0][0] is _c.NEGATE)
            lits, rest = [], []
            if op is _c.IN:
                for o, a in av:
                    if o is _c.NEGATE:
                        continue
                    if o is _c.LITERAL and a in symmap:
                        lits.append(symmap[a])
                    else:
                        rest.append((o, a))
            else:
                lits.append(symmap[av])
            if flags & _re.IGNORECASE:
                raise Unsupported("symbolic literal under IGNORECASE")
            self.syms = lits
            if rest:
                s = _Set(_c.IN, rest, flags, state, None)
                self.mask, self.native = s.mask, s.native
            else:
                self.mask, self.native = 0, (lambda c: False)
            return
        key = (str(op), repr(av), flags & (_re.I | _re.S | _re.A | _re.U))
        hit = _SETS.get(key)
        if hit is None:
            sp = _p.SubPattern(state, [(op, av)])
            pat = _comp.compile(sp, flags)
            native = lambda c, f=pat.fullmatch: f(chr(c)) is not None
            m = 0
            for i in range(256):
                if native(i):
                    m |= 1 << i
            hit = _SETS[key] = (m, native)
        self.mask, self.native = hit
        if op is _c.LITERAL and not flags & _re.IGNORECASE:
            self.lit = av

    def cond(self, it):
        if self.syms is not None:
            cs = [it_eq(it, s) for s in self.syms]
            cs.append(self._base(it))
            c = mk_or(cs)
            return mk_not(c) if self.neg else c
        return self._base(it)

    def _base(self, it):
        if type(it) is int:
            if it < 256:
                return bool(self.mask >> it & 1)
            r = self.cache.get(it)
            if r is None:
                r = self.cache[it] = self.native(it)
            return r
        return it_in(it, self.mask)


def _has_sym(op, av, symmap):
    if op in (_c.LITERAL, _c.NOT_LITERAL):
        return av in symmap
    if op is _c.IN:
        return any(o is _c.LITERAL and a in symmap for o, a in av)
    return False


class First:
    """over-approximate first-character set"""

    __slots__ = ("mask", "beyond", "nullable", "sym")

    def __init__(self, mask=0, beyond=False, nullable=False, sym=False):
        self.mask = mask
        self.beyond = beyond
        self.nullable = nullable
        self.sym = sym


class Prog:
    """compiled matcher program"""

    def __init__(self, tree, flags, symmap=None):
        self.flags = flags
        self.state = tree.state
        self.symmap = symmap or {}
        self.ngroups = tree.state.groups
        self.first = self._first_seq(list(tree))
        self.m = self._seq(list(tree), flags)

    # ---- first sets
    def _first_seq(self, nodes):
        f = First(nullable=True)
        for op, av in nodes:
            g = self._first_node(op, av)
            f.mask |= g.mask
            f.beyond |= g.beyond
            f.sym |= g.sym
            if not g.nullable:
                f.nullable = False
                return f
        return f

    def _first_node(self, op, av):
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.IN, _c.ANY):
            s = self._set(op, av, self._curflags)
            if s.syms is not None:
                return First(ALL, True, False, True)
            return First(s.mask, True if op is not _c.LITERAL or av > 255 else False, False)
        if op is _c.BRANCH:
            f = First()
            for b in av[1]:
                g = self._first_seq(list(b))
                f.mask |= g.mask
                f.beyond |= g.beyond
                f.nullable |= g.nullable
                f.sym |= g.sym
            return f
        if op is _c.SUBPATTERN:
            if av[1] or av[2]:
                return First(ALL, True, self._first_seq(list(av[3])).nullable, True)
            return self._first_seq(list(av[3]))
        if op is _c.ATOMIC_GROUP:
            return self._first_seq(list(av))
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            g = self._first_seq(list(sub))
            if lo == 0:
                g.nullable = True
            return g
        if op in (_c.AT, _c.ASSERT, _c.ASSERT_NOT):
            return First(nullable=True)
        return First(ALL, True, True, True)

    _curflags = 0

    def _set(self, op, av, flags):
        key = (str(op), repr(av), flags)
        if not hasattr(self, "_sets"):
            self._sets = {}
        s = self._sets.get(key)
        if s is None:
            # LOCALE/VERBOSE etc. do not affect single characters
            s = self._sets[key] = _Set(op, av, flags, self.state, self.symmap)
        return s

    # ---- compile to closures: m(items, i, groups, k) -> end or -1
    def _seq(self, nodes, flags):
        ms = []
        lit = []

        def flush():
            if lit:
                ms.append(self._literals(list(lit)))
                lit.clear()

        for op, av in nodes:
            if op is _c.LITERAL:
                lit.append(self._set(op, av, flags))
                continue
            flush()
            ms.append(self._node(op, av, flags))
        flush()
        if not ms:
            return lambda a, i, g, k: k(i)
        if len(ms) == 1:
            return ms[0]
        return _chain(ms)

    def _literals(self, sets):
        n = len(sets)
        # native code points of the literal, when plain
        lits = [s.lit for s in sets]
        plain = all(x is not None for x in lits)
        s0 = sets[0]

        def m(a, i, g, k):
            if i + n > len(a):
                # too short: still a definite failure
                return -1
            if plain:
                # quick concrete refutation (no fork)
                for q in range(n):
                    it = a[i + q]
                    if type(it) is int and it != lits[q]:
                        return -1
            cs = []
            for q in range(n):
                c = sets[q].cond(a[i + q])
                if c is False:
                    return -1
                if c is not True:
                    cs.append(c)
            if cs:
                if not decide(cs[0]):
                    return -1
                if len(cs) > 1 and not decide(mk_and(cs[1:])):
                    return -1
            return k(i + n)

        return m

    def _single(self, op, av, flags):
        s = self._set(op, av, flags)

        def m(a, i, g, k):
            if i < len(a) and decide(s.cond(a[i])):
                return k(i + 1)
            return -1

        return m

    def _node(self, op, av, flags):
        if op in (_c.NOT_LITERAL, _c.IN, _c.ANY, _c.LITERAL):
            return self._single(op, av, flags)
        if op is _c.BRANCH:
            return self._branch([list(b) for b in av[1]], flags)
        if op is _c.SUBPATTERN:
            group, add, rem, sub = av
            fl = (flags | add) & ~rem
            inner = self._seq(list(sub), fl)
            if group is None:
                return inner

            def m(a, i, g, k):
                def k2(j):
                    old = g[group]
                    oldlast = g[0]
                    g[group] = (i, j)
                    g[0] = group
                    r = k(j)
                    if r < 0:
                        g[group] = old
                        g[0] = oldlast
                    return r

                return inner(a, i, g, k2)

            return m
        if op is _c.ATOMIC_GROUP:
            inner = self._seq(list(av), flags)

            def m(a, i, g, k):
                saved = list(g)
                j = inner(a, i, g, lambda x: x)
                if j < 0:
                    return -1
                r = k(j)
                if r < 0:
                    g[:] = saved
                return r

            return m
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            return self._repeat(op, av, flags)
        if op is _c.AT:
            return self._at(av, flags)
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            direction, sub = av
            inner = self._seq(list(sub), flags)
            want = op is _c.ASSERT
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("variable lookbehind")
            else:
                lo = 0

            def m(a, i, g, k):
                if direction < 0:
                    s = i - lo
                    if s < 0:
                        ok = False
                    else:
                        saved = list(g)
                        ok = inner(a, s, g, lambda j: j if j == i else -1) >= 0
                        if not ok or not want:
                            g[:] = saved
                else:
                    saved = list(g)
                    ok = inner(a, i, g, lambda j: j) >= 0
                    if not ok or not want:
                        g[:] = saved
                if ok is want:
                    return k(i)
                return -1

            return m
        if op is _c.GROUPREF:
            if flags & _re.IGNORECASE:
                raise Unsupported("backreference under IGNORECASE")

            def m(a, i, g, k):
                sp = g[av]
                if sp is None:
                    return -1
                s, e = sp
                n = e - s
                if i + n > len(a):
                    return -1
                if decide(mk_and([it_eq(a[s + q], a[i + q]) for q in range(n)])):
                    return k(i + n)
                return -1

            return m
        if op is _c.GROUPREF_EXISTS:
            gi, yes, no = av
            my = self._seq(list(yes), flags)
            mn = self._seq(list(no), flags) if no else (lambda a, i, g, k: k(i))

            def m(a, i, g, k):
                return (my if g[gi] is not None else mn)(a, i, g, k)

            return m
        if op is _c.FAILURE:
            return lambda a, i, g, k: -1
        raise Unsupported("regex op %s" % op)

    def _branch(self, branches, flags):
        comp = []
        for b in branches:
            # literal prefix for filtering
            pre = []
            if not flags & _re.IGNORECASE:
                for op, av in b:
                    if op is _c.LITERAL and av not in self.symmap:
                        pre.append(av)
                    else:
                        break
            comp.append([pre, b, None])
        if len(comp) <= 6:
            ms = [self._seq(b, flags) for _, b, _ in comp]

            def m(a, i, g, k):
                for x in ms:
                    r = x(a, i, g, k)
                    if r >= 0:
                        return r
                return -1

            return m
        # many alternatives: trie over literal prefixes
        root = [{}, []]
        for idx, (pre, b, _) in enumerate(comp):
            node = root
            for c in pre:
                node = node[0].setdefault(c, [{}, []])
            node[1].append(idx)

        def m(a, i, g, k):
            n = len(a)
            found = []
            st = [(root, i)]
            while st:
                node, j = st.pop()
                found.extend(node[1])
                kids = node[0]
                if not kids or j >= n:
                    continue
                it = a[j]
                if type(it) is int:
                    ch = kids.get(it)
                    if ch is not None:
                        st.append((ch, j + 1))
                elif type(it) is Opaque:
                    raise Unsupported("matched opaque text")
                else:
                    d = it.dom()
                    for c, ch in kids.items():
                        if c < 256 and d >> c & 1:
                            st.append((ch, j + 1))
            if len(found) > 1:
                found.sort()
            for idx in found:
                e = comp[idx]
                x = e[2]
                if x is None:
                    x = e[2] = self._seq(e[1], flags)
                r = x(a, i, g, k)
                if r >= 0:
                    return r
            return -1

        return m

    def _repeat(self, op, av, flags):
        lo, hi, sub = av
        hi = None if hi is _c.MAXREPEAT else hi
        sub = list(sub)
        single = len(sub) == 1 and sub[0][0] in (_c.LITERAL, _c.NOT_LITERAL, _c.IN, _c.ANY)
        if single:
            s = self._set(sub[0][0], sub[0][1], flags)
            if op is _c.MIN_REPEAT:

                def m(a, i, g, k):
                    n = 0
                    j = i
                    while n < lo:
                        if j < len(a) and decide(s.cond(a[j])):
                            j += 1
                            n += 1
                        else:
                            return -1
                    while True:
                        r = k(j)
                        if r >= 0:
                            return r
                        if (hi is None or n < hi) and j < len(a) and decide(s.cond(a[j])):
                            j += 1
                            n += 1
                        else:
                            return -1

                return m

            poss = op is _c.POSSESSIVE_REPEAT

            def m(a, i, g, k):
                n = 0
                j = i
                L = len(a)
                while (hi is None or n < hi) and j < L and decide(s.cond(a[j])):
                    j += 1
                    n += 1
                tick()
                if n < lo:
                    return -1
                if poss:
                    return k(j)
                while True:
                    r = k(j)
                    if r >= 0:
                        return r
                    if n == lo:
                        return -1
                    n -= 1
                    j -= 1

            return m
        inner = self._seq(sub, flags)
        if op is _c.POSSESSIVE_REPEAT:

            def m(a, i, g, k):
                n = 0
                j = i
                saved = list(g)
                while hi is None or n < hi:
                    e = inner(a, j, g, lambda x: x)
                    if e < 0:
                        break
                    n += 1
                    if e == j:
                        break
                    j = e
                if n < lo:
                    g[:] = saved
                    return -1
                r = k(j)
                if r < 0:
                    g[:] = saved
                return r

            return m
        greedy = op is _c.MAX_REPEAT

        def m(a, i, g, k):
            def step(j, n, last):
                tick()

                def more():
                    if hi is not None and n >= hi:
                        return -1
                    if n >= lo and last == j:
                        return -1  # empty iteration: stop
                    return inner(a, j, g, lambda e: step(e, n + 1, j))

                if n < lo:
                    return inner(a, j, g, lambda e: step(e, n + 1, j))
                if greedy:
                    r = more()
                    if r >= 0:
                        return r
                    return k(j)
                r = k(j)
                if r >= 0:
                    return r
                return more()

            return step(i, 0, -1)

        return m

    def _at(self, where, flags):
        multi = bool(flags & _re.MULTILINE)
        if where is _c.AT_BEGINNING and not multi or where is _c.AT_BEGINNING_STRING:
            return lambda a, i, g, k: k(i) if i == 0 else -1
        if where is _c.AT_BEGINNING or where is _c.AT_BEGINNING_LINE:

            def m(a, i, g, k):
                if i == 0 or decide(it_eq(a[i - 1], 10)):
                    return k(i)
                return -1

            return m
        if where is _c.AT_END_STRING:
            return lambda a, i, g, k: k(i) if i == len(a) else -1
        if where is _c.AT_END or where is _c.AT_END_LINE:
            if multi or where is _c.AT_END_LINE:

                def m(a, i, g, k):
                    if i == len(a) or decide(it_eq(a[i], 10)):
                        return k(i)
                    return -1

                return m

            def m(a, i, g, k):
                if i == len(a) or (i == len(a) - 1 and decide(it_eq(a[i], 10))):
                    return k(i)
                return -1

            return m
        if where in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            want = where is _c.AT_BOUNDARY
            isascii = bool(flags & _re.ASCII)
            if isascii:
                raise Unsupported("ASCII boundary")

            def m(a, i, g, k):
                if len(a) == 0:
                    return k(i) if not want else -1
                b = i > 0 and decide(it_in(a[i - 1], _WORD, _isword))
                f = i < len(a) and decide(it_in(a[i], _WORD, _isword))
                if (b != f) is want:
                    return k(i)
                return -1

            return m
        raise Unsupported("regex AT %s" % where)


def _chain(ms):
    n = len(ms)
    if n == 2:
        m0, m1 = ms
        return lambda a, i, g, k: m0(a, i, g, lambda j: m1(a, j, g, k))
    if n == 3:
        m0, m1, m2 = ms
        return lambda a, i, g, k: m0(
            a, i, g, lambda j: m1(a, j, g, lambda q: m2(a, q, g, k))
        )

    def m(a, i, g, k):
        def go(p, j):
            if p == n:
                return k(j)
            return ms[p](a, j, g, lambda q: go(p + 1, q))

        return go(0, i)

    return m


# --------------------------------------------------------------------------


class Match:
    @classmethod
    def __class_getitem__(cls, x):
        return cls

    def __init__(self, pat, string, pos, endpos, start, end, groups, lastindex):
        self.re = pat
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self._s = start
        self._e = end
        self._g = groups
        self.lastindex = lastindex

    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n
        return None

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    def _idx(self, g):
        if isinstance(g, (str, SymStr)):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        g = g.__index__()
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return (self._s, self._e)
        return self._g[g] or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        s, e = self.span(g)
        if s < 0:
            return default
        return self.string[s:e]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .values import SymDict

        return SymDict({n: self._one(i, default) for n, i in self.re.groupindex.items()})

    def expand(self, template):
        return self.re._expand(template)(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symtex match>"


class Pattern:
    @classmethod
    def __class_getitem__(cls, x):
        return cls

    def __init__(self, pattern, flags=0):
        flags = int(flags)
        self.pattern = pattern
        self._native = None
        self._prog = None
        self._symmap = None
        if type(pattern) is SymStr:
            self._compile_symbolic(pattern, flags)
        else:
            self._native = _real_compile(pattern, flags)
            self.flags = self._native.flags
            self.groups = self._native.groups
            self.groupindex = dict(self._native.groupindex)
        self._rawflags = flags

    def _compile_symbolic(self, pattern, flags):
        items = pattern.items
        out = []
        symmap = {}
        meta = set(map(ord, ".^$*+?{}[]\\|()"))
        if flags & _re.VERBOSE:
            raise Unsupported("symbolic verbose pattern")
        incls = False
        metamask = 0
        for c in meta:
            metamask |= 1 << c
        for i, it in enumerate(items):
            if type(it) is Opaque:
                raise Unsupported("pattern built from opaque text")
            if type(it) is SymChar:
                prev = out[-1] if out else None
                esc = False
                j = len(out) - 1
                while j >= 0 and out[j] == "\\":
                    esc = not esc
                    j -= 1
                if esc:
                    # `\c` is a plain literal only for non-alphanumeric c
                    if decide(it_in(it, M_ALNUM)):
                        out.append(chr(it.concretize()))
                        continue
                elif decide(it_in(it, metamask | (1 << 45) | (1 << 94) | (1 << 38) | (1 << 126))):
                    out.append(chr(it.concretize()))
                    continue
                v = it.fixed()
                if v is not None:
                    out.append(chr(v))
                    continue
                code = PUA + len(symmap)
                symmap[code] = it
                out.append(chr(code))
            else:
                out.append(chr(it))
        text = "".join(out)
        if not symmap:
            self._native = _real_compile(text, flags)
            self.flags = self._native.flags
            self.groups = self._native.groups
            self.groupindex = dict(self._native.groupindex)
            return
        tree = _p.parse(text, flags)
        self.flags = tree.state.flags | _re.UNICODE
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self._symmap = symmap
        self._tree = tree

    @property
    def prog(self):
        p = self._prog
        if p is None:
            if self._symmap is not None:
                tree = self._tree
            else:
                tree = _p.parse(self._native.pattern, self._rawflags)
            fl = tree.state.flags
            if not fl & _re.ASCII:
                fl |= _re.UNICODE
            p = Prog.__new__(Prog)
            p._curflags = fl
            p.__init__(tree, fl, self._symmap)
            self._prog = p
        return p

    # ---- core
    def _run(self, s, items, pos, endpos, anchored_end=False, search=True, must_advance=-1):
        prog = self.prog
        a = items if endpos == len(items) else items[:endpos]
        n = len(a)
        f = prog.first
        ng = prog.ngroups
        i = pos
        while i <= n:
            tick()
            ok = True
            if not f.nullable:
                if i >= n:
                    ok = False
                else:
                    it = a[i]
                    if type(it) is int:
                        if it < 256:
                            if not f.mask >> it & 1:
                                ok = False
                        elif not f.beyond:
                            ok = False
                    elif type(it) is Opaque:
                        raise Unsupported("matched opaque text")
                    elif not f.sym and not decide(it_in(it, f.mask)):
                        ok = False
            if ok:
                g = [None] * (ng + 1)
                g[0] = None

                def final(j, i=i):
                    if anchored_end and j != n:
                        return -1
                    if j == must_advance and i == must_advance:
                        return -1
                    return j

                e = prog.m(a, i, g, final)
                if e >= 0:
                    return Match(self, s, pos, endpos, i, e, g, g[0])
            if not search:
                return None
            i += 1
        return None

    def _bounds(self, s, pos, endpos):
        n = len(s)
        pos = 0 if pos is None else max(0, min(int(pos), n))
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        return pos, endpos

    def _is_native(self, s):
        return self._native is not None and isinstance(s, str)

    def _subject(self, s):
        if type(s) is SymStr:
            s2 = s._norm()
            return s2
        if not isinstance(s, str):
            if isinstance(s, (bytes, bytearray)):
                return s
            raise TypeError("expected string or bytes-like object, got %r" % type(s).__name__)
        return s

    def match(self, string, pos=0, endpos=None):
        string = self._subject(string)
        if self._native is not None and not type(string) is SymStr:
            return self._native.match(string, *self._nb(pos, endpos))
        pos, endpos = self._bounds(string, pos, endpos)
        return self._run(string, items_of(string), pos, endpos, search=False)

    def fullmatch(self, string, pos=0, endpos=None):
        string = self._subject(string)
        if self._native is not None and not type(string) is SymStr:
            return self._native.fullmatch(string, *self._nb(pos, endpos))
        pos, endpos = self._bounds(string, pos, endpos)
        return self._run(string, items_of(string), pos, endpos, anchored_end=True, search=False)

    def search(self, string, pos=0, endpos=None):
        string = self._subject(string)
        if self._native is not None and not type(string) is SymStr:
            return self._native.search(string, *self._nb(pos, endpos))
        pos, endpos = self._bounds(string, pos, endpos)
        return self._run(string, items_of(string), pos, endpos)

    def _nb(self, pos, endpos):
        if type(pos) is SymInt:
            pos = pos.realize()
        if endpos is None:
            return (pos,)
        if type(endpos) is SymInt:
            endpos = endpos.realize()
        return (pos, endpos)

    def finditer(self, string, pos=0, endpos=None):
        string = self._subject(string)
        if self._native is not None and not type(string) is SymStr:
            return self._native.finditer(string, *self._nb(pos, endpos))
        return self._iter(string, pos, endpos)

    def _iter(self, string, pos=0, endpos=None):
        pos, endpos = self._bounds(string, pos, endpos)
        items = items_of(string)
        must = -1
        while pos <= endpos:
            m = self._run(string, items, pos, endpos, must_advance=must)
            if m is None:
                return
            yield m
            must = m._e if m._s == m._e else -1
            if m._s == m._e:
                must = m._e
            else:
                must = -1
            pos = m._e

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                v = m.group(1)
                out.append("" if v is None else v)
            else:
                out.append(tuple("" if v is None else v for v in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        string = self._subject(string)
        if self._native is not None and not type(string) is SymStr:
            return self._native.split(string, maxsplit)
        out = []
        last = 0
        n = 0
        for m in self._iter(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[last:m._s])
            out.extend(m.groups())
            last = m._e
            n += 1
        out.append(string[last:])
        return out

    def _expand(self, repl):
        if callable(repl):
            return repl
        if type(repl) is SymStr:
            # symbolic template: only backslashes are special
            for it in repl.items:
                if decide(it_eq(it, 92)):
                    repl = repl.realize()
                    break
            else:
                return lambda m: repl
        if "\\" not in repl:
            return lambda m: repl
        pat = self._native
        if pat is None:
            class _Fake:
                groups = self.groups
                groupindex = self.groupindex
            pat = _Fake
        parts = _p.parse_template(repl, pat)

        def f(m):
            out = []
            for x in parts:
                if isinstance(x, int):
                    v = m.group(x)
                    out.append("" if v is None else v)
                else:
                    out.append(x)
            return sym_join("", out)

        return f

    def subn(self, repl, string, count=0):
        string = self._subject(string)
        if type(string) is not SymStr and self._native is not None:
            if not callable(repl) and type(repl) is not SymStr:
                return self._native.subn(repl, string, count)
        f = self._expand(repl)
        out = []
        last = 0
        n = 0
        it = (
            self._iter(string)
            if (type(string) is SymStr or self._native is None)
            else self._native.finditer(string)
        )
        for m in it:
            if count and n >= count:
                break
            s, e = m.span()
            out.append(string[last:s])
            r = f(m)
            if r is not None:
                out.append(r)
            last = e
            n += 1
        out.append(string[last:])
        return sym_join("", out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def scanner(self, *a):
        raise Unsupported("re scanner")

    def __eq__(self, o):
        return isinstance(o, Pattern) and o.pattern == self.pattern and o.flags == self.flags

    def __hash__(self):
        return hash((self.pattern if isinstance(self.pattern, str) else id(self), self.flags))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symtex pattern %r>" % (self.pattern,)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return compile(pattern.pattern, pattern.flags)
    if isinstance(pattern, bytes):
        return _real_compile(pattern, flags)
    if type(pattern) is SymStr:
        pattern = pattern._norm()
    if isinstance(pattern, str):
        k = (pattern, int(flags))
        p = _cache.get(k)
        if p is None:
            p = _cache[k] = Pattern(pattern, flags)
        return p
    return Pattern(pattern, flags)


_SPECIAL = 0
for _ch in _re._special_chars_map if hasattr(_re, "_special_chars_map") else {}:
    _SPECIAL |= 1 << _ch


def escape(s):
    if type(s) is not SymStr:
        return _re.escape(s)
    out = []
    for it in s.items:
        if decide(it_in(it, _SPECIAL)):
            out.append(92)
        out.append(it)
    return mkstr(out)


class ReModule:
    """stands in for the `re` module inside instrumented code"""

    Pattern = Pattern
    Match = Match
    error = _re.error
    NOFLAG = _re.NOFLAG
    A = ASCII = _re.A
    I = IGNORECASE = _re.I
    L = LOCALE = _re.L
    U = UNICODE = _re.U
    M = MULTILINE = _re.M
    S = DOTALL = _re.S
    X = VERBOSE = _re.X
    RegexFlag = _re.RegexFlag
    compile = staticmethod(compile)
    escape = staticmethod(escape)

    @staticmethod
    def match(p, s, flags=0):
        return compile(p, flags).match(s)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return compile(p, flags).fullmatch(s)

    @staticmethod
    def search(p, s, flags=0):
        return compile(p, flags).search(s)

    @staticmethod
    def findall(p, s, flags=0):
        return compile(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return compile(p, flags).finditer(s)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return compile(p, flags).split(s, maxsplit)

    @staticmethod
    def sub(p, r, s, count=0, flags=0):
        return compile(p, flags).sub(r, s, count)

    @staticmethod
    def subn(p, r, s, count=0, flags=0):
        return compile(p, flags).subn(r, s, count)

    @staticmethod
    def purge():
        pass
