"""symtex.api -- what harnesses see.  The same harness function runs symbolically
(SymCtx) and, for replays, on concrete values against the untouched code (ConcCtx)."""
import os

LATIN1 = "".join(map(chr, range(256)))
ASCII = "".join(map(chr, range(128)))
PRINTABLE = "".join(map(chr, range(32, 127))) + "\t\n"
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
LETTERS = LOWER + UPPER
DIGITS = "0123456789"
# characters with no role in TeX syntax
PLAIN = LETTERS + DIGITS + ".,;:!?()+=/'\"<>|@*-"


class CheckFailed(BaseException):
    def __init__(self, msg, model=None):
        self.msg = msg
        self.model = model


class Skip(BaseException):
    pass


class HarnessSpec:
    def __init__(self, fn, bounds, covers, tiers, max_ticks, name, excludes):
        self.fn = fn
        self.bounds = bounds
        self.covers = covers
        self.tiers = tiers
        self.max_ticks = max_ticks
        self.name = name
        self.excludes = excludes


def harness(bounds="", covers=(), tiers=("quick", "thorough"), max_ticks=400000, excludes=""):
    def deco(fn):
        return HarnessSpec(
            fn, bounds, list(covers), tuple(tiers), max_ticks, fn.__name__, excludes
        )

    return deco


def collect(module):
    return [v for v in vars(module).values() if isinstance(v, HarnessSpec)]


class NullLogger:
    """logging stub: accepts every call, records nothing"""

    name = "null"
    handlers = ()
    level = 50

    def __getattr__(self, n):
        return lambda *a, **k: None

    def isEnabledFor(self, lvl):
        return False


class BaseCtx:
    tier = os.environ.get("VERIF_TIER", "quick")
    symbolic = False
    logger = NullLogger()

    def bound(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def fail(self, msg):
        self.check(False, msg)

    def check_eq(self, got, want, msg):
        raise NotImplementedError

    def folder(self, files=(), dirs=()):
        """a scratch folder with these files (name -> text or bytes)"""
        from . import fs

        return fs.write_tree(fs.new_folder(self.symbolic), dict(files), dirs)


    def archive(self, path, files):
        """a real archive of these files (name -> text or bytes) at this path"""
        from . import fs

        return fs.pack(path, dict(files))

    def temp_folder(self):
        """a scratch folder where temporary files are made from now on"""
        from . import fs

        return fs.temp_folder(self.symbolic)

    def use_files(self, session):
        from . import fs

        fs.use_files(session, self.symbolic)


class ConcCtx(BaseCtx):
    def __init__(self, inputs, tier="quick"):
        self.inputs = inputs
        self.tier = tier
        self.covers = set()

    def str(self, name, lo, hi=None, alpha=None):
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self.inputs[name]

    def pick(self, name, options):
        return options[self.inputs[name]]

    def flag(self, name):
        return bool(self.inputs[name])

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)

    def check_eq(self, got, want, msg):
        if not plain_eq(got, want):
            raise CheckFailed("%s: got %r, expected %r" % (msg, got, want))

    def cover(self, label):
        self.covers.add(label)

    def eq(self, a, b):
        return a == b


def plain_eq(a, b):
    return a == b


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, tier):
        self.tier = tier

    def str(self, name, lo, hi=None, alpha=None):
        from .core import E, mask_of, ALL
        from .values import SymChar, mkstr

        hi = lo if hi is None else hi
        mask = ALL if alpha is None else mask_of(alpha)
        n = lo + E.choose(hi - lo + 1)
        items = tuple(SymChar(E.new_char(mask)) for _ in range(n))
        E.inputs.append((name, "str", items))
        if n == 0:
            return ""
        return mkstr(items)

    def int(self, name, lo, hi):
        from .core import E
        from .values import SymInt

        v, e = E.new_int(lo, hi)
        E.inputs.append((name, "int", e))
        return SymInt(e)

    def pick(self, name, options):
        from .core import E

        n = E.choose(len(options))
        E.inputs.append((name, "const", n))
        return options[n]

    def flag(self, name):
        return self.pick(name, [False, True])

    def assume(self, cond):
        from .core import E
        from .values import cond_of

        E.assume(cond_of(cond))

    def check(self, cond, msg):
        from .core import E
        from .values import cond_of

        c = cond_of(cond)
        m = E.violated(c)
        if m is not None:
            raise CheckFailed(msg, m)

    def check_eq(self, got, want, msg):
        c, why = deep_eq(got, want)
        if c is False:
            msg = "%s: shapes differ (%s)" % (msg, why)
        self.check(_wrap(c), msg)

    def cover(self, label):
        from .core import E

        E.cover(label)

    def eq(self, a, b):
        return _wrap(deep_eq(a, b)[0])


def _wrap(c):
    from .values import SymBool

    return c if c is True or c is False else SymBool(c)


def deep_eq(a, b, path=""):
    """structural equality as a condition, without forking"""
    from .core import mk_and
    from .values import is_str, eq_cond, SymStr, SymInt

    if is_str(a) and is_str(b):
        return eq_cond(a, b) if (type(a) is SymStr or type(b) is SymStr) else a == b, path
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False, path + ": keys %r vs %r" % (list(a), list(b))
        cs = []
        for k in a:
            if k not in b:
                return False, path + ": key %r" % (k,)
            c, w = deep_eq(a[k], b[k], "%s.%s" % (path, k if isinstance(k, str) else "?"))
            if c is False:
                return False, w
            cs.append(c)
        return mk_and(cs), path
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False, path + ": list vs tuple"
        if len(a) != len(b):
            return False, path + ": length %d vs %d" % (len(a), len(b))
        cs = []
        for i, (x, y) in enumerate(zip(a, b)):
            c, w = deep_eq(x, y, "%s[%d]" % (path, i))
            if c is False:
                return False, w
            cs.append(c)
        return mk_and(cs), path
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return eq_cond(a, b), path
    r = a == b
    from .values import cond_of

    return cond_of(r), path + ": %s vs %s" % (_short(a), _short(b))


def _short(x):
    try:
        return type(x).__name__ if not isinstance(x, (str, int, type(None))) else repr(x)[:60]
    except Exception:
        return "?"
