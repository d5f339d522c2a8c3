"""symtex.shims -- stand-ins for C-implemented modules used by the code under test"""
import sys
import types


def install(table, builtins):
    import pydantic
    from . import fs

    fs.install(table, builtins)

    table["pydantic"] = make_pydantic(pydantic)
    import unicodedata as ud

    class UD:
        def __getattr__(self, n):
            f = getattr(ud, n)

            def g(*a):
                return f(*[x.realize() if hasattr(x, "realize") else x for x in a])

            return g if callable(f) else f

    table["unicodedata"] = UD()
    patch_enum()

    import decimal

    class DecimalMod(types.ModuleType):
        pass

    dm = DecimalMod("decimal")
    for n in dir(decimal):
        setattr(dm, n, getattr(decimal, n))

    class _D(type(decimal.Decimal)):
        def __call__(cls, x="0", *a):
            return decimal.Decimal(x.realize() if hasattr(x, "realize") else x, *a)

        def __instancecheck__(cls, o):
            return isinstance(o, decimal.Decimal)

    dm.Decimal = _D("Decimal", (), {n: staticmethod(getattr(decimal.Decimal, n)) for n in ("from_float",)})
    table["decimal"] = dm
    import collections

    from .values import SymDict, SymSet, _MISSING

    class OrderedDict(SymDict):
        def move_to_end(self, key, last=True):
            v = self.pop(key)
            if last:
                self[key] = v
            else:
                rest = list(self.items())
                self.clear()
                self[key] = v
                self.update(rest)

        def popitem(self, last=True):
            k = list(self)[-1 if last else 0]
            return k, self.pop(k)

        def copy(self):
            n = OrderedDict()
            n.update(self)
            return n

        __copy__ = copy

    class defaultdict(SymDict):
        def __init__(self, factory=None, *a, **k):
            super().__init__(*a, **k)
            self.default_factory = factory

        def __missing__(self, key):
            if self.default_factory is None:
                raise KeyError(key)
            v = self.default_factory()
            self[key] = v
            return v

    class Counter(SymDict):
        def __init__(self, it=()):
            super().__init__()
            for x in it:
                self[x] += 1

        def __missing__(self, key):
            return 0

    mod = types.ModuleType("collections")
    for n in dir(collections):
        setattr(mod, n, getattr(collections, n))
    mod.OrderedDict = OrderedDict
    mod.defaultdict = defaultdict
    mod.Counter = Counter
    table["collections"] = mod


def patch_enum():
    """looking up an Enum member by a symbolic value compares it with each member's value
    (the C-level lookup would hash it, i.e. enumerate its values)"""
    import enum
    from .values import SymStr

    orig = enum.EnumType.__call__

    def call(cls, value=enum._not_given, *a, **k):
        if type(value) is SymStr and not a and not k:
            for m in cls:
                if value == m.value:
                    return m
            raise ValueError("not a valid %s" % cls.__qualname__)
        if value is enum._not_given:
            return orig(cls, *a, **k)
        return orig(cls, value, *a, **k)

    enum.EnumType.__call__ = call


def make_pydantic(real):
    """Real pydantic models; symbolic strings cross the C boundary as opaque tokens and
    are put back afterwards (pydantic never looks inside a `str` field here)."""
    from .core import E
    from .values import SymStr, SymInt, SymDict

    OPEN, CLOSE = "\ue100", "\ue101"
    table = []
    E.on_path.append(table.clear)

    def enc(x, d=0):
        t = type(x)
        if t is SymStr:
            x = x._norm()
            if type(x) is str:
                return x
            table.append(x)
            return "%s%d%s" % (OPEN, len(table) - 1, CLOSE)
        if t is SymInt:
            return x.realize()
        if t is str or x is None:
            return x
        if isinstance(x, dict):
            return {enc(k): enc(v, d + 1) for k, v in list(x.items())}
        if t is list:
            return [enc(v, d + 1) for v in x]
        if t is tuple:
            return tuple(enc(v, d + 1) for v in x)
        return x

    def dec(x):
        t = type(x)
        if t is str:
            if x and x[0] == OPEN and x[-1] == CLOSE:
                return table[int(x[1:-1])]
            return x
        if t is dict or t is SymDict:
            return SymDict([(dec(k), dec(v)) for k, v in dict.items(x)])
        if t is list:
            return [dec(v) for v in x]
        if t is tuple:
            return tuple(dec(v) for v in x)
        if isinstance(x, real.BaseModel):
            fix(x)
            return x
        return x

    def fix(m):
        d = m.__dict__
        for k, v in list(d.items()):
            d[k] = dec(v)

    def unfix(m):
        d = m.__dict__
        saved = dict(d)
        for k, v in saved.items():
            d[k] = enc_deep(v)
        return saved

    def enc_deep(x):
        if isinstance(x, real.BaseModel):
            unfix_all.append((x, unfix(x)))
            return x
        t = type(x)
        if t is list:
            return [enc_deep(v) for v in x]
        if t is tuple:
            return tuple(enc_deep(v) for v in x)
        if isinstance(x, dict):
            return {enc(k): enc_deep(v) for k, v in list(x.items())}
        return enc(x)

    unfix_all = []

    class BaseModel(real.BaseModel):
        def __init__(self, /, **data):
            data = {k: enc(v) for k, v in data.items()}
            super().__init__(**data)
            fix(self)

        @classmethod
        def model_validate(cls, obj, **kw):
            r = super().model_validate(enc(obj), **kw)
            if isinstance(r, real.BaseModel):
                fix(r)
            return r

        def model_dump(self, **kw):
            mark = len(unfix_all)
            saved = unfix(self)
            try:
                r = super().model_dump(**kw)
            finally:
                self.__dict__.update(saved)
                while len(unfix_all) > mark:
                    m, s = unfix_all.pop()
                    m.__dict__.update(s)
            return dec(r)

    mod = types.ModuleType("pydantic")
    for n in dir(real):
        try:
            setattr(mod, n, getattr(real, n))
        except Exception:
            pass
    mod.BaseModel = BaseModel
    return mod
