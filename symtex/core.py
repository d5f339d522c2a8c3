"""symtex.core -- path exploration engine.

Dynamic symbolic execution by re-execution: the (instrumented) code under test is
run once per path; every test on a symbolic value goes through Engine.branch(),
which asks z3 whether both outcomes are possible under the path condition and
schedules the other one.  When the scheduler runs dry, every value within the
harness' bounds has been covered by exactly one explored path, and each path's
assertion has been discharged by z3 (path condition AND NOT assertion == unsat).
"""
import sys
import time

import z3

ALL = (1 << 256) - 1


class ControlFlow(BaseException):
    """steers exploration; never caught by `except Exception` in the code under test"""


class PathAbandoned(ControlFlow):
    pass


class StepLimit(ControlFlow):
    pass


class Unsupported(ControlFlow):
    pass


class OutOfTime(ControlFlow):
    pass


# --------------------------------------------------------------------------
# conditions


class Cond:
    __slots__ = ()


class Mask(Cond):
    """variable `var` (a latin-1 code point) lies in the 256-bit set `mask`"""

    __slots__ = ("var", "mask")

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask

    def key(self):
        return ("m", self.var, self.mask)


class And(Cond):
    __slots__ = ("cs", "_k")

    def __init__(self, cs):
        self.cs = tuple(cs)
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ("&",) + tuple(c.key() for c in self.cs)
        return self._k


class Or(Cond):
    __slots__ = ("cs", "_k")

    def __init__(self, cs):
        self.cs = tuple(cs)
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ("|",) + tuple(c.key() for c in self.cs)
        return self._k


class Not(Cond):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def key(self):
        return ("~", self.c.key())


class Z(Cond):
    __slots__ = ("e", "_k")

    def __init__(self, e):
        self.e = e
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ("z", self.e.sexpr())
        return self._k


def mk_and(cs):
    """cs: list of Cond/bool -> Cond/bool"""
    out = []
    masks = {}
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if type(c) is Mask:
            if c.var in masks:
                masks[c.var] &= c.mask
            else:
                masks[c.var] = c.mask
            continue
        out.append(c)
    for v, m in masks.items():
        if m == 0:
            return False
        out.append(Mask(v, m))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return And(out)


def mk_or(cs):
    out = []
    masks = {}
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if type(c) is Mask:
            masks[c.var] = masks.get(c.var, 0) | c.mask
            continue
        out.append(c)
    for v, m in masks.items():
        out.append(Mask(v, m))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Or(out)


def mk_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if type(c) is Mask:
        return Mask(c.var, ALL & ~c.mask)
    if type(c) is Not:
        return c.c
    return Not(c)


def mask_of(chars):
    m = 0
    for ch in chars:
        o = ch if isinstance(ch, int) else ord(ch)
        m |= 1 << o
    return m


def ranges_of(mask):
    out = []
    i = 0
    while mask:
        tz = (mask & -mask).bit_length() - 1
        mask >>= tz
        i += tz
        # length of the run of ones
        inv = ~mask
        run = (inv & -inv).bit_length() - 1
        out.append((i, i + run - 1))
        mask >>= run
        i += run
    return out


# --------------------------------------------------------------------------


class Engine:
    def __init__(self, max_ticks=400000):
        self.max_ticks = max_ticks
        self.solver = None
        self.reset_stats()
        self._expr_cache = {}
        self._var_expr = {}
        self.on_path = []
        self.no_collapse = False  # self-test mode: keep one-value characters symbolic
        self.new_solver()
        self.begin_path([], 0)

    def reset_stats(self):
        self.queries = 0
        self.query_time = 0.0
        self.unknowns = 0
        self.sat_answers = 0
        self.unsat_answers = 0
        self.realized = 0
        self.assert_queries = 0
        self.assert_unsat = 0
        self.dump = None  # optional list collecting smt2 text of assertion queries

    def new_solver(self):
        self.solver = z3.SolverFor("QF_BV") if False else z3.Solver()
        self.solver.set("timeout", 20000)
        self.stack = []  # solver frames, aligned with self.trace indexes
        self._frame_keys = []

    # -- path management ----------------------------------------------------
    def begin_path(self, prefix, keep):
        """prefix: list of (taken, other_feasible, payload) to follow.  `keep` leading solver frames are
        already on the solver's stack from the previous path (same decisions)."""
        while len(self.stack) > keep:
            self.solver.pop()
            self.stack.pop()
        self.prefix = prefix
        self.trace = []  # entries [taken, other_feasible, payload]
        self.dom = {}
        self.memo = {}
        self.inputs = []  # (name, kind, data) registration in order
        self.nvars = 0
        self.ticks = 0
        self.path_start = time.time()
        self.notes = []
        self.covers = set()
        self.aborted = False
        self.path_decided = 0
        for f in self.on_path:
            f()

    # -- variables ------------------------------------------------------------
    def new_char(self, mask):
        v = self.nvars
        self.nvars += 1
        self.dom[v] = mask
        if mask != ALL:
            # the alphabet is part of the path condition
            self._assert_base(Mask(v, mask))
        return v

    def new_int(self, lo, hi):
        v = self.nvars
        self.nvars += 1
        e = z3.Int("i%d" % v)
        c = z3.And(e >= lo, e <= hi)
        self._assert_base(Z(c))
        return v, e

    def _assert_base(self, cond):
        """unconditional constraint; occupies one trace slot so solver frames stay aligned"""
        idx = len(self.trace)
        if idx < len(self.stack):
            self.trace.append([True, False, None])
            return
        self._push(self.expr(cond))
        self.trace.append([True, False, None])

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)
        self.stack.append(True)

    # -- z3 expressions -------------------------------------------------------
    def var_expr(self, v):
        e = self._var_expr.get(v)
        if e is None:
            e = z3.BitVec("c%d" % v, 8)
            self._var_expr[v] = e
        return e

    def expr(self, cond):
        t = type(cond)
        if t is Mask:
            k = (cond.var, cond.mask)
            e = self._expr_cache.get(k)
            if e is None:
                e = self._mask_expr(cond.var, cond.mask)
                self._expr_cache[k] = e
            return e
        if t is And:
            return z3.And([self.expr(c) for c in cond.cs])
        if t is Or:
            return z3.Or([self.expr(c) for c in cond.cs])
        if t is Not:
            return z3.Not(self.expr(cond.c))
        if t is Z:
            return cond.e
        if cond is True:
            return z3.BoolVal(True)
        if cond is False:
            return z3.BoolVal(False)
        raise TypeError(cond)

    def _mask_expr(self, v, mask):
        x = self.var_expr(v)
        if mask == ALL:
            return z3.BoolVal(True)
        if mask == 0:
            return z3.BoolVal(False)
        rs = ranges_of(mask)
        neg = ranges_of(ALL & ~mask)
        flip = len(neg) < len(rs)
        parts = []
        for lo, hi in neg if flip else rs:
            if lo == hi:
                parts.append(x == lo)
            elif lo == 0:
                parts.append(z3.ULE(x, hi))
            elif hi == 255:
                parts.append(z3.UGE(x, lo))
            else:
                parts.append(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)))
        e = parts[0] if len(parts) == 1 else z3.Or(parts)
        return z3.Not(e) if flip else e

    # -- deciding -------------------------------------------------------------
    def eval3(self, c):
        t = type(c)
        if t is Mask:
            d = self.dom[c.var]
            if not d & ~c.mask:
                return True
            if not d & c.mask:
                return False
            return None
        if c is True or c is False:
            return c
        if t is And:
            r = True
            for s in c.cs:
                v = self.eval3(s)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if t is Or:
            r = False
            for s in c.cs:
                v = self.eval3(s)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if t is Not:
            v = self.eval3(c.c)
            return None if v is None else (not v)
        return None

    def refine(self, c, truth):
        t = type(c)
        if t is Mask:
            d = self.dom[c.var] & (c.mask if truth else ~c.mask)
            if d:
                self.dom[c.var] = d
        elif t is And:
            if truth:
                for s in c.cs:
                    self.refine(s, True)
            else:
                # all but one member true -> the last one is false
                und = None
                for s in c.cs:
                    v = self.eval3(s)
                    if v is True:
                        continue
                    if v is False or und is not None:
                        return
                    und = s
                if und is not None:
                    self.refine(und, False)
        elif t is Or:
            if not truth:
                for s in c.cs:
                    self.refine(s, False)
            else:
                und = None
                for s in c.cs:
                    v = self.eval3(s)
                    if v is False:
                        continue
                    if v is True or und is not None:
                        return
                    und = s
                if und is not None:
                    self.refine(und, True)
        elif t is Not:
            self.refine(c.c, not truth)

    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.query_time += time.perf_counter() - t0
        self.queries += 1
        if r == z3.sat:
            self.sat_answers += 1
        elif r == z3.unsat:
            self.unsat_answers += 1
        else:
            self.unknowns += 1
        return r

    def branch(self, cond):
        """decide `cond` on this path, scheduling the other outcome when feasible"""
        v = self.eval3(cond)
        if v is not None:
            return v
        k = cond.key()
        m = self.memo.get(k)
        if m is not None:
            return m
        if self.aborted:
            raise PathAbandoned()
        idx = len(self.trace)
        if idx < len(self.prefix):
            taken, other, payload = self.prefix[idx]
            self.trace.append([taken, other, None])
            if idx >= len(self.stack):
                e = self.expr(cond)
                self._push(e if taken else z3.Not(e))
            self._settle(cond, k, taken)
            return taken
        e = self.expr(cond)
        rt = self._check(e)
        if rt == z3.unsat:
            # implied false; no constraint needed, but keep a slot so replays skip the query
            self.trace.append([False, False, None])
            self._push(z3.BoolVal(True))
            self._settle(cond, k, False)
            return False
        ne = z3.Not(e)
        rf = self._check(ne)
        if rf == z3.unsat:
            self.trace.append([True, False, None])
            self._push(z3.BoolVal(True))
            self._settle(cond, k, True)
            return True
        self.path_decided += 1
        taken = True
        self.trace.append([taken, True, None])
        self._push(e)
        self._settle(cond, k, taken)
        return taken

    def _settle(self, cond, k, taken):
        self.memo[k] = taken
        self.refine(cond, taken)

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbandoned()
        v = self.eval3(cond)
        if v is True:
            return
        if v is False:
            raise PathAbandoned()
        idx = len(self.trace)
        if idx < len(self.prefix):
            self.trace.append([True, False, None])
            if idx >= len(self.stack):
                self._push(self.expr(cond))
        else:
            e = self.expr(cond)
            if self._check(e) == z3.unsat:
                raise PathAbandoned()
            self.trace.append([True, False, None])
            self._push(e)
        self._settle(cond, cond.key(), True)

    def concretize_char(self, v):
        """exhaustive: forks until the variable has one value on this path"""
        while True:
            d = self.dom[v]
            if d & (d - 1) == 0:
                return d.bit_length() - 1
            lo = (d & -d).bit_length() - 1
            n = bin(d).count("1")
            self.realized += 1
            if n > 8:
                # split the domain in halves (keeps the decision tree shallow)
                half, cnt, i = 0, 0, 0
                dd = d
                while cnt < n // 2:
                    b = dd & -dd
                    half |= b
                    dd ^= b
                    cnt += 1
                self.branch(Mask(v, half))
            else:
                if self.branch(Mask(v, 1 << lo)):
                    return lo

    def concretize_int(self, e):
        """exhaustive: forks over every feasible value of the integer expression"""
        while True:
            idx = len(self.trace)
            if idx < len(self.prefix):
                taken, other, val = self.prefix[idx]
            else:
                r = self._check()
                if r != z3.sat:
                    raise PathAbandoned()
                val = self.solver.model().eval(e, model_completion=True).as_long()
                taken = None
            c = e == val
            self.realized += 0
            if taken is not None:
                self.trace.append([taken, other, val])
                if idx >= len(self.stack):
                    self._push(c if taken else z3.Not(c))
                if taken:
                    return val
                continue
            nf = self._check(z3.Not(c))
            self.trace.append([True, nf != z3.unsat, val])
            self._push(c)
            self.path_decided += 1
            return val

    def choose(self, n):
        """forks over 0..n-1 of a fresh, unconstrained choice: every value is feasible, so no query"""
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            idx = len(self.trace)
            if idx < len(self.prefix):
                taken, other = self.prefix[idx][0], self.prefix[idx][1]
            else:
                taken, other = True, True
                self.path_decided += 1
            self.trace.append([taken, other, None])
            if idx >= len(self.stack):
                self._push(z3.BoolVal(True))
            if taken:
                hi = mid
            else:
                lo = mid + 1
        return lo

    # -- assertions -------------------------------------------------------------
    def violated(self, cond):
        """None when PC => cond; otherwise a model of PC and not cond"""
        self.assert_queries += 1
        if cond is True:
            # structurally identical terms: still discharge against the solver
            neg = z3.BoolVal(False)
        elif cond is False:
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(self.expr(cond))
        if self.dump is not None and len(self.dump) < 40:
            self.solver.push()
            self.solver.add(neg)
            self.dump.append(self.solver.to_smt2())
            self.solver.pop()
        r = self._check(neg)
        if r == z3.unsat:
            self.assert_unsat += 1
            return None
        if r != z3.sat:
            raise Unsupported("solver answered unknown on an assertion")
        return self.solver.model()

    def path_model(self):
        r = self._check()
        if r != z3.sat:
            return None
        return self.solver.model()

    def model_inputs(self, model):
        """concrete values of every registered input under `model`"""
        out = {}
        for name, kind, data in self.inputs:
            if kind == "str":
                out[name] = "".join(chr(self._model_char(model, it)) for it in data)
            elif kind == "int":
                out[name] = model.eval(data, model_completion=True).as_long()
            else:
                out[name] = data
        return out

    def _model_char(self, model, it):
        if isinstance(it, int):
            return it
        v = model.eval(self.var_expr(it.var), model_completion=False)
        if z3.is_bv_value(v):
            return v.as_long()
        d = self.dom[it.var]
        for pref in b"abcxyz01 ":
            if d >> pref & 1:
                return pref
        return (d & -d).bit_length() - 1

    def tick(self, n=1):
        self.ticks += n
        if self.ticks > self.max_ticks:
            self.aborted = True
            raise StepLimit()

    def cover(self, label):
        self.covers.add(label)


E = Engine()


PATH_SECONDS = 60  # a single path takes milliseconds; loops over growing data may tick slowly


def tick():
    E.ticks += 1
    if E.ticks > E.max_ticks or (not E.ticks & 127 and time.time() - E.path_start > PATH_SECONDS):
        E.aborted = True
        raise StepLimit()
