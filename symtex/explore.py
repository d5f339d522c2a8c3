"""symtex.explore -- exhaustive path exploration of one harness (worker side)"""
import sys
import time
import traceback

import z3

from .core import E, PathAbandoned, StepLimit, Unsupported, ControlFlow
from . import api


def _containers():
    """mutable module-level and class-level containers of the code under test"""
    seen = {}
    for name, mod in list(sys.modules.items()):
        if not (name == "latex2json" or name.startswith("latex2json.")) or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            _note(seen, v)
            if isinstance(v, type) and getattr(v, "__module__", None) == name:
                for k2, v2 in list(vars(v).items()):
                    if not k2.startswith("__"):
                        _note(seen, v2)
    return list(seen.values())


def _note(seen, v):
    if isinstance(v, (dict, list, set)) and id(v) not in seen and len(v) < 4000:
        seen[id(v)] = v


class GlobalState:
    """restores containers that the code under test keeps at module or class level, so
    that paths are independent of one another"""

    def __init__(self):
        self.saved = []
        for c in _containers():
            if isinstance(c, dict):
                self.saved.append((c, list(dict.items(c))))
            elif isinstance(c, list):
                self.saved.append((c, list(c)))
            else:
                self.saved.append((c, list(set.__iter__(c))))

    def restore(self):
        for c, content in self.saved:
            if isinstance(c, dict):
                if len(c) != len(content):
                    dict.clear(c)
                    if hasattr(c, "_hs"):
                        c._hs = False
                    dict.update(c, content)
            elif isinstance(c, list):
                if len(c) != len(content) or any(a is not b for a, b in zip(c, content)):
                    c[:] = content
            else:
                if len(c) != len(content):
                    set.clear(c)
                    set.update(c, content)


def run_path(spec, tier):
    """one execution; returns (status, payload)"""
    cx = api.SymCtx(tier)
    E.max_ticks = spec.max_ticks
    try:
        spec.fn(cx)
        return "ok", None
    except api.CheckFailed as e:
        m = e.model if e.model is not None else E.path_model()
        msg = e.msg if type(e.msg) is str else repr(e.msg)  # the replay shows it in full
        return "violation", {"msg": msg, "inputs": E.model_inputs(m)}
    except PathAbandoned:
        return "abandoned", None
    except StepLimit:
        m = E.path_model()
        return "violation", {
            "msg": "no termination within %d steps" % spec.max_ticks,
            "inputs": E.model_inputs(m) if m is not None else None,
            "hang": True,
        }
    except Unsupported as e:
        m = E.path_model()
        return "unsupported", {
            "msg": "unsupported: %s" % e,
            "inputs": E.model_inputs(m) if m is not None else None,
        }
    except z3.Z3Exception as e:
        return "unsupported", {"msg": "z3: %s" % e, "inputs": None}
    except ControlFlow:
        raise
    except Exception as e:
        m = E.path_model()
        try:
            txt = str(e)[:200]
            txt = txt if type(txt) is str else repr(txt)
        except BaseException:
            txt = "?"
        return "violation", {
            "msg": "raised %s: %s" % (type(e).__name__, txt),
            "trace": traceback.format_exc()[-3000:],
            "inputs": E.model_inputs(m) if m is not None else None,
        }


def explore(spec, prefix, tier, budget, deadline, state, sample=3):
    """depth-first below `prefix` for about `budget` seconds.
    Returns (results dict, leftover prefixes)"""
    res = {
        "paths": 0, "ok": 0, "abandoned": 0, "violations": [], "unsupported": [],
        "covers": set(), "samples": [], "max_depth": 0, "max_ticks": 0,
    }
    t0 = time.time()
    keep = 0
    cur = list(prefix)
    base = len(cur)
    while True:
        state.restore()
        E.begin_path(cur, keep)
        status, payload = run_path(spec, tier)
        res["paths"] += 1
        res["max_depth"] = max(res["max_depth"], len(E.trace))
        res["max_ticks"] = max(res["max_ticks"], E.ticks)
        if status == "ok":
            res["ok"] += 1
            res["covers"] |= E.covers
            if len(res["samples"]) < sample:
                m = E.path_model()
                if m is not None:
                    res["samples"].append(
                        {"inputs": E.model_inputs(m), "covers": sorted(E.covers)}
                    )
        elif status == "abandoned":
            res["abandoned"] += 1
        elif status == "violation":
            res["covers"] |= E.covers
            if len(res["violations"]) < 5:
                res["violations"].append(payload)
        else:
            if len(res["unsupported"]) < 5:
                res["unsupported"].append(payload)
            res.setdefault("n_unsupported", 0)
            res["n_unsupported"] += 1
        # next path
        tr = E.trace
        idx = len(tr) - 1
        while idx >= 0 and not tr[idx][1]:
            idx -= 1
        if idx < 0:
            return res, []
        if time.time() - t0 > budget or len(res["violations"]) >= 5:
            left = []
            for i in range(len(tr)):
                if tr[i][1]:
                    p = [(t[0], False, t[2]) for t in tr[:i]]
                    p.append((not tr[i][0], False, tr[i][2]))
                    left.append(p)
            return res, left
        cur = [(t[0], t[1], t[2]) for t in tr[:idx]]
        cur.append((not tr[idx][0], False, tr[idx][2]))
        keep = idx
