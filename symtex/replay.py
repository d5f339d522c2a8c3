"""replay one counterexample against the untouched code:  replay.py FILE
FILE: {"harness_file":..., "harness":..., "inputs": {...}, "tier": ...}"""
import json
import os
import sys
import traceback
import importlib.util

sys.dont_write_bytecode = True
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("SYMTEX_REPO", "/repo")
sys.path.insert(0, REPO)


def load_plain(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def run_case(case, loaded={}):
    from symtex import api, fs
    import logging

    logging.disable(logging.CRITICAL)
    hf = case["harness_file"]
    if not os.path.isabs(hf):
        hf = os.path.join(HERE, hf)
    mod = loaded.get(hf)
    if mod is None:
        mod = loaded[hf] = load_plain(hf, "plain_" + os.path.basename(hf)[:-3])
    spec = {h.name: h for h in api.collect(mod)}[case["harness"]]
    cx = api.ConcCtx(case["inputs"], case.get("tier", "quick"))
    try:
        spec.fn(cx)
    except api.CheckFailed as e:
        return {"status": "violated", "msg": e.msg}
    except api.Skip:
        return {"status": "skip"}
    except Exception as e:
        return {
            "status": "violated",
            "msg": "raised %s: %s" % (type(e).__name__, str(e)[:300]),
            "trace": traceback.format_exc()[-2000:],
        }
    finally:
        fs.clean_up()
    return {"status": "ok", "covers": sorted(cx.covers)}


if __name__ == "__main__":
    import io

    if sys.argv[1] == "--batch":
        with open(sys.argv[2]) as f:
            cases = json.load(f)
        out = sys.stdout
        sys.stdout = io.StringIO()
        rs = [run_case(c) for c in cases]
        sys.stdout = out
        print(json.dumps(rs))
        sys.exit(0)
    with open(sys.argv[1]) as f:
        case = json.load(f)

    out = sys.stdout
    sys.stdout = io.StringIO()
    r = run_case(case)
    sys.stdout = out
    print(json.dumps(r))
    sys.exit(1 if r["status"] == "violated" else 0)
