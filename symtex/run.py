"""symtex.run -- decide one property:  run.py <ID> [--harness NAME] [--jobs N]"""
import argparse
import json
import multiprocessing as mp
import os
import queue
import atexit
import shutil
import subprocess
import tempfile
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, HERE)

VENV_SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VENV_SP not in sys.path:
    sys.path.append(VENV_SP)

REPO = os.environ.get("SYMTEX_REPO", "/repo")


def worker_main(hfile, tier, tasks, results, deadline, slice_s, dump):
    def body():
        try:
            _worker(hfile, tier, tasks, results, deadline, slice_s, dump)
        except BaseException as e:  # report, never hang the parent
            import traceback

            results.put(("crash", None, traceback.format_exc(), None, None))

    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()


_MOD = None


def _worker(hfile, tier, tasks, results, deadline, slice_s, dump):
    from symtex import api, instr
    from symtex.core import E
    from symtex.explore import explore, GlobalState

    specs = {h.name: h for h in api.collect(_MOD)}
    state = GlobalState()
    import logging

    logging.disable(logging.CRITICAL)
    while True:
        t = tasks.get()
        if t is None:
            return
        name, prefix = t
        if time.time() > deadline:
            results.put(("late", name, None, None, None))
            continue
        E.reset_stats()
        if dump:
            E.dump = []
        res, left = explore(specs[name], prefix, tier, slice_s, deadline, state)
        stats = {
            "queries": E.queries, "query_time": E.query_time, "unknown": E.unknowns,
            "sat": E.sat_answers, "unsat": E.unsat_answers, "realized": E.realized,
            "assert_queries": E.assert_queries, "assert_unsat": E.assert_unsat,
        }
        funcs = {m: sorted(s) for m, s in instr.FUNCTIONS.items()}
        results.put(("done", name, res, left, (stats, funcs, E.dump if dump else None)))


def replay(case, tag, timeout=60):
    """run a counterexample against the real code in a fresh process"""
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, tag + ".json")
    with open(path, "w") as f:
        json.dump(case, f, indent=1)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["SYMTEX_REPO"] = REPO
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, "symtex", "replay.py"), path],
            capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE,
        )
    except subprocess.TimeoutExpired:
        return {"status": "violated", "msg": "did not terminate within %d s" % timeout}, path
    try:
        return json.loads(p.stdout.strip().splitlines()[-1]), path
    except Exception:
        if p.returncode < 0:
            return {"status": "violated", "msg": "process died with signal %d" % -p.returncode}, path
        return {"status": "error", "msg": (p.stderr or p.stdout)[-1500:]}, path


def validate(hrel, specs, agg, tier):
    cases = []
    for h in specs:
        for s in agg[h.name]["samples"]:
            cases.append((h.name, s))
    if not cases:
        return []
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "witnesses-%s-%d.json" % (os.path.basename(hrel)[:-3], os.getpid()))
    with open(path, "w") as f:
        json.dump(
            [{"harness_file": hrel, "harness": n, "inputs": s["inputs"], "tier": tier}
             for n, s in cases], f)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["SYMTEX_REPO"] = REPO
    out = []
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, "symtex", "replay.py"), "--batch", path],
            capture_output=True, text=True, timeout=120, env=env, cwd=HERE)
        rs = json.loads(p.stdout.strip().splitlines()[-1])
        for (n, s), r in zip(cases, rs):
            r["same_covers"] = r.get("covers") == s["covers"]
            r["want_covers"] = s["covers"]
            out.append((n, s["inputs"], r))
    except Exception as e:
        print("witness validation failed: %r" % e, file=sys.stderr)
    finally:
        os.unlink(path)
    return out


def load_known(pid):
    out = []
    f = os.path.join(HERE, "known_findings.json")
    if os.path.exists(f):
        for k in json.load(open(f))["findings"]:
            if k.get("property") == pid and k.get("status") == "known":
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--harness")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMTEX_JOBS", "8")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--limit", type=float, default=None, help="wall seconds")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier
    os.environ["VERIF_TIER"] = tier
    limit = a.limit or (500 if tier == "quick" else 3000)
    t_start = time.time()
    deadline = t_start + limit
    # scratch folders of this run and of its replays
    scratch = tempfile.mkdtemp(prefix="symtex-")
    os.environ["SYMTEX_SCRATCH"] = scratch
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))

    from symtex import api, instr

    instr.install(REPO)
    hrel = os.path.join("harness", a.pid + ".py")
    hfile = os.path.join(HERE, hrel)
    global _MOD
    import logging

    logging.disable(logging.CRITICAL)
    load_error = None
    try:
        _MOD = instr.load_file(hfile, "sym_" + a.pid)
    except Exception as e:
        import traceback

        load_error = traceback.format_exc()
        print("cannot load the code under test:\n" + load_error, file=sys.stderr)
        sys.exit(3)
    specs = [h for h in api.collect(_MOD) if tier in h.tiers]
    if a.harness:
        specs = [h for h in specs if h.name in a.harness.split(",")]
    prep = getattr(_MOD, "prepare", None)
    if prep:
        prep()

    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    slice_s = 1.0
    jobs = max(1, a.jobs)
    dump = tier == "thorough"
    procs = [
        ctx.Process(
            target=worker_main, args=(hfile, tier, tasks, results, deadline, slice_s, dump)
        )
        for _ in range(jobs)
    ]
    for p in procs:
        p.daemon = True
        p.start()
    outstanding = 0
    agg = {}
    for h in specs:
        tasks.put((h.name, []))
        outstanding += 1
        agg[h.name] = {
            "paths": 0, "ok": 0, "abandoned": 0, "violations": [], "unsupported": [],
            "n_unsupported": 0, "covers": set(), "samples": [], "late": 0, "max_depth": 0,
            "max_ticks": 0, "t_first": time.time(), "t_last": time.time(), "cpu": 0,
        }
    tot = {}
    funcs = {}
    dumps = []
    crashed = None
    hit = set()
    last_print = time.time()
    while outstanding:
        try:
            kind, name, res, left, extra = results.get(timeout=5)
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive()]
            if dead:
                crashed = "worker died (exit %s)" % [p.exitcode for p in dead]
                break
            if time.time() > deadline + 75:
                # a worker is stuck inside one native call: what it had left stays unexplored
                print("workers overran the deadline", file=sys.stderr)
                for h in specs:
                    agg[h.name]["late"] += 1
                break
            continue
        if kind == "crash":
            crashed = res
            break
        outstanding -= 1
        g = agg[name]
        if kind == "late":
            g["late"] += 1
            continue
        for k in ("paths", "ok", "abandoned"):
            g[k] += res[k]
        g["n_unsupported"] += res.get("n_unsupported", 0)
        g["max_depth"] = max(g["max_depth"], res["max_depth"])
        g["max_ticks"] = max(g["max_ticks"], res["max_ticks"])
        g["covers"] |= res["covers"]
        g["violations"] += res["violations"]
        g["unsupported"] += res["unsupported"]
        if len(g["samples"]) < 60:
            g["samples"] += res["samples"][: 60 - len(g["samples"])]
        g["t_last"] = time.time()
        stats, fs, dm = extra
        for k, v in stats.items():
            tot[k] = tot.get(k, 0) + v
        for m, s in fs.items():
            funcs.setdefault(m, set()).update(s)
        if dm and len(dumps) < 200:
            dumps += dm[:10]
        stop = len(g["violations"]) >= 8
        if not stop:
            for p in left:
                tasks.put((name, p))
                outstanding += 1
        else:
            g["late"] += len(left)
        if a.verbose and time.time() - last_print > 5:
            last_print = time.time()
            print(
                "  .. %ds outstanding=%d %s" % (
                    time.time() - t_start, outstanding,
                    {n: (q["paths"], len(q["violations"])) for n, q in agg.items()},
                ), file=sys.stderr,
            )
    for _ in procs:
        tasks.put(None)
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    # ---------------------------------------------------------------- replays
    known = load_known(a.pid)
    reported = []
    spurious = []
    known_hits = {}
    nrep = 0
    t_rep = time.time()
    for h in specs:
        g = agg[h.name]
        seen_msgs = {}
        cands = [("v", v) for v in g["violations"]] + [("u", u) for u in g["unsupported"]]
        for kind, v in cands:
            if v.get("inputs") is None:
                spurious.append((h.name, v))
                continue
            key = (kind, v["msg"][:80])
            if seen_msgs.get(key, 0) >= 2 or nrep >= 40 or time.time() - t_rep > 150:
                continue
            seen_msgs[key] = seen_msgs.get(key, 0) + 1
            nrep += 1
            case = {
                "property": a.pid, "harness_file": hrel, "harness": h.name,
                "inputs": v["inputs"], "tier": tier, "symbolic_msg": v["msg"],
            }
            r, path = replay(case, "%s-%s-%d" % (a.pid, h.name, nrep), 20 if v.get("hang") else 60)
            if r["status"] == "violated":
                kf = None
                for k in known:
                    if k.get("harness") == h.name and k.get("inputs") == v["inputs"]:
                        kf = k
                if kf:
                    known_hits[kf["id"]] = kf
                else:
                    reported.append((h.name, v, r, path))
            else:
                spurious.append((h.name, dict(v, replay=r)))
    # witnesses of discharged paths, re-run natively on the untouched code
    validated = {"ok": 0, "divergent": 0}
    if not crashed:
        for hname, inputs, r in validate(hrel, specs, agg, tier):
            if r["status"] == "violated":
                path = replay(
                    {"property": a.pid, "harness_file": hrel, "harness": hname, "inputs": inputs,
                     "tier": tier, "symbolic_msg": "witness of a discharged path"},
                    "%s-%s-w%d" % (a.pid, hname, validated["divergent"]))[1]
                validated["divergent"] += 1
                reported.append((hname, {"inputs": inputs}, r, path))
            elif r["status"] == "ok":
                if r.get("same_covers"):
                    validated["ok"] += 1
                else:
                    validated["divergent"] += 1
                    validated.setdefault("examples", []).append([hname, inputs, r])
            else:
                validated["divergent"] += 1
                validated.setdefault("examples", []).append([hname, inputs, r])
    # known findings: replay each listed input so that the line reflects the current code
    for k in known:
        case = {
            "property": a.pid, "harness_file": k.get("harness_file", hrel), "harness": k["harness"],
            "inputs": k["inputs"], "tier": tier,
        }
        r, path = replay(case, "%s-known-%s" % (a.pid, k["id"]), 20)
        if r["status"] == "violated":
            print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
    # ---------------------------------------------------------------- verdict
    missing = []
    incomplete = []
    for h in specs:
        g = agg[h.name]
        m = [c for c in h.covers if c not in g["covers"]]
        if m:
            missing.append((h.name, m))
        if g["late"] or g["n_unsupported"] or g["ok"] == 0:
            incomplete.append(h.name)
    wall = time.time() - t_start
    if not a.no_evidence:
        from symtex import evidence

        evidence.write(
            HERE, a.pid, tier, specs, agg, tot, funcs, wall, missing, incomplete, reported,
            spurious, crashed, dumps, validated,
        )
    for h in specs:
        g = agg[h.name]
        print(
            "%s.%s: paths=%d discharged=%d abandoned=%d unsupported=%d unexplored=%d covers=%d/%d "
            "depth=%d ticks=%d t=%.1f" % (
                a.pid, h.name, g["paths"], g["ok"], g["abandoned"], g["n_unsupported"], g["late"],
                len([c for c in h.covers if c in g["covers"]]), len(h.covers),
                g["max_depth"], g["max_ticks"], g["t_last"] - g["t_first"],
            )
        )
    print("%s: witnesses validated natively: %d, divergent: %d" % (
        a.pid, validated["ok"], validated["divergent"]))
    for x in validated.get("examples", [])[:5]:
        print("DIVERGENT", x, file=sys.stderr)
    print(
        "%s: queries=%d (assertions %d, unsat %d) solver=%.1fs unknown=%d wall=%.1fs" % (
            a.pid, tot.get("queries", 0), tot.get("assert_queries", 0), tot.get("assert_unsat", 0),
            tot.get("query_time", 0), tot.get("unknown", 0), wall,
        )
    )
    for name, v in spurious[:6]:
        print("INCONCLUSIVE %s.%s: %s inputs=%r replay=%r" % (
            a.pid, name, v["msg"], v.get("inputs"), v.get("replay")), file=sys.stderr)
        if a.verbose and v.get("trace"):
            print(v["trace"], file=sys.stderr)
    for name, m in missing:
        print("NOT COVERED %s.%s: %s" % (a.pid, name, m), file=sys.stderr)
    if reported:
        for name, v, r, path in reported[:6]:
            print("  %s: %s\n    inputs: %r" % (name, r["msg"], v["inputs"]))
            if a.verbose and r.get("trace"):
                print(r["trace"])
            print("VIOLATION property=%s replay=%s" % (a.pid, os.path.relpath(path, HERE)))
        sys.exit(1)
    if crashed:
        print("engine failure: %s" % crashed, file=sys.stderr)
        sys.exit(3)
    print("%s: %s" % (a.pid, "held on everything explored" + (
        "" if not incomplete else " (exploration incomplete: %s)" % ", ".join(incomplete))))
    sys.exit(0)


if __name__ == "__main__":
    main()
