import json
import os

ASSUME = [
    "symbolic characters range over code points 0..255 (latin-1) unless a harness states a smaller alphabet; "
    "characters above U+00FF occur only as concrete text",
    "string lengths, list lengths and counts are bounded as stated per harness; nothing is claimed beyond them",
    "logging calls are stubbed to record nothing; file-system, archive and clock effects are replaced by the "
    "stubs a harness names",
    "trusted: CPython, z3, the symtex AST instrumentation and regex interpreter (validated on every run by "
    "re-running path witnesses natively on the untouched code)",
]


def write(here, pid, tier, specs, agg, tot, funcs, wall, missing, incomplete, reported, spurious,
          crashed, dumps, validated):
    total_paths = sum(g["paths"] for g in agg.values())
    decisions = tot.get("queries", 0)
    samples = []
    for h in specs:
        for s in agg[h.name]["samples"][:3]:
            samples.append({"harness": h.name, "inputs": s["inputs"]})
    fn = sorted("%s.%s" % (m, f) for m, s in funcs.items() for f in s if m.startswith("latex2json"))
    cov = {
        "states": total_paths,
        "transitions": decisions,
        "traces_validated_against_impl": validated["ok"],
        "samples": samples[:12],
        "exhaustive": not incomplete and not crashed,
        "explanation": (
            "Bounded symbolic execution of the real source of latex2json (instrumented from the working tree "
            "on this run). states = symbolic paths explored, each standing for every input that follows it; "
            "transitions = solver queries deciding forks and assertions. A path is discharged when z3 answers "
            "unsat for (path condition and not assertion)."
        ),
        "solver": {
            "queries": tot.get("queries", 0),
            "sat": tot.get("sat", 0),
            "unsat": tot.get("unsat", 0),
            "unknown": tot.get("unknown", 0),
            "assertion_queries": tot.get("assert_queries", 0),
            "assertion_unsat": tot.get("assert_unsat", 0),
            "solver_time_s": round(tot.get("query_time", 0), 2),
            "exhaustive_concretization_forks": tot.get("realized", 0),
        },
        "witness_validation": validated,
        "functions_encoded": fn,
        "harnesses": [],
    }
    for h in specs:
        g = agg[h.name]
        cov["harnesses"].append(
            {
                "name": h.name,
                "bounds": h.bounds,
                "outside_the_claim": h.excludes,
                "paths": g["paths"],
                "paths_discharged": g["ok"],
                "paths_outside_assumptions": g["abandoned"],
                "paths_unsupported": g["n_unsupported"],
                "subtrees_unexplored": g["late"],
                "exhausted_within_bounds": h.name not in incomplete,
                "reachability_witnesses": sorted(c for c in h.covers if c in g["covers"]),
                "witnesses_missing": [c for c in h.covers if c not in g["covers"]],
                "max_decisions_on_a_path": g["max_depth"],
                "max_steps_on_a_path": g["max_ticks"],
            }
        )
    if dumps is not None and tier == "thorough":
        cov["second_solver"] = cross_check(dumps)
    if spurious:
        cov["inconclusive"] = [
            {"harness": n, "msg": v.get("msg"), "inputs": v.get("inputs")} for n, v in spurious[:10]
        ]
    if crashed:
        cov["engine_failure"] = str(crashed)[-800:]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    d = os.path.join(here, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def cross_check(dumps):
    """re-decide a sample of the assertion queries with cvc5"""
    out = {"solver": "cvc5", "compared": 0, "agree": 0, "disagree": 0}
    try:
        import cvc5
        import z3
    except Exception as e:
        return {"unavailable": str(e)}
    for smt in dumps[:150]:
        try:
            s = z3.Solver()
            s.from_string(smt)
            rz = str(s.check())
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", "5000")
            slv.setLogic("ALL")
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
            sm = parser.getSymbolManager()
            rc = None
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                r = cmd.invoke(slv, sm)
                if "sat" in r:
                    rc = r.strip()
            if rc is None:
                continue
            out["compared"] += 1
            if rc == rz:
                out["agree"] += 1
            else:
                out["disagree"] += 1
        except Exception as e:
            out.setdefault("errors", 0)
            out["errors"] += 1
            out["last_error"] = str(e)[:200]
    return out
