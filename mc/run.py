"""Run the check of one property: python -m mc.run C01 [--tier thorough]."""
import argparse
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RBM_REPO", "/repo")


def setup():
    sys.path.insert(0, os.path.join(VERIF, "mc", "rosstub"))
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    # errors in destructors are not observable behaviour
    sys.unraisablehook = lambda *a: None
    import numpy as np

    np.seterr(all="ignore")
    import rigid_body_motion as rbm

    got = os.path.realpath(os.path.dirname(os.path.dirname(rbm.__file__)))
    if got != os.path.realpath(REPO):
        raise SystemExit(f"imported rigid_body_motion from {got}, not {REPO}")
    return rbm


def load_known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        d = json.load(f)
    return {e["key"]: e["what"] for e in d["findings"] if e["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run scenarios whose name contains this")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    prop = a.property.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    import_error = None
    try:
        setup()
        from mc import explore as ex

        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    except SystemExit:
        raise
    except Exception:
        import traceback

        import_error = traceback.format_exc()
    known = load_known(prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if import_error is not None:
        print(import_error)
        raise SystemExit(2)

    scenarios = mod.scenarios(tier)
    if a.only:
        scenarios = [s for s in scenarios if a.only in s.name]

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sc = next(s for s in scenarios if s.name == rep["scenario"])
        if isinstance(sc, ex.BFSScenario):
            from mc.util import totuple
            h = totuple(rep["bfs"])
            for op, key, vio, n in sc.expand(tuple(h[:-1])):
                if op == h[-1] and vio is not None:
                    print("history:")
                    for o in h:
                        print("   ", o)
                    print(f"violated {vio[0]}: {vio[1]}")
                    raise SystemExit(1)
            print("not reproduced")
            raise SystemExit(0)
        r = ex.run_once(sc, rep["choices"])
        print("choices:")
        for p in r.points:
            print(f"    {p[0]} = {p[4]}")
        for n in r.notes:
            print("    #", n)
        if r.violation:
            print(f"violated {r.violation[0]}: {r.violation[1]}")
            raise SystemExit(1)
        print("not reproduced from a fresh process")
        raise SystemExit(0)

    cap = a.cap or (480 if tier == "quick" else 780)
    res = ex.explore(scenarios, known, cap, workers=a.workers)
    wall = time.time() - t0

    tot = dict(execs=0, steps=0, states=0, skipped=0)
    scen_out = {}
    samples = []
    capped = False
    known_hits = {}
    for sc in scenarios:
        acc = res.acc[sc.name]
        tot["execs"] += acc.execs
        tot["steps"] += acc.steps
        tot["states"] += len(acc.states)
        tot["skipped"] += acc.skipped
        capped |= acc.capped
        d = dict(
            executions=acc.execs, transitions=acc.steps,
            states=len(acc.states), distinct_outcomes=len(acc.outcomes),
            outside_domain=acc.skipped, max_choice_points=acc.max_points,
            complete=not acc.capped and res.violation is None,
        )
        if isinstance(sc, ex.BFSScenario):
            d["depth"] = sc.depth
            d["frontier_per_level"] = getattr(acc, "levels", [])
        else:
            d["deviation_bound"] = (
                "full product" if sc.bound is None else sc.bound
            )
        if sc.note:
            d["what"] = sc.note
        scen_out[sc.name] = d
        for s in acc.samples[-2:]:
            samples.append({"scenario": sc.name, "trace": s})
        for k, v in acc.known.items():
            known_hits[k] = known_hits.get(k, 0) + v
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["states"], transitions=tot["steps"],
            traces_validated_against_impl=tot["execs"],
            samples=samples[:40],
            exhaustive=bool(not capped and res.violation is None
                            and res.error is None),
            scenarios=scen_out,
            explanation=(
                "Every execution drives the real code in " + REPO + "; states: "
                "distinct canonical model states/configurations reached; "
                "transitions: calls of the real code judged by the reference "
                "model; traces_validated_against_impl: complete choice "
                "sequences executed on the implementation and compared step "
                "by step with the model. 'exhaustive' refers to the stated "
                "alphabets and bounds."
            ),
            capped=capped,
            known_finding_hits=known_hits,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=0 if res.violation is None else 1,
    )
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")

    for k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}]")
    print(
        f"{prop} {tier}: {tot['execs']} executions, {tot['steps']} transitions, "
        f"{tot['states']} states, {tot['skipped']} outside domain, "
        f"{wall:.1f} s{' CAPPED' if capped else ''}"
    )
    for n, d in scen_out.items():
        print(f"   {n}: {d['executions']} executions, {d['transitions']} "
              f"transitions, {d['states']} states, {d['distinct_outcomes']} "
              f"outcomes{'' if d['complete'] else ' INCOMPLETE'}")
    if res.violation is not None:
        v = res.violation
        path = os.path.join(rdir, f"{prop}-{os.getpid()}.json")
        v["property"] = prop
        v["seed"] = seed
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print(f"scenario {v['scenario']}, key {v['key']}")
        for t in v.get("trace", v.get("history", [])):
            print("   ", t)
        print("   ", str(v["msg"])[-3000:])
        if "reproduced" in v:
            print("    reproduced:", v["reproduced"])
        print(f"VIOLATION property={prop} replay={path}")
        raise SystemExit(1)
    if res.error is not None:
        print("ERROR", res.error)
        raise SystemExit(2)
    mins = getattr(mod, "MIN_EXECS", {}).get(tier, 1)
    if tot["execs"] < mins and not a.only:
        print(f"ERROR vacuous: {tot['execs']} executions, expected >= {mins}")
        raise SystemExit(2)
    raise SystemExit(0)


if __name__ == "__main__":
    main()
