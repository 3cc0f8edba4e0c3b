"""Evidence file of one check run."""
import json
import os
import time

ASSUME = [
    "numpy, pandas, scikit-learn, scipy and statsmodels calls have their documented meaning (models in dmlcheck/models.py)",
    "a learner's fit is a function of its parameters and training sample; its predictions are a function of the fit and the rows given",
    "arithmetic is exact (real-number algebra): rounding, overflow and empty groups are outside the analysis",
    "container sizes of the drivers (folds, repetitions, treatments, learners) are small concrete numbers; numbers of observations and all values are symbolic",
]


def write(evdir, pid, tier, root, t0, sel, obls, ok, und, viol, known, funcs, calls, steps, events, unm, nrules):
    cov = {
        "explanation": "Abstract interpretation of the parsed source (interprocedural value numbering with gated merges, "
                       "no execution, no path enumeration, no solver). Each driver program is analysed together with the "
                       "package source; each obligation compares the value graph, events or exception behaviour that the "
                       "source yields with the specification stated in the driver. proven = equal normal forms or rule "
                       "satisfied; undecided = a construct outside the modelled subset was met (no verdict); violated = "
                       "fully interpreted and different.",
        "drivers": len(sel),
        "obligations": len(obls),
        "discharged": ok,
        "undecided": len(und),
        "known_findings": len(known),
        "functions_analysed": len(funcs),
        "call_edges_followed": calls,
        "statements_interpreted": steps,
        "events_recorded": events,
        "source_rules": nrules,
        "rule": "an obligation counts once per driver and label; functions are counted once over all drivers",
        "samples": [f"{nm}: {name}" for nm, name, *_ in obls[:8]],
        "functions": [f"{p}:{q}" for p, q in sorted(funcs)][:400],
        "undecided_list": [f"{nm}: {name}: {det[:160]}" for nm, name, det, loc in und[:60]],
        "uninterpreted_calls": unm,
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
