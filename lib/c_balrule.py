"""C17"""
import random
from vlib import *
from gen_balrule import *

INV = "INVARIANTS MeanOne BoundedBelow RatiosKept AverageOfAll NoNegative PositiveOrRefused\n"


def run_C17(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    for n, k, w in [(2, 3, 3), (3, 2, 2)] + ([(3, 3, 2), (2, 4, 3)] if thorough else []):
        rep.model(f"Balancing(N={n},MaxIter={k},MaxW={w})",
                  tlc("Balancing", "SPECIFICATION Spec\n" + INV + f"CONSTANTS\nN = {n}\nMaxIter = {k}\nMaxW = {w}\n"
                      "Corrections = {200, 1000, 1500}\nMins = {0, 100000}\nCHECK_DEADLOCK FALSE\n"))
    cases = []
    for n, k, w in [(2, 2, 2), (3, 1, 2)]:
        ls = tlc("GenBalancing", f"SPECIFICATION Spec\nCONSTANTS\nN = {n}\nK = {k}\nMaxW = {w}\n"
                 "Corrections = {200, 1000, 1500}\nMins = {0, 100000}\nCHECK_DEADLOCK FALSE\n").outfile
        rep.extra[f"histories_from_model_{n}_{k}"] = len(ls)
        for x in ls:
            cases.append(enumerated(len(cases), rng, x, n))
    for _ in range(6000 if thorough else 800):
        cases.append(random_history(len(cases), rng))
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    res = [e["res"] for t in traces for e in t["ev"]]
    rep.extra["results"] = {k: res.count(k) for k in sorted(set(res))}
    rep.assumptions.append("values are compared in millionths with the tolerance of that rounding")
    rep.traces_run("TraceBalancing", validate("TraceBalancing", traces), traces, raw, obs)
