"""C21"""
import random
from vlib import *
from gen_pipeline import *
from c_tool import binary


def run_C21(rep, thorough, seed):
    exe = binary()
    rng = random.Random(seed)
    for n in [3] + ([6] if thorough else []):
        rep.model(f"PipelineDesign(MaxN={n})",
                  tlc("PipelineDesign", "SPECIFICATION Spec\nINVARIANTS CompletedAreAsSaid EndsAsSaid Chained BalancedIsTheLast\nPROPERTIES Ends\n"
                      f"CONSTANTS\nMaxN = {n}\nCHECK_DEADLOCK FALSE\n"))
    gen = tlc("GenPipeline", f"SPECIFICATION Spec\nCONSTANTS\nMaxN = {4 if thorough else 3}\nCHECK_DEADLOCK FALSE\n").outfile
    runs = sorted(((x["n"], x["fault"]) for x in gen[0]["all"]), key=str)
    rep.extra["enumerated"] = len(runs)
    algos = list(ALGOS)
    hs = []
    for k in range(5 if thorough else 1):
        for n, f in runs:
            hs.append(Pipe(len(hs), rng, n, f, algos[len(hs) % 4]))
    for k in range(1500 if thorough else 150):
        hs.append(Pipe(len(hs), rng, rng.choice([1, 2, 3, 3, 4]), {"what": "none", "at": 0}, algos[k % 4]))
    for h in hs:
        h.again = rng.random() < .15
    traces = execute_all(hs, exe)
    rep.traces_run("TracePipeline", validate("TracePipeline", traces), traces, {h.id: h.raw() for h in hs}, {h.id: h.obs for h in hs})
    ends = [e["res"] for t in traces for e in t["ev"] if e["op"] == "end"]
    rep.extra["runs"] = {k: ends.count(k) for k in sorted(set(ends))}
    its = [e for t in traces for e in t["ev"] if e["op"] == "iter"]
    rep.extra["iterations"] = len(its)
    rep.extra["iterations_with_shortcuts"] = sum(e["whole"] and len(e["g"]["E"]) > len(e["W"]) for e in its)
    rep.assumptions += ["the external constructor is a stand-in that contracts without witness-search and refuses maps of another dimension",
                        "what a failing iteration leaves in its own directory is not judged"]
