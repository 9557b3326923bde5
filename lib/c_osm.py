"""C14"""
import random
from vlib import *
from gen_osm import *


def run_C14(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    rep.model("OsmPasses", tlc("OsmPasses", "SPECIFICATION Spec\nINVARIANT Right\nCONSTANTS\nN = 2\nCHECK_DEADLOCK FALSE\n"))
    xs = tlc("GenOsm", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n").outfile
    rep.extra["enumerated_roads"] = len(xs)
    tables = {"hw": sorted({x["hw"] for x in xs} - {""}), "ms": sorted({x["ms"] for x in xs} - {""})}
    rng.shuffle(xs)
    cases = []
    for _ in range(3 if thorough else 1):
        for i in range(0, len(xs), 10):
            cases.append(single(len(cases), rng, xs[i:i + 10]))
    for _ in range(5000 if thorough else 500):
        cases.append(network(len(cases), rng, tables))
    for k in range(8 if thorough else 2):
        cases.append(large(len(cases), rng, tables, k % 2 == 0))
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.assumptions += ["nothing is said on highway=service for cars and highway=road, where documentation and implementation differ",
                        "only maxspeed- and oneway-values that are numbers or listed in the specification"]
    res = [e["res"] for t in traces for e in t["ev"]]
    rep.extra["results"] = {k: res.count(k) for k in sorted(set(res))}
    rep.traces_run("TraceOsm", validate("TraceOsm", traces), traces, raw, obs)
