"""C18"""
import random
from vlib import *
from gen_rcfg import *


def run_C18(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    k = 3 if thorough else 2
    ls = tlc("GenRoutingCfg", 'SPECIFICATION Spec\nCONSTANTS\nIds = {"m0", "m1", "gen", "none"}\n'
             f'K = {k}\nAs = {{"none", "0", "2500"}}\nSs = {{"none", "inf", "1500"}}\nCHECK_DEADLOCK FALSE\n').outfile
    rep.extra["enumerated_sections"] = len(ls)
    cases = []
    rng.shuffle(ls)
    conv = lambda x: None if x == "none" else x if x == "inf" else int(x)
    for i in range(0, len(ls), 60):
        c = RCase(len(cases), rng, names=["m0", "m1"], gen=True)
        for j, x in enumerate(ls[i:i + 60]):
            c.load(section(rng, [entry(e["id"], conv(e["a"]), conv(e["s"])) for e in x["e"]]), route=j % 5 == 0)
        cases.append(c)
    for i in range(1500 if thorough else 150):
        c = RCase(len(cases), rng, gen=rng.random() < .3)
        for j in range(10):
            s = random_section(rng, c.names)
            kw = spoil(rng, s, c.names) if rng.random() < .4 else {}
            if rng.random() < .2:
                kw["pairs_file"] = "p.route-pairs"
            c.load(s, route=rng.random() < .6, **kw)
        cases.append(c)
    rep.assumptions.append("a metric that is listed twice is not judged; weights and tolerances have at most three decimals")
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.traces_run("TraceRoutingCfg", validate("TraceRoutingCfg", traces), traces, raw, obs)
