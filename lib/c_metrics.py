"""C07, C08"""
import random
from vlib import *
from gen_metrics import *


def decide(rep, cases):
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.traces_run("TraceMetrics", validate("TraceMetrics", traces), traces, raw, obs)


def programs(rep, thorough):
    r = tlc("GenMetrics", f"SPECIFICATION Spec\nINVARIANTS IdsUnique PhysicalKept\nCONSTANTS\nMaxLen = {3 if thorough else 2}\n"
            'SmallUnits = {"Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "F64"}\nCHECK_DEADLOCK FALSE\n')
    rep.model("GenMetrics", r)
    return r.outfile


def run_C07(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    ops = programs(rep, thorough)
    rep.extra["exhaustive_single_operations"] = len(ops)
    rep.assumptions.append("great-circle lengths are checked for pairs of positions whose angle is a whole number of degrees")
    cases = []
    for _ in range(3 if thorough else 1):
        for o in ops:
            cases.append(single(len(cases), rng, o))
    for _ in range(6000 if thorough else 700):
        cases.append(program(len(cases), rng))
    decide(rep, cases)


def run_C08(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    programs(rep, False)
    cases = [normalized(k, rng) for k in range(6000 if thorough else 700)]
    decide(rep, cases)
