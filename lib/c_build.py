"""C04, C05, C06"""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from gen_build import *


def decide(rep, part, cases):
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    r = validate("TraceBuilding", traces, f'CONSTANT Part = "{part}"\n')
    rep.traces_run("TraceBuilding", r, traces, raw, obs)


def model(rep, v, m, k):
    rep.model(f"Builder(V={v},M={m},MaxE={k})", tlc("Builder", f"SPECIFICATION Spec\nINVARIANTS Faithful ShortcutsKept LevelSorted\nCONSTANTS\nV = {v}\nM = {m}\nMaxE = {k}\nCHECK_DEADLOCK FALSE\n"))


def enum_cases(rng, thorough, start=0):
    r = tlc("GenBuilding", f"SPECIFICATION Spec\nCONSTANTS\nN = 2\nM = {{1, 2}}\nMaxE = {4 if thorough else 3}\nCHECK_DEADLOCK FALSE\n")
    return [enumerated(start + i, rng, l, 2) for i, l in enumerate(r.outfile)]


def run(rep, thorough, seed, part, mix, count, enum):
    build()
    rng = random.Random(seed)
    rep.assumptions.append("coordinates and metrics are compared exactly (they are numbered by their order in the specification); metrics of maps with shortcuts are integers")
    model(rep, "{1, 2}", "{1, 2}" if thorough else "{1}", 3)
    cases = enum_cases(rng, thorough) if enum else []
    rep.extra["exhaustive_edge_lists"] = len(cases)
    for _ in range(count * (8 if thorough else 1)):
        cases.append(random_map(rng, len(cases), rng.choice(mix)))
    hubs = 8 * (8 if thorough else 1) if part != "C06" else 0
    cases += [hub_map(rng, len(cases) + k, part == "C05") for k in range(hubs)]
    rep.extra["maps_around_a_hub"] = hubs
    decide(rep, part, cases)


def large(rep, part, thorough, seed):
    """maps whose building takes several chunks: the builder is compiled for 1024 metrics, so its chunks hold fewer edges"""
    rng = random.Random(seed + 5)
    cases = [LargeCase(f"large{k}", rng, n, m) for k, (n, m) in enumerate([(9000, 24000)] + ([(21000, 54000), (30000, 24000), (100, 49000)] if thorough else []))]
    raw = {c.id: {**c.raw(), "graph_dim": DIM} for c in cases}
    obs = run_cases(list(raw.values()), binary=("vh", DIM), op_timeout=300, procs=1, memory=6 << 30)
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.extra["edges_of_large_maps"] = [len(c.edges) for c in cases]
    for c in raw.values():
        c["ops"] = [{k: (v[:200] + "..." if isinstance(v, str) else v) for k, v in o.items()} for o in c["ops"]]
    small = {k: [{x: ("..." if x == "graph" else y) for x, y in e.items()} for e in o] for k, o in obs.items()}
    r = validate("TraceBuilding", traces, f'CONSTANT Part = "{part}"\n')
    rep.traces_run("TraceBuilding(large maps)", r, traces, raw, small)


def with_large(rep, thorough, seed, part, *rest):
    with ThreadPoolExecutor(1) as ex:
        other = ex.submit(build, ("vh",), True, DIM)
        run(rep, thorough, seed, part, *rest)
        other.result()
    large(rep, part, thorough, seed)


def run_C04(rep, thorough, seed):
    with_large(rep, thorough, seed, "C04", ["plain", "plain", "sc", "ids"], 600, True)


def run_C05(rep, thorough, seed):
    with_large(rep, thorough, seed, "C05", ["sc", "sc", "sc", "cyclic"], 700, False)


def run_C06(rep, thorough, seed):
    run(rep, thorough, seed, "C06", ["plain", "ids", "ids", "bad", "bad"], 700, False)
