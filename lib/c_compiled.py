"""C23"""
import random
from vlib import *
from gen_metrics import *
import gen_routing

COLS = [("a", "Kilometers"), ("b", "KilometersPerHour"), ("c", "F64"), ("d", "Meters"), ("e", "F64"), ("f", "Hours"), ("g", "F64"), ("h", "LaneCount")]


def plan(cid, rng, p, kinds):
    """a config with p parsed metrics and entries of these kinds: None if there are none that fit"""
    for _ in range(20):
        n = rng.choice([2, 3])
        pos, pairs = places(rng, n)
        edges = rng.sample(pairs, min(len(pairs), rng.randint(1, 3)))
        cols = [{"kind": "other", "info": "SrcId", "id": "src-id"}, {"kind": "other", "info": "DstId", "id": "dst-id"}, {"kind": "eid", "id": "edge-id"}]
        cols += [{"kind": "metric", "id": i, "unit": u} for i, u in COLS[:p]]
        rng.shuffle(cols)
        lines = [[values(rng) if c["kind"] == "metric" else F(0) for c in cols] for _ in edges]
        eids = rng.sample(range(100), len(edges))
        units, prog = dict(COLS[:p]), []
        for j, k in enumerate(kinds):
            new, f = f"n{j}", rng.choice(list(units) or [""])
            if k in ("copy", "convert", "merge") and not units or k == "calc" and not {"a", "b"} <= set(units):
                return None
            if k == "custom":
                o, units[new] = {"op": k, "id": new, "unit": "F64", "dflt": values(rng)}, "F64"
            elif k == "haversine":
                o, units[new] = {"op": k, "id": new, "unit": "Kilometers"}, "Kilometers"
            elif k == "meta":
                o = {"op": k, "info": rng.choice(METAS), "id": new}
            elif k == "copy":
                o, units[new] = {"op": k, "from": f, "fu": units[f], "to": new, "tu": units[f]}, units[f]
            elif k == "convert":
                f = rng.choice([x for x in units if x not in ("a", "b")] or list(units))
                o, units[new] = {"op": k, "from": f, "fu": units[f], "to": new, "tu": "F64"}, "F64"
                del units[f]
            elif k == "calc":
                o, units[new] = {"op": k, "r": new, "ru": "Hours", "a": "a", "au": units["a"], "b": "b", "bu": units["b"]}, "Hours"
            else:
                o = {"op": k, "file": f"m{j}.csv", "header": True, "eid": "edge-id", "ids": ["edge-id", f], "rows": [[e, values(rng)] for e in eids]}
            prog.append(o)
        arcs = [angle(pos[s], pos[d]) for s, d in edges]
        if simulate(cols, lines, arcs, prog, eids) is not None:
            exports = [(rng.choice(["edges", "graph"]), False, rng.random() < .5)] if units and rng.random() < .5 else ()
            return MetricCase(cid, rng, cols, pos, edges, lines, eids, prog, exports=exports)
    return None


def run_C23(rep, thorough, seed):
    dims = [1, 3, 8] + ([2, 5, 16, 32, 64] if thorough else [])
    rng = random.Random(seed)
    r = tlc("CompiledDesign", f"SPECIFICATION Spec\nINVARIANTS ToldIsTrue\nPROPERTIES NeverShrinks\nCONSTANTS\nMaxLen = {4 if thorough else 3}\nMaxCols = {3 if thorough else 2}\n"
            f"EmitLen = {3 if thorough else 2}\nCHECK_DEADLOCK FALSE\n")
    rep.model("CompiledDesign", r)
    plans = [(x["cols"], list(x["kinds"])) for x in r.outfile]
    kinds = sorted({k for _, ks in plans for k in ks})
    for _ in range(2000 if thorough else 250):
        plans.append((rng.randint(0, 8), [rng.choice(kinds) for _ in range(rng.randint(0, 6))]))
    plans += [(p, []) for p in range(9)]
    for d in dims:
        build(dim=d)
    raw, obs, traces, routes = {}, {}, [], []
    rraw, robs, rtr = {}, {}, []
    for d in dims:
        cases = [c for c in (plan(f"{d}:{i}", rng, p, ks) for i, (p, ks) in enumerate(plans)) if c]
        mine = {c.id: c.raw() for c in cases}
        got = run_cases(list(mine.values()), binary=("vh", d))
        traces += [{**c.trace(got[c.id]), "max": d} for c in cases]
        raw.update(mine)
        obs.update(got)
        rc = []
        for i in range(300 if thorough else 40):
            k = rng.choice([d, d, max(1, d - 1), rng.randint(1, d)])
            n = rng.randint(2, 7)
            E = gen_routing.random_graph(rng, n, rng.randint(n, 2 * n + 2), k, 9)
            if E:
                rc.append(gen_routing.simple_case(f"{d}:{i}", n, E, rng, alphas=[rng.choice([0, 1, 1, 2]) for _ in range(k - 1)] + [1], dim=k))
        mine = {c.id: c.raw() for c in rc}
        got = run_cases(list(mine.values()), binary=("vh", d))
        rtr += [c.trace(got[c.id]) for c in rc]
        rraw.update(mine)
        robs.update(got)
    rep.extra["compiled_for"] = dims
    rep.extra["configs"] = {"accepted": sum(t["got"]["ok"] for t in traces), "refused": sum(not t["got"]["ok"] for t in traces)}
    rep.traces_run("TraceMetrics", validate("TraceMetrics", traces), traces, raw, obs)
    rep.traces_run("TraceRouting", validate("TraceRouting", rtr), rtr, rraw, robs)
    rep.assumptions += ["builds for other numbers of metrics are made without the gpl-feature (the exploration cannot be compiled for each of them)"]
