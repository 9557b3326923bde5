"""C01, C02, C03: checks of routing queries."""
import random
from vlib import *
from gen_routing import *

ASSUME = ["edge-weights are integers (up to 10^7) times a power of two, so floating point sums are exact; differences below the "
          "implementation's tolerance of 1e-6 are not judged"]


def decide(rep, name, cases):
    cases = [c for c in cases if c is not None]
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    r = validate("TraceRouting", traces)
    rep.traces_run(name, r, traces, raw, obs)


def bidijkstra(rep, n, ws, ch, srcs, dsts, live=True, core=1):
    cfg = (f"SPECIFICATION Spec\nINVARIANTS Optimal Sound\n" + ("PROPERTY Terminates\n" if live else "") +
           f"CONSTANTS\nN = {n}\nWs = {{{ws}}}\nCH = {'TRUE' if ch else 'FALSE'}\nCore = {core}\nSrcs = {{{srcs}}}\nDsts = {{{dsts}}}\nCHECK_DEADLOCK FALSE\n")
    rep.model(f"BiDijkstra(N={n},Ws={{{ws}}},CH={ch},Core={core})", tlc("BiDijkstra", cfg))


def enumerate_graphs(n, ws, loops=False):
    r = tlc("GenRouting", f"SPECIFICATION Spec\nCONSTANTS\nN = {n}\nWs = {{{ws}}}\nLoops = {'TRUE' if loops else 'FALSE'}\nCHECK_DEADLOCK FALSE\n")
    return [g for g in r.outfile if g["e"]]


KINDS = ["cycle", "twoway_line", "grid", "bait", "sink", "parts", "parallel", "close", "close", "close"]


def weightings(rng, dim, k):
    out = [[1] * dim]
    for _ in range(k - 1):
        out.append([rng.choice([0, 1, 1, 2, 3, 7]) for _ in range(dim)])
    return out


def sampled(rng, cid, n, dim, wmax, neg=False):
    kind = rng.choice(KINDS + ["hub"] + ["random"] * 5)
    E = random_graph(rng, n, rng.randint(n, 3 * n), dim, wmax) if kind == "random" else shaped_graph(rng, kind, n, dim, wmax)
    if not E:
        return None
    c = simple_case(cid, n, E, rng, alphas=weightings(rng, dim, 2)[1] if rng.random() < .6 else [1] * dim, dim=dim, scale=some_scale(rng))
    if neg:
        slot, k = "g", c.slots["g"][1]["n"]
        a = [rng.choice([0, 1, 2]) for _ in range(dim)]
        a[rng.randrange(dim)] = -rng.choice([1, 2])
        c.nscale = rng.choice([1, 1, 2.0 ** -10, 2.0 ** -17])
        c.route(slot, a, all_pairs(min(k, 3)))
    return c


def run_C01(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    rep.assumptions += ASSUME
    bidijkstra(rep, 3, "1, 2, 3" if thorough else "1, 2", False, "1, 2, 3", "1, 2, 3")
    if thorough:
        bidijkstra(rep, 4, "1, 3", False, "1", "1, 2", live=False)
    cases = []
    for n, ws, loops in [(2, "0, 1, 2", True), (3, "0, 1, 2, 3" if thorough else "0, 1, 2", False)]:
        for g in enumerate_graphs(n, ws, loops):
            cases.append(simple_case(len(cases), g["n"], g["e"], rng))
    rep.extra["exhaustive_graphs"] = len(cases)
    for i in range(4000 if thorough else 400):
        cases.append(sampled(rng, len(cases), rng.choice([2, 3, 4, 4, 5, 6, 7, 8, 10, 14]), *rng.choice([(1, 2), (1, 3), (1, 10**7), (1, 10**7), (1, 10**5), (2, 3), (2, 3 * 10**6), (2, 3 * 10**6), (3, 10), (3, 1000), (5, 2), (5, 10**5)]), neg=i % 7 == 0))
        if cases[-1] is None:
            cases.pop()
    for n in (20, 30):
        cases.append(simple_case(len(cases), n, shaped_graph(rng, "hub", n, 1, 9), rng))
    decide(rep, "TraceRouting", cases)


def hierarchical(rng, cid, n, dim, scale=None):
    kind = rng.choice(KINDS + ["random"] * 5)
    wmax = rng.choice([1, 2, 3, 10, 500, 10**7 if dim == 1 else 10**5])
    E = random_graph(rng, n, rng.randint(n - 1, 2 * n + 1), dim, wmax) if kind == "random" else shaped_graph(rng, kind, n, dim, wmax)
    return ch_case(cid, rng, n, E, dim, weightings(rng, dim, 2), scale=scale or some_scale(rng)) if E else None


def run_C02(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    rep.assumptions += ASSUME + ["the hierarchy is valid for the weighting (ValidHierarchy, checked by TLC for every case)"]
    bidijkstra(rep, 3, "1, 2, 3" if thorough else "1, 2", True, "1, 2, 3", "1, 2, 3")
    for core in (2, 3):
        bidijkstra(rep, 3, "1, 2", True, "1, 2, 3", "1, 2, 3", live=thorough, core=core)
    if thorough:
        bidijkstra(rep, 4, "1, 3", True, "1, 2, 4", "1, 3, 4", live=False, core=2)
        bidijkstra(rep, 4, "1, 3", True, "1, 2, 4", "1, 3, 4", live=False)
    cases = []
    for g in enumerate_graphs(3, "0, 1, 2"):
        cases.append(ch_case(len(cases), rng, g["n"], [(u, v, [w]) for u, v, w in g["e"]], 1, [[1]]))
    rep.extra["exhaustive_graphs"] = len(cases)
    for i in range(3000 if thorough else 300):
        c = hierarchical(rng, len(cases), rng.choice([2, 3, 4, 5, 5, 6, 7, 8, 10]), rng.choice([1, 1, 2, 3, 5]))
        if c is not None:
            cases.append(c)
    decide(rep, "TraceRouting", cases)


def history(rng, cid, length):
    """one router, several graphs of different sizes, plain and hierarchical, queries in any order"""
    c = Case(cid)
    c.scale, c.ascale = some_scale(rng)
    slots = []
    for k in range(rng.randint(2, 4)):
        n = rng.choice([2, 2, 3, 4, 6, 9])
        dim = rng.choice([1, 2])
        if rng.random() < 0.5:
            h = hierarchical(rng, 0, n, dim, (c.scale, 1))
            if h is None:
                continue
            nodes_edges = None
            # take over the map of the hierarchical case
            slot = f"h{k}"
            ops = [dict(o) for o in h.ops[:3]]
            for o in ops:
                for key in ("path", "g", "cfg"):
                    if key in o:
                        o[key] = o[key].replace("g.", slot + ".") if key != "g" else slot
                if "text" in o:
                    o["text"] = o["text"].replace("'g.fmi'", f"'{slot}.fmi'")
            c.ops += ops
            c.slots[slot] = (len(c.slots) + 1, h.slots["g"][1])
            c.plan += [None, None, ("graph", slot)]
            slots.append((slot, h.slots["g"][1]["n"], dim, True))
        else:
            E = random_graph(rng, n, rng.randint(1, 2 * n), dim, 5)
            if not E:
                continue
            slot = f"p{k}"
            ids = [10 * i + 3 for i in range(1, n + 1)]
            m = c.graph(slot, [(ids[i], *coords(i)) for i in range(n)], [(ids[u - 1], ids[v - 1], w) for u, v, w in E])
            slots.append((slot, m, dim, False))
    if not slots:
        return None
    for _ in range(length):
        slot, n, dim, ch = rng.choice(slots)
        algo = "CHDijkstra" if ch and rng.random() < 0.6 else "Dijkstra"
        a = weightings(rng, dim, 2)[1]
        if rng.random() < 0.1:
            a[0] = -1
        qs = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(1, 4))]
        c.route(slot, a, qs, algo)
    return c


def long_history(rng, cid, total):
    """a router used very often in one corner of the graph and elsewhere in between"""
    c = Case(cid)
    n = rng.choice([5, 6, 8])
    E = shaped_graph(rng, rng.choice(["cycle", "twoway_line", "grid"]), n, 1, 5) if rng.random() < .6 else random_graph(rng, n, 2 * n, 1, 5)
    if not E:
        return None
    used = sorted({x for e in E for x in e[:2]})
    ids = {v: 10 * v + 3 for v in used}
    n = c.graph("g", [(ids[v], *coords(v)) for v in used], [(ids[u], ids[v], w) for u, v, w in E])
    a = [rng.choice([1, 1, 2])]
    corner = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .5:  # somewhere beforehand, too
        c.route("g", a, rng.sample(all_pairs(n), 2))
    c.route("g", a, corner, rounds=max(1, (total - rng.randint(0, 3)) // len(corner)))
    pairs = all_pairs(n)
    rng.shuffle(pairs)
    c.route("g", a, pairs[:rng.choice([4, 10, 64])])
    return c


def run_C03(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    rep.assumptions += ASSUME
    rep.model("RouterReuse", tlc("RouterReuse", "SPECIFICATION Spec\nINVARIANTS Clean Fits\nCONSTANTS\nMaxN = 3\nMaxQ = 4\nCHECK_DEADLOCK FALSE\n"))
    cases = []
    for i in range(2500 if thorough else 350):
        c = history(rng, len(cases), rng.randint(4, 16))
        if c is not None:
            cases.append(c)
    for k in range(400 if thorough else 40):
        cases.append(long_history(rng, len(cases), rng.choice([127, 128, 255, 256, 256, 256, 257, 258, 260, 512])))
    for k in range(30 if thorough else 6):
        cases.append(long_history(rng, len(cases), rng.choice([32767, 65535, 65536, 65536, 65537])))
    cases = [c for c in cases if c is not None]
    for i, c in enumerate(cases):
        c.id = i
    decide(rep, "TraceRouting", cases)
    import c_explo
    c_explo.judge(rep, "TraceExploring(histories)", c_explo.late_cases(rng, 1500 if thorough else 150))
