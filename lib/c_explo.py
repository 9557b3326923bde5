"""C15: exploring alternatives"""
import random
from vlib import *
from maps import *
from gen_routing import *


class ECase(Case):
    def explore(self, slot, alphas, scales, queries, algo="Dijkstra", router="r"):
        """scales: None (unlimited) or thousandths per metric"""
        op = {"op": "explore", "g": slot, "r": router, "alphas": alphas, "algo": algo, "queries": queries}
        sc = scales or [None] * len(alphas)
        op["scales"] = ["inf" if x is None else x / 1000 for x in sc]
        if scales is None:
            del op["scales"]
        self.ops.append(op)
        self.plan.append(("explore", slot, alphas, [INFTY if x is None else x for x in sc], queries, algo))

    def explore_late(self, slot, alphas, scales, queries, algo, router):
        """like explore, but compared to two explorators that are used for nothing else"""
        self.explore(slot, alphas, scales, queries, algo, router)
        k = len(self.ops)
        for j, q in enumerate(queries):
            for m in (0, 1):
                op = dict(self.ops[k - 1], r=f"fresh{k}-{j}-{m}", queries=[q])
                self.ops.append(op)
                self.plan.append(("fresh", k - 1, j))

    def trace(self, obs):
        ev = []
        fresh = {}
        for pl, o in zip(self.plan, obs):
            if pl and pl[0] == "fresh" and "found" in o:
                cs = sorted({tuple(num(y) for y in x["own_costs"]) for x in o["found"][0]})
                fresh.setdefault(pl[1:], []).append(cs)
        for i, pl in enumerate(self.plan):
            if i >= len(obs):
                break
            o = obs[i]
            fl = failed(o)
            if fl:
                ev.append({"op": "broken", "what": fl})
                break
            if pl is None or pl[0] == "fresh":
                continue
            if pl[0] == "graph":
                if "err" in o:
                    ev.append({"op": "broken", "what": "map_rejected"})
                    break
                ev.append({"op": "graph", "g": abs_graph(o["graph"]), "gin": self.slots[pl[1]][1]})
            else:
                q = []
                for j, ((s, d), found) in enumerate(zip(pl[4], o["found"])):
                    fs = []
                    for x in found:
                        flat = x["flat"]
                        ok = "err" not in flat and flat["src"] == s and flat["dst"] == d and x["src"] == s and x["dst"] == d
                        fs.append({"p": [e + 1 for e in flat["edges"]] if ok else [0], "c": [num(y) for y in flat["costs"]] if ok else [],
                                   "oc": [num(y) for y in x["own_costs"]]})
                    fr = fresh.get((i, j), [])
                    q.append({"s": s + 1, "d": d + 1, "found": fs, "fresh": [list(x) for x in fr[0]] if len(fr) == 2 and fr[0] == fr[1] else []})
                ev.append({"op": "explore", "k": self.slots[pl[1]][0], "a": pl[2], "scales": pl[3], "q": q, "algo": pl[5]})
        return {"id": self.id, "ev": ev}


def alphas_for(rng, dim):
    a = [rng.choice([0, 1, 1, 1, 2, 7]) for _ in range(dim)]
    if not any(a):
        a[rng.randrange(dim)] = 1
    return a


def scales_for(rng, dim):
    if rng.random() < .4:
        return None
    return [rng.choice([None, 1000, 1100, 1300, 1500, 2000, 3000]) for _ in range(dim)]


def parallel_case(id, vs, rng, dim):
    """vs: cost-vectors of parallel roads; a second hop makes half of them longer paths"""
    c = ECase(id)
    n = 2
    E = []
    for v in vs:
        if rng.random() < .5 and all(x >= 2 for x in v):
            n += 1
            E += [(1, n, [1] * dim), (n, 2, [x - 1 for x in v])]
        else:
            E.append((1, 2, list(v)))
    ids = [10 * i + 3 for i in range(1, n + 1)]
    rng.shuffle(E)
    c.graph("g", [(ids[i], *coords(i)) for i in range(n)], [(ids[u - 1], ids[v - 1], w) for u, v, w in E])
    c.explore("g", [1] * dim, None, [[0, 1]])
    c.explore("g", alphas_for(rng, dim), scales_for(rng, dim), [[0, 1], [1, 0]])
    return c


KINDS = ["cycle", "twoway_line", "grid", "bait", "sink", "parts", "parallel"]


def front(rng, dim, k, r):
    """points near a convex front"""
    out = []
    for _ in range(k):
        u = [rng.random() + 1e-3 for _ in range(dim)]
        l = sum(x * x for x in u) ** .5
        out.append([max(1, round(r * (1.05 - x / l)) + rng.randint(0, 1)) for x in u])
    return out


def random_case(id, rng, slots=None, late=False):
    dim = rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 5] if not late else [2, 2, 3])
    c = ECase(id)
    kind = rng.random()
    for slot in slots or ["g"] + (["h"] if rng.random() < .3 else []):
        n = rng.choice([2, 3, 4, 5])
        ch = rng.random() < .35
        if kind < .4:
            ps = front(rng, dim, rng.choice([4, 8, 14]), rng.choice([6, 20, 40]))
            E = [(1, 2, p) for p in ps]
            n = rng.choice([2, 3])
            if n == 3:
                E += [(2, 3, p) for p in front(rng, dim, 4, 10)]
        else:
            k = rng.choice(KINDS + ["random"] * 5)
            wmax = rng.choice([3, 10, 25])
            E = random_graph(rng, n, rng.randint(n, 3 * n), dim, wmax) if k == "random" else shaped_graph(rng, k, n, dim, wmax)
        E = [e for i, e in enumerate(E) if e not in E[:i]] or [(1, 2, [1] * dim)]
        if dim > 3:
            # the brute-force hull is slow in many dimensions
            E = rng.sample(E, min(len(E), 8))
        n = max(max(u, v) for u, v, _ in E)
        ids = [7 * i + 2 for i in range(1, n + 1)]
        level = {i: 0 for i in range(1, n + 1)}
        edges = [(u, v, m, None) for u, v, m in E]
        if ch:
            order = list(range(1, n + 1))
            rng.shuffle(order)
            e2, l2 = contract(n, E, order, dim)
            if len(e2) <= 40:
                edges, level = e2, l2
        nodes = [(ids[i], *coords(i), level[i + 1]) for i in range(n)]
        perm = list(range(len(edges)))
        rng.shuffle(perm)
        pos = {p: k for k, p in enumerate(perm)}
        fe = [(ids[edges[p][0] - 1], ids[edges[p][1] - 1], edges[p][2], None if edges[p][3] is None else (pos[edges[p][3][0]], pos[edges[p][3][1]])) for p in perm]
        k = c.graph(slot, nodes, fe, level=True, sc=True)
        qs = all_pairs(k)
        for _ in range(2):
            al = "CHDijkstra" if ch and rng.random() < .8 else "Dijkstra"
            a, sc, q = alphas_for(rng, dim), scales_for(rng, dim), rng.sample(qs, min(len(qs), 3))
            if late:
                c.explore_late(slot, a, sc, q, al, "late")
            else:
                c.explore(slot, a, sc, q, al)
    return c


def contracted_front(id, rng):
    """many alternatives on two hops, each a shortcut as well as its two edges"""
    dim = rng.choice([2, 2, 2, 3])
    c = ECase(id)
    E = [(1, 2, p) for p in front(rng, dim, rng.choice([6, 9, 12]), rng.choice([20, 40, 60]))] + [(2, 3, p) for p in front(rng, dim, rng.choice([2, 3, 4]), rng.choice([5, 10, 20]))]
    E = [e for i, e in enumerate(E) if e not in E[:i]]
    edges, level = contract(3, E, [2, 3, 1], dim)
    ids = [7 * i + 2 for i in range(1, 4)]
    perm = list(range(len(edges)))
    rng.shuffle(perm)
    pos = {p: k for k, p in enumerate(perm)}
    fe = [(ids[edges[p][0] - 1], ids[edges[p][1] - 1], edges[p][2], None if edges[p][3] is None else (pos[edges[p][3][0]], pos[edges[p][3][1]])) for p in perm]
    c.graph("g", [(ids[i], *coords(i), level[i + 1]) for i in range(3)], fe, level=True, sc=True)
    for al in ("Dijkstra", "CHDijkstra"):
        c.explore("g", [1] * dim, scales_for(rng, dim), [[0, 2]], al)
    return c


def ignored_front(id, rng):
    """many alternatives for two considered metrics, while other metrics are ignored"""
    dim = rng.choice([2, 3, 3, 4, 5])
    c = ECase(id)
    on = rng.sample(range(dim), 2)
    def road(s, d, p):
        m = [rng.randint(1, 30) for _ in range(dim)]
        m[on[0]], m[on[1]] = p
        return (s, d, m)
    E = [road(1, 2, p) for p in front(rng, 2, rng.choice([5, 9, 14]), rng.choice([10, 30, 60, 200]))]
    E += [road(2, 3, p) for p in front(rng, 2, rng.choice([1, 3, 5]), rng.choice([5, 20, 50]))]
    E = [e for i, e in enumerate(E) if e not in E[:i]]
    ids = [5 * i + 1 for i in range(1, 4)]
    c.graph("g", [(ids[i], *coords(i)) for i in range(3)], [(ids[u - 1], ids[v - 1], w) for u, v, w in E])
    a = [rng.choice([1, 2, 5]) if k in on else 0 for k in range(dim)]
    c.explore("g", a, None, [[0, 1], [0, 2]])
    return c


def late_cases(rng, k, first=0):
    """histories of one explorator on changing graphs (for C03)"""
    return [random_case(first + i, rng, slots=["g", "h", "i"], late=True) for i in range(k)]


def run_C15(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    cases = []
    for dim, mx, k in [(2, 4, 3), (3, 2, 3)] + ([(2, 4, 4), (3, 3, 3), (1, 4, 4)] if thorough else []):
        vs = tlc("GenExploring", f"SPECIFICATION Spec\nCONSTANTS\nDim = {dim}\nTop = {mx}\nK = {k}\nCHECK_DEADLOCK FALSE\n").outfile
        for x in vs:
            cases.append(parallel_case(len(cases), x["v"], rng, dim))
    rep.extra["enumerated_sets_of_parallel_roads"] = len(cases)
    for i in range(6000 if thorough else 400):
        cases.append(random_case(len(cases), rng))
    for i in range(1500 if thorough else 120):
        cases.append(contracted_front(len(cases), rng))
    for i in range(1500 if thorough else 150):
        cases.append(ignored_front(len(cases), rng))
    rep.assumptions += ["convex hulls are computed by a stand-in for the CGAL-wrapper nd-triangulation, which is not installed here",
                        "for more than three considered metrics only a necessary condition of weighting-optimality is judged",
                        "metric-values are natural numbers"]
    judge(rep, "TraceExploring", cases)


def judge(rep, name, cases):
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()), op_timeout=60)
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.traces_run(name, validate("TraceExploring", traces), traces, raw, obs)
