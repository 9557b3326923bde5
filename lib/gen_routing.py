"""Cases for C01 (optimal routing), C02 (hierarchies) and C03 (reuse)."""
import random
from vlib import *
from maps import *


def coords(i):
    return (round(0.01 * i, 5), round(0.02 * i, 5))


def map_ops(slot, nodes, edges, level=False, sc=False):
    dim = len(edges[0][2])
    return [{"op": "file", "path": f"{slot}.yaml", "text": parsing_cfg(dim, level=level, sc=sc, map_file=f"{slot}.fmi")},
            {"op": "file", "path": f"{slot}.fmi", "text": fmi(nodes, edges, level=level, sc=sc)},
            {"op": "parse", "g": slot, "cfg": f"{slot}.yaml"}]


def route_op(slot, alphas, queries, algo="Dijkstra", router="r"):
    return {"op": "route", "g": slot, "r": router, "alphas": alphas, "algo": algo, "queries": queries}


def all_pairs(n):
    return [[a, b] for a in range(n) for b in range(n)]


class Case:
    """A recorded history and how its observations become events of TraceRouting."""
    def __init__(self, id):
        self.id, self.ops, self.plan, self.slots = id, [], [], {}
        self.nscale = 1     # how negative a negative entry is
        self.scale, self.ascale = 1, 1     # powers of two: what 1 of the specification is in files and weightings

    def graph(self, slot, nodes, edges, level=False, sc=False):
        ops = map_ops(slot, nodes, [(*e[:2], [x * self.scale for x in e[2]], *e[3:]) for e in edges], level, sc)
        self.ops += ops
        gin, _ = input_graph(nodes, edges)
        self.slots[slot] = (len(self.slots) + 1, gin)
        self.plan += [None, None, ("graph", slot)]
        return gin["n"]

    def route(self, slot, alphas, queries, algo="Dijkstra", router="r", rounds=1):
        self.ops.append({**route_op(slot, [x * self.ascale * (self.nscale if x < 0 else 1) for x in alphas], queries, algo, router), "rounds": rounds})
        self.plan.append(("query", slot, alphas, queries, algo))

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        ev = []
        for i, pl in enumerate(self.plan):
            if i >= len(obs):
                break
            o = obs[i]
            fl = failed(o)
            if fl:
                ev.append({"op": "broken", "what": fl})
                break
            if pl is None:
                continue
            if pl[0] == "graph":
                if "err" in o:
                    ev.append({"op": "broken", "what": "map_rejected"})
                    break
                ev.append({"op": "graph", "g": abs_graph(o["graph"], 1, self.scale), "gin": self.slots[pl[1]][1]})
            elif pl[0] == "query":
                q = []
                for (s, d), a in zip([pl[3][i] for i in o["asked"]], o["paths"]):
                    q.append({"s": s + 1, "d": d + 1, "ans": answer(a, s, d, self.scale)})
                ev.append({"op": "query", "k": self.slots[pl[1]][0], "algo": pl[4], "a": pl[2], "q": q})
        return {"id": self.id, "ev": ev}


SCALES = [1, 1, 1, 2.0 ** -15, 2.0 ** -10, .25, 64]
ASCALES = [1, 1, 1, .5, 2.0 ** -3, 16]


def some_scale(rng):
    return rng.choice(SCALES), rng.choice(ASCALES)


def unscaled(x, scale):
    return num(x) if isinstance(x, str) else num(x / scale)


def answer(a, s, d, scale=1):
    if a is None:
        return {"found": False, "p": [], "c": [], "fp": [], "fc": []}
    # endpoints claimed by the path itself have to be those asked for
    ok = a["src"] == s and a["dst"] == d
    flat = a["flat"]
    fok = "err" not in flat and flat["src"] == s and flat["dst"] == d
    return {"found": True, "p": [e + 1 for e in a["edges"]] if ok else [0],
            "c": [unscaled(x, scale) for x in a["costs"]],
            "fp": [e + 1 for e in flat["edges"]] if fok else [0],
            "fc": [unscaled(x, scale) for x in flat["costs"]] if fok else []}


def simple_case(id, n, wedges, rng=None, alphas=None, dim=1, scale=(1, 1)):
    """wedges: [(u, v, w)] 1-based; some node-ids are neither dense nor ordered like the input"""
    c = Case(id)
    c.scale, c.ascale = scale
    ids = [10 * i + 3 for i in range(1, n + 1)]
    nodes = [(ids[i], *coords(i)) for i in range(n)]
    edges = [(ids[u - 1], ids[v - 1], w if isinstance(w, list) else [w]) for u, v, w in wedges]
    if rng:
        rng.shuffle(nodes)
        rng.shuffle(edges)
    k = c.graph("g", nodes, edges)
    c.route("g", alphas or [1] * dim, all_pairs(k))
    return c


def random_graph(rng, n, m, dim, wmax, zero_ok=False):
    E = []
    for _ in range(m):
        u, v = rng.randint(1, n), rng.randint(1, n)
        if u == v and rng.random() < 0.7:
            continue
        E.append((u, v, [rng.randint(1, wmax) for _ in range(dim)]))
    return E


def shaped_graph(rng, kind, n, dim, wmax):
    w = lambda: [rng.randint(1, wmax) for _ in range(dim)]
    E = []
    if kind == "cycle":
        for i in range(n):
            E.append((i + 1, (i + 1) % n + 1, w()))
    elif kind == "twoway_line":
        for i in range(1, n):
            E += [(i, i + 1, w()), (i + 1, i, w())]
    elif kind == "grid":
        k = max(2, int(n ** 0.5))
        for x in range(k):
            for y in range(k):
                a = x * k + y + 1
                if x + 1 < k:
                    E += [(a, a + k, w()), (a + k, a, w())]
                if y + 1 < k:
                    E += [(a, a + 1, w())] + ([(a + 1, a, w())] if rng.random() < 0.5 else [])
    elif kind == "bait":  # a cheap long detour against an expensive short connection
        h = n // 2
        for i in range(1, n):
            E.append((i, i + 1, [1] * dim))
        E.append((1, n, [n + rng.randint(-2, 2)] * dim))
        E.append((1, h, [h + rng.randint(-1, 1)] * dim))
        E.append((h, n, [n - h + rng.randint(-1, 1)] * dim))
        E = [(a, b, [max(1, x) for x in m]) for a, b, m in E]
    elif kind == "sink":  # last nodes have no leaving, first nodes no entering edges
        for i in range(2, n):
            E += [(1, i, w()), (i, n, w())]
    elif kind == "parts":  # two unconnected parts
        h = max(2, n // 2)
        for i in range(1, h):
            E += [(i, i + 1, w())]
        for i in range(h + 1, n):
            E += [(i + 1, i, w())]
    elif kind == "close":  # several ways of different hops whose costs differ by little
        big = 6 * 10**7 // dim if wmax >= 10**5 else wmax
        total = [rng.randint(big // 2, big) + n for _ in range(dim)]
        free = list(range(2, n))
        ways = [[1, n]]
        while free and len(ways) < 4:
            ways.append([1] + [free.pop() for _ in range(rng.randint(1, min(3, len(free))))] + [n])
        for way in ways:
            cuts = [sorted(rng.randint(1, t - 1) for _ in range(len(way) - 2)) for t in total]
            off = rng.choice([0, 1, -1, 2])
            for i in range(len(way) - 1):
                m = []
                for t, c in zip(total, cuts):
                    c = [0] + c + [t + off]
                    m.append(max(1, c[i + 1] - c[i]))
                E.append((way[i], way[i + 1], m))
        E.append((n, 1, w()))
    elif kind == "hub":  # a node with many leaving and entering edges
        for i in range(2, n + 1):
            E += [(1, i, w()), (i, 1, w())]
            if rng.random() < .5:
                E.append((i, rng.randint(2, n), w()))
    elif kind == "parallel":
        for i in range(1, n):
            for _ in range(3):
                E.append((i, i + 1, w()))
    return [e for e in E if 1 <= e[0] <= n and 1 <= e[1] <= n]


# ---------------------------------------------------------------- hierarchies
def contract(n, E, order, dim, twins=False):
    """Contracts nodes in the given order. For every pair of edges u->v->x with u != x a shortcut is added
    (no witness search), so the result is valid for every weighting. E: [(u, v, [m])] 1-based.
    Returns edges (u, v, m, sc) with sc as 0-based positions in the returned list, and levels."""
    edges = [(u, v, list(m), None) for u, v, m in E]
    level = {v: i for i, v in enumerate(order)}
    alive = set(range(1, n + 1))
    for v in order:
        ins = [i for i, e in enumerate(edges) if e[1] == v and e[0] in alive and e[0] != v]
        outs = [i for i, e in enumerate(edges) if e[0] == v and e[1] in alive and e[1] != v]
        for i in ins:
            for o in outs:
                if edges[i][0] == edges[o][1]:
                    continue
                m = [a + b for a, b in zip(edges[i][2], edges[o][2])]
                # equal shortcuts are left out only if an edge of equal costs and endpoints exists
                if not twins and any(e[0] == edges[i][0] and e[1] == edges[o][1] and e[2] == m for e in edges):
                    continue
                edges.append((edges[i][0], edges[o][1], m, (i, o)))
        alive.discard(v)
    return edges, level


def ch_case(id, rng, n, E, dim, alphas_list, shuffle=True, scale=(1, 1)):
    order = list(range(1, n + 1))
    rng.shuffle(order)
    # the last nodes may stay uncontracted: they share the top level
    core = rng.choice([1, 1, 1, 2, 3, n // 2, n])
    core = max(1, min(n, core))
    edges, level = contract(n, E, order[:n - core], dim)
    for v in order[n - core:]:
        level[v] = n - core
    if len(edges) > 60 or not edges:
        return None
    gap = rng.choice([1, 1, 3])
    off = rng.choice([0, 0, 2])
    c = Case(id)
    c.scale, c.ascale = scale
    ids = [7 * i + 2 for i in range(1, n + 1)]
    rng.shuffle(ids)
    nodes = [(ids[i], *coords(i), level[i + 1] * gap + off) for i in range(n)]
    perm = list(range(len(edges)))
    if shuffle:
        rng.shuffle(perm)
    pos = {p: k for k, p in enumerate(perm)}
    fe = []
    for p in perm:
        u, v, m, sc = edges[p]
        fe.append((ids[u - 1], ids[v - 1], m, None if sc is None else (pos[sc[0]], pos[sc[1]])))
    rng.shuffle(nodes)
    k = c.graph("g", nodes, fe, level=True, sc=True)
    for a in alphas_list:
        c.route("g", a, all_pairs(k), "CHDijkstra")
    c.route("g", alphas_list[-1], all_pairs(k), "Dijkstra")
    return c
