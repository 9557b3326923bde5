"""C17: updates of the balanced metric."""
import json, random
from vlib import *
from maps import *
from gen_routing import random_graph, coords

U = 1000000


def bal_cfg(rng, metric, avg, c, mn, throw, results="res"):
    """the balancing-section of a config; c in thousandths, mn in millionths or -1"""
    method = "averaging" if avg else None
    y = ["balancing:"]
    items = [[f"  results-dir: '{results}'"], ["  iter-0-cfg: 'i0.yaml'"], ["  iter-i-cfg: 'i1.yaml'"],
             ["  number_of_metric-updates: 2"],
             ["  multi-ch-constructor:", "    fmi-graph: 'graph.fmi'", "    contracted-graph: 'graph.ch.fmi'", "    dimension: 3",
              "    is_printing_osm-ids: true", "    is_using_external_edge-ids: true"],
             ["  monitoring:", "    edges-info:", "      file: 'edges-info.csv'", "      ids:", "      - id: 'edge-id'"]]
    o = ["  optimizing_with:"]
    m = ["    method: averaging"] if avg else ["    method:", "      explicit_euler:", f"        correction: {c / 1000}"]
    i = [f"    metric-id: '{metric}'"]
    items.append(o + (i + m if rng.random() < .5 else m + i))
    if mn >= 0:
        items.append([f"  min_new_metric: {mn / U}"])
    if throw is not None:
        items.append([f"  throw_err_when_new_metric_is_zero: {'true' if throw else 'false'}"])
    if rng.random() < .4:
        items.append([f"  seed: {rng.randint(0, 99)}"])
    if rng.random() < .4:
        items.append([f"  number_of_threads: {rng.randint(1, 9)}"])
    rng.shuffle(items)
    for x in items:
        y += x
    return "\n".join(y) + "\n"


class UCase:
    def __init__(self, id, rng, edges, dim, normalize, ncols=None):
        """edges: (src, dst, [metrics])"""
        self.id, self.rng, self.dim = id, rng, dim
        self.ops, self.plan = [], []
        n = max(max(e[0], e[1]) for e in edges)
        cfg = parsing_cfg(dim, edge_id=True, normalize=normalize)
        ns = [(i, *coords(i)) for i in range(1, n + 1)]
        es = [(*e, None, 100 + 7 * k) for k, e in enumerate(edges)]
        order = list(range(len(es)))
        rng.shuffle(order)
        self.ops += [{"op": "file", "path": "g.fmi", "text": fmi(ns, [es[k] for k in order], edge_id=True)},
                     {"op": "file", "path": "g.yaml", "text": cfg}, {"op": "parse", "g": "g", "cfg": "g.yaml"}]
        self.plan += [None, None, ("graph",)]
        self.ne = len(edges)

    def update(self, metric, avg, c, mn, throw, w, it):
        name = f"b{len(self.ops)}.yaml"
        known = metric < self.dim
        self.ops += [{"op": "file", "path": name, "text": bal_cfg(self.rng, f"m{metric}", avg, c, mn, throw)},
                     {"op": "update_metric", "g": "g", "cfg": name, "workloads": w, "iter": it}, {"op": "dump", "g": "g"}]
        p = {"avg": avg, "c": c, "min": mn, "throw": throw is not False}
        self.plan += [None, ("update", metric if known else 0, p, it, w, known), None]

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        ev = []
        g = None
        for i, pl in enumerate(self.plan):
            if i >= len(obs):
                break
            o = obs[i]
            if pl is None:
                continue
            if pl[0] == "graph":
                if failed(o) or "err" in o:
                    # whether a map can be built isn't judged here
                    return {"id": self.id, "ev": []}
                g = o["graph"]
                continue
            _, m, p, it, w, known = pl
            fl = failed(o)
            e = {"op": "update", "p": p, "iter": it, "w": w, "known": known, "m": m + 1, "res": fl or ("err" if "err" in o else "ok")}
            if o.get("stage") == "config":
                e["res"] = "config_refused"
            h = g
            if not fl and i + 1 < len(obs) and not failed(obs[i + 1]):
                h = obs[i + 1]["graph"]
            e.update(old=values(g, m), new=values(h, m), rest=rest(g, m), newrest=rest(h, m), oldmeans=[repr(x) for x in g["means"]],
                     newmeans=[repr(x) for x in h["means"]], keeps=g["means"][m] is not None,
                     newmean=num(h["means"][m], U) if h["means"][m] is not None else 0)
            ev.append(e)
            g = h
            if fl:
                break
        return {"id": self.id, "ev": ev}


def values(g, m):
    return [num(e["m"][m], U) for e in g["edges"]]


def rest(g, m):
    h = {k: v for k, v in g.items() if k not in ("edges", "means")}
    for k in ("out", "in"):
        h[k] = [[[i, d, ms[:m] + [ms[m] == g["edges"][i]["m"][m]] + ms[m + 1:]] for i, d, ms in a] for a in g[k]]
    h["edges"] = [dict(e, m=e["m"][:m] + ["."] + e["m"][m + 1:]) for e in g["edges"]]
    import hashlib
    return hashlib.sha256(json.dumps(h, sort_keys=True).encode()).hexdigest()


def enumerated(id, rng, x, n):
    dim = rng.choice([1, 2, 3])
    m = rng.randrange(dim)
    E = []
    for i in range(n):
        v = [rng.choice([1, 2, 3, 5]) for _ in range(dim)]
        if rng.random() < .7:
            v[m] = 1
        E.append((rng.choice([1, 2]), 3 + i, v))
    c = UCase(id, rng, E, dim, rng.random() < .5)
    p = x["p"]
    for it, w in enumerate(x["w"]):
        c.update(m, p["avg"], p["c"], p["min"], p["throw"], w, it)
    return c


def random_history(id, rng):
    dim = rng.choice([1, 2, 3, 5])
    m = rng.randrange(dim)
    n = rng.choice([1, 2, 3, 5, 8, 12])
    E = []
    for i in range(n):
        E.append((rng.randint(1, 4), 5 + i, [rng.choice([1, 1, 2, 7, 20]) + rng.choice([0, 0, .5, .125]) for _ in range(dim)]))
    c = UCase(id, rng, E, dim, rng.choice([True, True, False, None]))
    avg = rng.random() < .5
    corr = rng.choice([0, 1, 100, 200, 500, 900, 1000, 1500, 2000])
    mn = rng.choice([-1, -1, 0, 1000, 100000, 500000, 1000000, 3000000])
    throw = rng.choice([None, True, False, False])
    for it in range(rng.choice([1, 2, 3, 6])):
        top = rng.choice([1, 3, 10, 1000, 100000])
        w = [rng.choice([0, 1, top, rng.randint(0, top)]) for _ in range(n)]
        if rng.random() < .5:
            w = [x + 1 for x in w]
        if rng.random() < .08:
            w = [0] * n
        if rng.random() < .15:
            # not only from one config, and not only in order
            avg, corr, mn, throw = rng.random() < .5, rng.choice([0, 300, 1000]), rng.choice([-1, 200000]), rng.choice([None, False])
        c.update(dim + 1 if rng.random() < .05 else m, avg, corr, mn, throw, w, it if rng.random() < .9 else rng.choice([0, 1, 9]))
        if rng.random() < .1:
            m = rng.randrange(dim)
    return c
