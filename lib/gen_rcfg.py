"""C18: routing-sections, valid and invalid, loaded for a graph and used for routing."""
import random
from vlib import *
from maps import *
from gen_routing import random_graph, coords, answer, all_pairs

INF_WORDS = ["inf", "Inf", "INF", "infinity", "Infinity", "INFINITY"]
BAD_ALPHA = ["abc", "[1]", "{ a: 1 }", "'x y'", "1,5", "--1"]
BAD_SCALE = ["abc", "'x y'", "[1]", "1,5", "1.2.3", "'infinite'", "--1"]


def dec(milli):
    s = "%d.%03d" % divmod(milli, 1000)
    return s


def written(rng, milli):
    """a number as it may be written"""
    s = dec(milli)
    t = s.rstrip("0").rstrip(".") if rng.random() < .7 else s
    if rng.random() < .1 and milli % 1000 == 0 and milli:
        t = f"{milli // 1000}e0"
    return t


def entry(id, alpha=None, scale=None, extra=False):
    """alpha, scale: None, thousandths, "inf" (scale only) or "bad" """
    e = {"id": id, "a": "none", "alpha": 0, "s": "none", "scale": 0}
    if alpha == "bad":
        e["a"] = "bad"
    elif alpha is not None:
        e.update(a="num", alpha=alpha)
    if scale in ("bad", "inf"):
        e["s"] = scale
    elif scale is not None:
        e.update(s="num", scale=scale)
    return e


def entry_yaml(rng, e, extra=None):
    kv = [("id", f"'{e['id']}'" if rng.random() < .7 else e["id"])] if e["id"] else []
    if e["a"] == "num":
        kv.append(("alpha", written(rng, e["alpha"])))
    elif e["a"] == "bad":
        kv.append(("alpha", rng.choice(BAD_ALPHA)))
    if e["s"] == "num":
        t = written(rng, e["scale"])
        kv.append(("tolerated-scale", t if rng.random() < .5 else f"'{t}'"))
    elif e["s"] == "inf":
        t = rng.choice(INF_WORDS)
        kv.append(("tolerated-scale", t if rng.random() < .5 else f"'{t}'"))
    elif e["s"] == "bad":
        kv.append(("tolerated-scale", rng.choice(BAD_SCALE)))
    if extra:
        kv.append((extra, "1"))
    rng.shuffle(kv)
    return kv


def section_yaml(rng, c, extra_at=None, entries_extra=None, pairs_file=None, others=True):
    """the text of a config whose abstraction is c"""
    if not c["sect"]:
        return "something: { else: 1 }\n" if rng.random() < .5 else "parsing:\n  map-file: 'g.fmi'\n"
    parts = []
    a = c["algo_text"]
    if a is not None:
        parts.append([f"  algorithm: {a}"])
    if pairs_file:
        parts.append([f"  route-pairs-file: '{pairs_file}'"])
    if c["listed"]:
        if not c["entries"]:
            parts.append(["  metrics: []"])
        else:
            ls = ["  metrics:"]
            for i, e in enumerate(c["entries"]):
                kv = entry_yaml(rng, e, entries_extra if i == len(c["entries"]) - 1 else None)
                if not kv:
                    ls.append("  - {}")
                elif rng.random() < .6:
                    ls.append("  - { " + ", ".join(f"{k}: {v}" for k, v in kv) + " }")
                else:
                    ls += [("  - " if j == 0 else "    ") + f"{k}: {v}" for j, (k, v) in enumerate(kv)]
            parts.append(ls)
    if extra_at:
        parts.append([f"  {extra_at}: 1"])
    rng.shuffle(parts)
    y = ["routing:"] + [x for p in parts for x in p]
    if not parts:
        y = ["routing: {}"]
    if others and rng.random() < .4:
        y = ["something-else:", "  - 1"] + y
    if others and rng.random() < .4:
        y += ["zz: { a: b }"]
    return "\n".join(y) + "\n"


ALGO = {"Dijkstra": ["'Dijkstra'", "Dijkstra"], "CHDijkstra": ["'CHDijkstra'", "CHDijkstra"],
        "Explorator(Dijkstra)": ["{ Explorator: { algo: 'Dijkstra' } }", "\n    Explorator:\n      algo: Dijkstra"],
        "Explorator(CHDijkstra)": ["{ Explorator: { algo: 'CHDijkstra' } }", "\n    Explorator:\n      algo: CHDijkstra"]}
BAD_ALGO = ["'Astar'", "'dijkstra'", "DIJKSTRA", "''", "{ Explorator: { algo: 'Astar' } }", "{ Explorator: {} }", "Explorator", "{ Explorator: { algo: 'Dijkstra', k: 1 } }", "1", "['Dijkstra']", "{ Dijkstra: { algo: 'Dijkstra' } }"]
DEBUG = {"Dijkstra": "Dijkstra", "CHDijkstra": "CHDijkstra", "Explorator { algo: Dijkstra }": "Explorator(Dijkstra)", "Explorator { algo: CHDijkstra }": "Explorator(CHDijkstra)"}


def section(rng, entries, algo="Dijkstra"):
    return {"readable": True, "sect": True, "listed": True, "extra": False, "entries": entries, "algo": algo, "algo_text": rng.choice(ALGO[algo])}


class RCase:
    def __init__(self, id, rng, names=None, gen=False):
        self.id, self.rng = id, rng
        dim = len(names) if names else rng.choice([1, 2, 2, 3] + [4, 5] * (not gen))
        names = names or rng.sample(["m0", "m1", "m2", "m3", "dist", "a b", "x-y", "M0", "m00"], dim)
        n = rng.choice([2, 3, 4, 5])
        E = random_graph(rng, n, rng.randint(n, 3 * n), dim, rng.choice([3, 30])) or [(1, 2, [1] * dim)]
        ids = [5 * i + 1 for i in range(1, n + 1)]
        nodes = [(ids[i], *coords(i)) for i in range(n)]
        edges = [(ids[u - 1], ids[v - 1], w) for u, v, w in E]
        y = parsing_cfg(dim)
        for k in reversed(range(dim)):
            y = y.replace(f"id: 'm{k}' }}", f"id: '@{k}' }}")
        for k in range(dim):
            y = y.replace(f"id: '@{k}' }}", f"id: '{names[k]}' }}")
        full = list(names)
        fe = edges
        if gen:
            y += "  generating:\n    nodes: []\n    edges:\n"
            fe = []
            fx = rng.randint(1, 9)
            src = rng.randrange(dim)
            y += f"    - custom: {{ unit: 'F64', id: 'gen', default: {fx} }}\n"
            y += f"    - copy:\n        from: {{ unit: 'F64', id: '{names[src]}' }}\n        to: {{ unit: 'F64', id: 'cop' }}\n"
            full += ["gen", "cop"]
            fe = [(s, d, w + [fx, w[src]]) for s, d, w in edges]
        self.names = full
        self.gin, _ = input_graph(nodes, fe)
        self.n = self.gin["n"]
        self.ops = [{"op": "file", "path": "g.yaml", "text": y}, {"op": "file", "path": "g.fmi", "text": fmi(nodes, edges)},
                    {"op": "parse", "g": "g", "cfg": "g.yaml"}]
        self.plan = [None, None, ("graph",)]
        self.k = 0

    def load(self, c, text=None, route=False, name=None, **kw):
        self.k += 1
        fn = name or f"r{self.k}.yaml"
        if c["readable"] or text is not None:
            self.ops.append({"op": "file", "path": fn, "text": section_yaml(self.rng, c, **kw) if text is None else text})
            self.plan.append(None)
        self.ops.append({"op": "routecfg", "g": "g", "cfg": fn})
        ab = {k: c[k] for k in ("readable", "sect", "listed", "extra", "entries", "algo")}
        self.plan.append(("load", ab))
        if route and not c["algo"].startswith("Explorator"):
            q = all_pairs(self.n)
            if len(q) > 9:
                q = self.rng.sample(q, 9)
            self.ops.append({"op": "route_by_cfg", "g": "g", "cfg": fn, "queries": q})
            self.plan.append(("route", q))

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        ev = []
        for pl, o in zip(self.plan, obs):
            fl = failed(o)
            if fl:
                ev.append({"op": "broken", "what": fl})
                break
            if pl is None:
                continue
            if pl[0] == "graph":
                if "err" in o:
                    ev.append({"op": "broken", "what": "map_rejected"})
                    break
                ev.append({"op": "graph", "ids": self.names, "g": abs_graph(o["graph"]), "gin": self.gin})
            elif pl[0] == "load":
                ok = "ok" in o
                ev.append({"op": "load", "c": pl[1], "ok": ok, "alphas": [num(x, 1000) for x in o["alphas"]] if ok else [],
                           "scales": [num(x, 1000) for x in o["scales"]] if ok else [], "algo": DEBUG.get(o["algo"], "?" + o["algo"]) if ok else ""})
            else:
                ok = "paths" in o
                ev.append({"op": "route", "ok": ok, "q": [{"s": s + 1, "d": d + 1, "ans": plain(answer(a, s, d))} for (s, d), a in zip(pl[1], o["paths"])] if ok else []})
        return {"id": self.id, "ev": ev}


def plain(a):
    return {k: a[k] for k in ("found", "p", "c")}


def random_section(rng, names):
    ids = rng.sample(names, rng.randint(0, len(names)))
    es = [entry(i, rng.choice([None, None, 0, 1000, 500, 2000, rng.randint(0, 9999), 169000]),
                rng.choice([None, None, "inf", 1000, 1300, 1001, 2500, rng.randint(1000, 9999)])) for i in ids]
    return section(rng, es, rng.choice(["Dijkstra"] * 4 + list(ALGO)))


def spoil(rng, c, names):
    """makes a valid section invalid; returns arguments for writing it"""
    kw = {}
    w = rng.choice(["id", "id", "algo", "noalgo", "unlisted", "sect", "extra", "entry_extra", "alpha", "scale", "noid", "file", "ext", "meta", "case"])
    if w in ("id", "meta", "case", "alpha", "scale", "noid", "entry_extra") and not c["entries"]:
        c["entries"].append(entry(rng.choice(names)))
    es = c["entries"]
    e = rng.choice(es) if es else None
    if w == "id":
        e["id"] = rng.choice(["unknown", "m", "m10", names[0] + "x", "gen2"])
    elif w == "meta":
        e["id"] = rng.choice(["src-id", "dst-id", "node-id", "lat"])
    elif w == "case":
        e["id"] = e["id"].swapcase() if e["id"].swapcase() not in names else "nope"
    elif w == "noid":
        e["id"] = ""
    elif w == "alpha":
        e.update(a="bad", alpha=0)
    elif w == "scale":
        e.update(s="bad", scale=0)
    elif w == "algo":
        c["algo"], c["algo_text"] = "?", rng.choice(BAD_ALGO)
    elif w == "noalgo":
        c["algo"], c["algo_text"] = "", None
    elif w == "unlisted":
        c["listed"], c["entries"] = False, []
    elif w == "sect":
        c["sect"] = False
    elif w == "extra":
        c["extra"] = True
        kw["extra_at"] = rng.choice(["metric", "is-ch-dijkstra", "alphas", "seed", "algo"])
    elif w == "entry_extra":
        c["extra"] = True
        kw["entries_extra"] = rng.choice(["weight", "tolerance", "tolerated_scale", "unit"])
    elif w == "file":
        c["readable"] = False
    elif w == "ext":
        c["readable"] = False
        kw["name"] = rng.choice(["r.yml", "r.txt", "r", "r.json"])
        kw["text"] = section_yaml(rng, dict(c, readable=True))
    return kw
