"""Cases for C04, C05, C06: maps, built graphs, lookups."""
import random
from vlib import *
from maps import *
from gen_routing import contract

TINY = -7
POOL = [0, 1, 2, 3, 7, 10, 11, 99, 100, 1000, 65536, 2147483647, 2147483648, 4294967296, 4294967297, 6000000001, 9007199254740993,
        -1, -2, -50, -4294967297]
EPOOL = [0, 1, 2, 3, 4, 5, 9, 10, 255, 256, 65535, 65536, 4294967295, 4294967296, 4294967300, 9007199254740993]


def some_values(rng, ints):
    """The specification's metrics are small integers; their images in files are increasing floats, most of which
    need all digits of a double, at least 0.001 apart."""
    out, at = {}, 0.0
    for k in sorted(ints):
        if k <= 0:
            out[k] = float(k)
            continue
        at += rng.choice([.001, .0123456789, 1 / 3, 1, 1, 2.5, 1000 / 7, 123456.789]) * rng.uniform(1, 2)
        if rng.random() < .2:
            at = float(int(at) + 1)
        out[k] = at
    return out


class BuildCase:
    """nodes: [(id, lat, lon, lvl)], edges: [(s, d, [m], sc or None, id)] with real ids"""
    def __init__(self, id, nodes, edges, level=False, sc=False, eid=False):
        self.id, self.nodes, self.edges = id, nodes, edges
        self.level, self.sc, self.eid = level, sc, eid
        ids = sorted({n[0] for n in nodes} | {e[0] for e in edges} | {e[1] for e in edges})
        probe = sorted({x for i in ids for x in (i, i + 1, i - 1)} | {123456789})
        probe = [x for x in probe if -2 ** 63 <= x < 2 ** 63]
        self.rank = {x: k + 1 for k, x in enumerate(probe)}
        eids = sorted({e[4] for e in edges}) if eid else []
        eprobe = sorted({x for i in eids for x in (i, i + 1, max(0, i - 1))} | {0, 5, 77})
        self.erank = {x: k + 1 for k, x in enumerate(eprobe)}
        self.probe, self.eprobe = probe[:40], eprobe[:40]
        self.dim = len(edges[0][2])
        self.image({})
        self.crank = {x: k for k, x in enumerate(sorted({float(y) for n in nodes for y in n[1:3]}))}
        self.flat_paths = None
        self.ops = [{"op": "file", "path": "g.yaml", "text": parsing_cfg(self.dim, level=level, sc=sc, edge_id=eid)},
                    {"op": "file", "path": "g.fmi", "text": self.text()},
                    {"op": "parse", "g": "g", "cfg": "g.yaml"},
                    {"op": "between", "g": "g"},
                    {"op": "lookup", "g": "g", "nodes": self.probe, "edges": self.eprobe},
                    {"op": "flatall", "g": "g"}]

    def image(self, values):
        """which floats stand for the metrics (none: the integers themselves)"""
        self.values = values
        self.back = {float(x): k for k, x in values.items()}
        if values:
            self.ops[1]["text"] = self.text()

    def text(self, edges=None):
        v = lambda x: repr(self.values[x]) if x in self.values else str(x)
        es = [(e[0], e[1], [v(x) for x in e[2]], *e[3:]) for e in edges or self.edges]
        return fmi(self.nodes, es, level=self.level, sc=self.sc, edge_id=self.eid)

    def mval(self, x):
        if isinstance(x, float) and 0 < x < 1e-5:
            return TINY
        if not self.values:
            return num(x, 1)
        return BAD if isinstance(x, str) or x is None else self.back.get(x, BAD)

    def cval(self, x):
        return BAD if isinstance(x, str) or x is None else self.crank.get(x, BAD)

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def map(self):
        N = [{"id": self.rank[n[0]], "lat": self.cval(n[1]), "lon": self.cval(n[2]), "lvl": n[3] if self.level else 0} for n in self.nodes]
        E = [{"s": self.rank[e[0]], "d": self.rank[e[1]], "m": [num(x, 1) for x in e[2]],
              "sc": [] if not self.sc or e[3] is None else [e[3][0] + 1, e[3][1] + 1],
              "id": self.erank[e[4]] if self.eid else -1} for e in self.edges]
        return {"N": N, "E": E}

    def graph(self, d):
        N = [{"id": self.rank.get(n["id"], BAD), "lat": self.cval(n["lat"]), "lon": self.cval(n["lon"]), "lvl": n["level"]} for n in d["nodes"]]
        E = [{"s": e["src"] + 1, "d": e["dst"] + 1, "m": [self.mval(x) for x in e["m"]],
              "sc": [] if e["sc"] is None else [e["sc"][0] + 1, e["sc"][1] + 1], "issc": e["is_sc"],
              "id": -1 if e["id"] is None else self.erank.get(e["id"], BAD)} for e in d["edges"]]
        adj = lambda a: [[{"e": x[0] + 1, "d": x[1] + 1, "m": [self.mval(y) for y in x[2]]} for x in l] for l in a]
        return {"n": len(N), "N": N, "E": E, "out": adj(d["out"]), "in": adj(d["in"]),
                "nc": d["node_count"], "fc": d["fwd_count"], "bc": d["bwd_count"]}

    def trace(self, obs):
        ev = []
        for i, o in enumerate(obs):
            fl = failed(o)
            if fl:
                ev.append({"op": "broken", "what": fl})
                break
            if i == 2:
                ok = "err" not in o
                ev.append({"op": "build", "map": self.map(), "ok": ok, "g": self.graph(o["graph"]) if ok else {}})
                if not ok:
                    break
            elif i == 3:
                one = lambda x: 0 if x is None else x + 1
                ev.append({"op": "between", "btw": [{"a": a + 1, "b": b + 1, "f": one(f), "r": one(r)} for a, b, f, r in o["between"]]})
            elif i == 4:
                none = {"id": -1, "lat": 0, "lon": 0, "lvl": 0}
                nd = lambda n: none if n is None else {"id": self.rank.get(n["id"], BAD), "lat": self.cval(n["lat"]), "lon": self.cval(n["lon"]), "lvl": n["level"]}
                one = lambda x: 0 if x is None else x + 1
                ev.append({"op": "lookup",
                           "nodes": [{"id": self.rank[x["id"]], "idx": one(x["idx"]), "node": nd(x["node"])} for x in o["nodes"]],
                           "edges": [{"id": self.erank[x["id"]], "f": one(x["fwd"]), "b": one(x["bwd"])} for x in o["edges"]]})
            elif i == 5:
                ps = []
                for a in o["paths"]:
                    err = "err" in a["flat"]
                    ok = not err and a["flat"]["src"] == a["src"] and a["flat"]["dst"] == a["dst"]
                    ps.append({"p": [e + 1 for e in a["edges"]], "err": err,
                               "fp": [] if err else [e + 1 for e in a["flat"]["edges"]] if ok else [0],
                               "fc": [] if err else [num(x, 1) for x in a["flat"]["costs"]]})
                ev.append({"op": "flat", "dim": self.dim, "paths": ps})
        return {"id": self.id, "ev": ev}


def coord(rng):
    d = rng.choice([7, 7, 7, 1, 15])
    return (round(rng.uniform(-89, 89), d), round(rng.uniform(-179, 179), d))


def random_map(rng, cid, mode):
    """mode: plain | sc | cyclic | ids | bad"""
    n = rng.choice([1, 2, 2, 3, 4, 5, 7])
    pool = rng.sample(POOL, n + 2)
    ids, extra = pool[:n], pool[n:]
    dim = rng.choice([1, 1, 2, 3])
    m = rng.randint(1, 9)
    vals = [1, 2, 3, 4] if mode in ("sc", "cyclic") else rng.choice([[1, 2], [0, 1], [0, 1, 2, 50], [1, 100000]])
    lv = {i: rng.choice([0, 1, 1, 2, 5, 1000, 65535, 65536, 2000000000]) for i in pool}
    level = rng.random() < 0.6
    E = [(rng.randrange(n) + 1, rng.randrange(n) + 1, [rng.choice(vals) for _ in range(dim)]) for _ in range(m)]
    if mode in ("plain", "ids", "bad"):
        edges = [(ids[u - 1], ids[v - 1], w, None) for u, v, w in E]
    else:
        order = list(range(1, n + 1))
        rng.shuffle(order)
        cont, lev = contract(n, E, order, dim, twins=n <= 4 and rng.random() < 0.5)
        cont = cont[:25] if all(e[3] is None or max(e[3]) < 25 for e in cont[:25]) else cont
        lv = {ids[i - 1]: lev[i] for i in order} | {x: 0 for x in extra}
        edges = [(ids[u - 1], ids[v - 1], w, sc) for u, v, w, sc in cont]
    # repeat some edges; repetitions of shortcuts may name repetitions of their parts
    copies = {}
    if rng.random() < 0.7:
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(len(edges))
            copies.setdefault(k, []).append(len(edges))
            edges.append(edges[k])
    if mode in ("sc", "cyclic") and copies:
        edges = [e if e[3] is None else (*e[:3], tuple(rng.choice([x] + copies.get(x, [])) for x in e[3])) for e in edges]
    if mode == "cyclic":
        k = rng.randrange(len(edges))
        e = edges[k]
        form = rng.randrange(4)
        o = rng.randrange(len(edges))
        if form == 0:
            edges[k] = (*e[:3], (k, o))
        elif form == 1:
            edges[k] = (*e[:3], (o, k))
        elif form == 2:
            j = rng.randrange(len(edges))
            edges[k] = (*e[:3], (o, j))
            f = edges[j]
            edges[j] = (*f[:3], (o, k))
        else:
            edges[k] = (*e[:3], (k, k))
    # shuffle lines
    perm = list(range(len(edges)))
    rng.shuffle(perm)
    pos = {p: k for k, p in enumerate(perm)}
    edges = [(*edges[p][:3], None if edges[p][3] is None else (pos[edges[p][3][0]], pos[edges[p][3][1]])) for p in perm]
    eid = mode == "ids" or rng.random() < 0.3
    if eid:
        # equal edges may carry the same id
        keyid, free = {}, EPOOL[:] + list(range(20, 80))
        rng.shuffle(free)
        out = []
        for e in edges:
            key = (e[0], e[1], tuple(e[2]), e[3] is not None)
            if key in keyid and rng.random() < 0.5:
                i = keyid[key]
            else:
                i = free.pop()
                keyid[key] = i
            out.append((*e, i))
        edges = out
    else:
        edges = [(*e, None) for e in edges]
    nodes = [(i, *coord(rng), lv[i]) for i in pool]
    if mode == "bad":
        k = rng.randrange(len(edges))
        e = edges[k]
        form = rng.choice(["missing", "neg", "dup"])
        if form == "missing":
            gone = rng.choice([e[0], e[1]])
            nodes = [x for x in nodes if x[0] != gone]
        elif form == "neg":
            w = list(e[2])
            w[rng.randrange(len(w))] = -rng.choice([1, 2, 1000])
            edges[k] = (e[0], e[1], w, e[3], e[4])
        else:
            eid = True
            edges = [(*x[:4], j + 10) for j, x in enumerate(edges)]
            a, b = rng.randrange(len(edges)), rng.randrange(len(edges))
            edges[a] = (*edges[a][:4], edges[b][4])
    rng.shuffle(nodes)
    case = BuildCase(cid, nodes, edges, level=level or mode in ("sc", "cyclic"), sc=mode in ("sc", "cyclic"), eid=eid)
    # costs of shortcuts are sums, so images of these stay integers
    if mode in ("plain", "ids", "bad") and rng.random() < .5:
        case.image(some_values(rng, {x for e in edges for x in e[2]} | {9}))
    return case


def hub_map(rng, cid, shortcuts):
    """a node with many edges, many of them parallel or repeated; with shortcuts, the hub has been contracted first"""
    n = rng.randint(6, 9) if shortcuts else rng.choice([3, 20, 45])
    ids = rng.sample(range(-10 ** 6, 10 ** 9), n)
    dim = rng.choice([1, 2])
    lv = {i: rng.choice([0, 0, 1, 3, 70000]) for i in ids}
    spokes = [k for k in range(2, n + 1) for _ in range(1 if shortcuts else 60 // n)]
    E = [(1, k, [rng.randint(1, 9) for _ in range(dim)]) for k in spokes] + [(k, 1, [rng.randint(1, 9) for _ in range(dim)]) for k in spokes]
    edges = [(ids[u - 1], ids[v - 1], w, None) for u, v, w in E]
    if shortcuts:
        lv = {i: 1 + k for k, i in enumerate(ids)}
        lv[ids[0]] = 0
        into = [k for k, e in enumerate(E) if e[1] == 1]
        outof = [k for k, e in enumerate(E) if e[0] == 1]
        edges += [(ids[E[i][0] - 1], ids[E[o][1] - 1], [x + y for x, y in zip(E[i][2], E[o][2])], (i, o)) for i in into for o in outof if E[i][0] != E[o][1]]
    plain = [k for k, e in enumerate(edges) if e[3] is None]
    copies = {}
    for _ in range(rng.randint(5, 30)):
        k = rng.choice(plain)
        copies.setdefault(k, []).append(len(edges))
        edges.append(edges[k])
    edges = [e if e[3] is None else (*e[:3], tuple(rng.choice([x] + copies.get(x, [])) for x in e[3])) for e in edges]
    perm = list(range(len(edges)))
    rng.shuffle(perm)
    pos = {p: k for k, p in enumerate(perm)}
    edges = [(*edges[p][:3], None if edges[p][3] is None else tuple(pos[x] for x in edges[p][3]), None) for p in perm]
    nodes = [(i, *coord(rng), lv[i]) for i in ids]
    rng.shuffle(nodes)
    return BuildCase(cid, nodes, edges, level=shortcuts or rng.random() < .7, sc=shortcuts)


def enumerated(cid, rng, lst, n):
    ids = [5, 3] if cid % 2 else [3, 5]
    ids += [4]
    edges = [(ids[u - 1], ids[v - 1], [w], None, None) for u, v, w in lst]
    nodes = [(i, *coord(rng), (i * 7) % 3) for i in ids[:n]]
    return BuildCase(cid, nodes, edges, level=cid % 3 == 0)


DIM = 1024    # with room for that many metrics, a chunk of the builder holds about 24270 edges


class LargeCase(BuildCase):
    """A map that is built in several chunks. Only some nodes' lists, some shortcuts and some lookups are judged,
    but all nodes and edges."""
    def __init__(self, cid, rng, n, m):
        ids = [i * 7 - 2 * n for i in rng.sample(range(n * 3), n)]
        pairs = [(ids[i], ids[rng.randrange(n)] if rng.random() < .3 else ids[min(n - 1, max(0, i + rng.choice([-2, -1, 1, 1, 2])))])
                 for i in (rng.randrange(n) for _ in range(m))]
        edges = [(s, d, [rng.randint(1, 10 ** 6)], None) for s, d in pairs]
        out = {}
        for k, e in enumerate(edges):
            out.setdefault(e[0], []).append(k)
        for k in rng.sample(range(m), m // 8):
            e = edges[k]
            nxt = out.get(e[1], [])
            if nxt:
                o = rng.choice(nxt)
                edges.append((e[0], edges[o][1], [e[2][0] + edges[o][2][0]], (k, o)))
        edges += [edges[rng.randrange(m)] for _ in range(m // 40)]
        perm = list(range(len(edges)))
        rng.shuffle(perm)
        pos = {p: k for k, p in enumerate(perm)}
        edges = [(*edges[p][:3], None if edges[p][3] is None else tuple(pos[x] for x in edges[p][3])) for p in perm]
        keys, free = {}, rng.sample(range(10 ** 9), len(edges))
        edges = [(*e, keys.setdefault((e[0], e[1], e[2][0], e[3]), free[k])) for k, e in enumerate(edges)]
        nodes = [(i, *coord(rng), rng.randrange(9)) for i in ids]
        super().__init__(cid, nodes, edges, level=True, sc=True, eid=True)
        self.probe, self.eprobe = rng.sample(self.probe, 20), rng.sample(sorted(self.erank), 20)
        self.ops = self.ops[:3] + [{"op": "lookup", "g": "g", "nodes": self.probe, "edges": self.eprobe}]
        self.rng = random.Random(rng.random())

    def trace(self, obs):
        ev = super().trace(obs[:3] + [{"between": []}] + obs[3:])["ev"]
        ev = [e for e in ev if e["op"] != "between"]
        if ev and ev[0]["op"] == "build":
            b, g = ev[0], ev[0]["g"]
            b["op"], b["some"], b["pairs"] = "large", [], []
            if b["ok"]:
                vs = self.rng.sample(range(g["n"]), min(40, g["n"]))
                b["some"] = [{"v": v + 1, "out": g["out"][v], "in": g["in"][v]} for v in vs]
                line = {e["id"]: j for j, e in enumerate(b["map"]["E"]) if e["sc"]}
                scs = [i for i, e in enumerate(g["E"]) if e["id"] in line]
                b["pairs"] = [{"i": i + 1, "j": line[g["E"][i]["id"]] + 1} for i in self.rng.sample(scs, min(2000, len(scs)))]
                del g["out"], g["in"]
        return {"id": self.id, "ev": ev}
