"""Cases for C12: histories of exports and reads over few file names."""
import random
from vlib import *
from maps import *

YAML_NAMES = ["c.yaml", "c.YAML", "c.Yaml", "c.yml", "c.txt", "c"]
EXT = {"map": "fmi", "table": "csv", "routes": "route-pairs", "vehicles": "xml", "workloads": "csv"}
KINDS = list(EXT)
# file names shared by all exporters
NAMES = ["a.fmi", "a.csv", "a.route-pairs", "a.FMI", "a.Csv", "a.Route-Pairs", "a.txt", "a", "a.fmi.bak", "d.fmi",
         "sub/a.fmi", "sub/a.csv", "sub/a.route-pairs", "no/a.fmi", "no/a.csv", "no/a.route-pairs", "a.fmi.csv", ".fmi", "a.pbf", "a.xml", "d.csv", "d.route-pairs"]


def ext(name):
    base = name.rsplit("/", 1)[-1]
    stem, dot, e = base.rpartition(".")
    return e.lower() if dot and stem else ""


class FsCase:
    def __init__(self, cid, rng):
        self.id, self.rng = cid, rng
        self.ops, self.plan = [], []
        n = rng.randint(2, 5)
        self.dim = rng.choice([1, 2])
        nodes = [(10 * i + 1, round(.1 * i, 2), round(.2 * i, 2)) for i in range(n)]
        E = [(nodes[i][0], nodes[(i + 1) % n][0], [rng.randint(1, 9) for _ in range(self.dim)], None, 100 + 7 * i) for i in range(n)]
        for k in range(rng.randint(0, 4)):
            E.append((rng.choice(nodes)[0], rng.choice(nodes)[0], [rng.randint(1, 9) for _ in range(self.dim)], None, 500 + k))
        self.text = fmi(nodes, E, edge_id=True)
        self.cfg = parsing_cfg(self.dim, edge_id=True, map_file="in/g.fmi")
        self.put("in/g.yaml", self.cfg)
        self.put("in/g.fmi", self.text)
        self.op({"op": "parse", "g": "g", "cfg": "in/g.yaml", "dump": False})
        self.op({"op": "mkdir", "path": "ref"})
        self.op({"op": "mkdir", "path": "sub"})
        self.vals = [rng.randrange(50) for _ in range(5)]
        self.walks = [[rng.randrange(9)] + [rng.randrange(5) for _ in range(3)] for _ in range(rng.randint(0, 4))]
        self.max = rng.choice([1, 3, 1000])
        self.k = 0
        # reference content of each kind
        self.refs = {}
        for kind in KINDS:
            self.refs[kind] = self.export_ops(kind, f"ref/{kind}.{EXT[kind]}")
        self.mark("set", None)

    # ---- ops
    def op(self, o):
        self.ops.append(o)

    def put(self, path, text):
        self.op({"op": "file", "path": path, "text": text})

    def yaml(self, kind, target):
        ids = ["edge-id", "src-id", "dst-id"] + [f"m{i}" for i in range(self.dim)]
        edges = "".join(f"      - id: '{i}'\n" for i in ids)
        if kind == "map":
            return (f"writing:\n  graph:\n    map-file: '{target}'\n    nodes:\n    - id: 'node-id'\n    - id: 'lat'\n    - id: 'lon'\n"
                    f"    edges:\n      ids:\n{edges}")
        if kind == "table":
            return f"writing:\n  edges-info:\n    file: '{target}'\n    ids:\n" + edges.replace("      -", "    -")
        if kind == "routes":
            return (f"routing:\n  algorithm: Dijkstra\n  metrics:\n  - id: 'm0'\n"
                    f"writing:\n  route-pairs:\n    file: '{target}'\n    random_or_all:\n      max_count: {self.max}\n")
        if kind == "workloads":
            d, f = target.rsplit("/", 1) if "/" in target else (".", target)
            return f"evaluating_balance:\n  results-dir: '{d}'\n  monitoring:\n    edges-info:\n      file: '{f}'\n      ids:\n{edges}"
        return ""

    def export_ops(self, kind, target, limit=None):
        """the last op is the export; returns the written paths"""
        cfg = f"in/e{self.k}.yaml"
        self.k += 1
        self.put(cfg, self.yaml(kind, target) or "x")
        o = {"map": {"op": "wgraph"}, "table": {"op": "wedges"}, "routes": {"op": "wroutes"},
             "vehicles": {"op": "wsmarts", "walks": self.walks, "file": target}, "workloads": {"op": "weval", "values": self.vals}}[kind]
        o = {**o, "g": "g", "cfg": cfg}
        if limit is not None:
            o["limit"] = limit
        self.op(o)
        out = [target]
        if kind == "workloads":
            out.append((target.rsplit("/", 1)[0] + "/" if "/" in target else "") + "abs_workloads.csv")
        return out

    def mark(self, what, info):
        """remembers that the state after the last op has to be looked at"""
        at = len(self.ops) - 1
        self.op({"op": "snap"})
        self.plan.append((what, at, len(self.ops) - 1, info))

    def user(self):
        """the user puts a file, a directory, or removes one"""
        rng = self.rng
        name = rng.choice(NAMES)
        if name.startswith("no/"):
            return
        x = rng.random()
        if name.startswith("d."):
            self.op({"op": "mkdir", "path": name})
        elif x < .7:
            self.put(name, rng.choice(["", "mine\n", "1\n2\n"]))
        else:
            self.op({"op": "rm", "path": name})
        self.mark("set", None)

    def export(self, kind, name, limit=None):
        lim = None
        if limit is not None:
            lim = [self.refs[kind][-1 if kind != "workloads" else 0], limit]
        # configs are put before, hence looked at separately
        cfg_at = len(self.ops)
        targets = self.export_ops(kind, name, lim)
        exp = self.ops.pop()
        self.mark("set", None)
        self.op(exp)
        self.mark("export", {"kind": kind, "name": name, "targets": targets, "limit": lim})

    def read(self, kind):
        rng = self.rng
        if kind == "config":
            name = rng.choice(YAML_NAMES)
            exists = rng.random() < .9
            path = f"y{self.k}/{name}"
            self.k += 1
            self.op({"op": "mkdir", "path": path.rsplit("/", 1)[0]})
            if exists:
                self.put(path, self.cfg)
            self.mark("set", None)
            self.op({"op": "parse", "g": "x", "cfg": path, "dump": False})
        elif kind == "map":
            name = rng.choice(["m.fmi", "m.FMI", "m.Fmi", "m.txt", "m", "m.fmi.gz", "m.osm", ".fmi", "m.fmi.fmi"])
            exists = rng.random() < .9
            path = f"y{self.k}/{name}"
            self.k += 1
            self.op({"op": "mkdir", "path": path.rsplit("/", 1)[0]})
            self.put(f"in/m{self.k}.yaml", parsing_cfg(self.dim, edge_id=True, map_file=path))
            if exists:
                self.put(path, self.text)
            self.mark("set", None)
            self.op({"op": "parse", "g": "x", "cfg": f"in/m{self.k}.yaml", "dump": False})
        else:
            name = rng.choice(["m.route-pairs", "m.ROUTE-PAIRS", "m.txt", "m", "m.route-pairs.bak", "m.routes", "m.Route-pairs"])
            exists = rng.random() < .9
            path = f"y{self.k}/{name}"
            self.k += 1
            self.op({"op": "mkdir", "path": path.rsplit("/", 1)[0]})
            if exists:
                self.put(path, "1\n1 11 1\n")
            self.put(f"in/m{self.k}.yaml", f"routing:\n  route-pairs-file: '{path}'\n  algorithm: Dijkstra\n  metrics:\n  - id: 'm0'\n")
            self.mark("set", None)
            self.op({"op": "proutes", "g": "g", "cfg": f"in/m{self.k}.yaml"})
        e = ext(name)
        self.mark("read", {"kind": kind, "ext": e, "exists": exists})

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    # ---- projection
    def trace(self, obs):
        contents, paths = {}, {}
        norm = lambda p: p[2:] if p.startswith("./") else p
        cid = lambda x: contents.setdefault(x, len(contents) + 1)
        pid = lambda p: paths.setdefault(norm(p), len(paths) + 1)

        def snap(o):
            return [[pid(p.rstrip("/")), 0 if p.endswith("/") else cid(x)] for p, x in sorted(o["snap"].items())]
        ev = []
        last = {}
        for o in obs[:self.plan[0][1] + 1]:
            if "err" in o or failed(o):
                return {"id": self.id, "ev": [{"op": "broken", "what": "plain_export_failed"}]}
        ref = {}
        for what, at, sn, info in self.plan:
            fl = next((failed(o) for o in obs[:sn + 1] if failed(o)), None)
            if fl or sn >= len(obs):
                ev.append({"op": "broken", "what": fl or "crash"})
                break
            s = obs[sn]["snap"]
            after = snap(obs[sn])
            if not ref:
                for k in KINDS:
                    if any(p not in s for p in self.refs[k]):
                        return {"id": self.id, "ev": [{"op": "broken", "what": "plain_export_wrote_nothing"}]}
                    ref[k] = [s[p] for p in self.refs[k]]
                # target-names of the reference exports don't matter
            if what == "set":
                ev.append({"op": "set", "after": after})
            elif what == "export":
                room = None
                if info["limit"]:
                    room = max(0, len(s[info["limit"][0]].encode()) + info["limit"][1])
                t = [{"p": pid(p), "want": cid(c), "fits": room is None or len(c.encode()) <= room} for p, c in zip(info["targets"], ref[info["kind"]])]
                ev.append({"op": "export", "kind": info["kind"], "ext": ext(info["name"]), "targets": t, "ok": "err" not in obs[at],
                           "parent": not info["name"].startswith("no/"), "after": after})
            else:
                ok = "err" not in obs[at]
                ev.append({"op": "read", "kind": info["kind"], "ext": info["ext"], "ok": ok, "exists": info["exists"],
                           "sane": info["exists"] and info["ext"] != "pbf", "after": after})
        return {"id": self.id, "ev": ev}


def fs_case(cid, rng, length):
    c = FsCase(cid, rng)
    for _ in range(length):
        x = rng.random()
        if x < .2:
            c.user()
        elif x < .35:
            c.read(rng.choice(["map", "routes", "config"]))
        else:
            kind = rng.choice(KINDS)
            name = rng.choice(NAMES) if rng.random() < .5 else rng.choice([n for n in NAMES if kind == "vehicles" or ext(n) == EXT[kind]])
            limit = rng.choice([None, None, None, 0, -1, -2, -10, -10 ** 6, 5])
            c.export(kind, name, limit)
    return c


def listed_case(cid, rng, h):
    c = FsCase(cid, rng)
    for a in h:
        c.export(a["kind"], a["name"])
    return c
