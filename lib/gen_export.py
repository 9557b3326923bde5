"""Cases for C09, C10, C11, C19: exports of graphs and reading them back."""
import random, re
import xml.etree.ElementTree as ET
from vlib import *
from gen_build import *

IGN = -5
# names of metrics, some of which look like others
NAMES = [["m", "m1", "m10"], ["lane", "lane-count", "lanes"], ["b", "B", "a"], ["dst-id-2", "lat-2", "_m"], ["length", "x-length", "length-x"]]
META_E = ["SrcId", "DstId", "SrcIdx", "DstIdx", "SrcLat", "SrcLon", "DstLat", "DstLon"]


def functional(text):
    return [l for l in text.splitlines() if l.strip() and not l.lstrip().startswith("#")]


class ExportCase:
    def __init__(self, cid, rng, mode, b=None):
        """b: a map of its own, known with all columns"""
        self.id, self.rng = cid, rng
        full = b is not None
        while b is None:
            b = random_map(rng, cid, mode)
            if all(e[3] is not None for e in b.edges):
                b = None
        if not full and not b.values and rng.random() < .5:
            b.image(some_values(rng, {x for e in b.edges for x in e[2]} | {9}))
        self.b = b
        self.plan = []          # (first op, projection)
        self.ops = []
        names = {}
        # columns of nodes: name -> what
        self.ncols = {"node-id": "NodeId", "lat": "Latitude", "lon": "Longitude"}
        if b.level:
            self.ncols["ch-level"] = "CHLevel"
        self.ecols = {"src-id": ("SrcId", 0), "dst-id": ("DstId", 0)}
        self.mn = (["m0", "m1", "m2"] if full else rng.choice([["m0", "m1", "m2"]] * 2 + NAMES))[:b.dim]
        for k in range(b.dim):
            self.ecols[self.mn[k]] = ("metric", k + 1)
        gen_n, gen_e = [], []
        if full or rng.random() < 0.6:
            gen_n.append(("NodeIdx", "node-idx"))
            self.ncols["node-idx"] = "NodeIdx"
        for w in ("SrcIdx", "DstIdx", "SrcLat", "SrcLon", "DstLat", "DstLon"):
            if full or rng.random() < 0.6:
                gen_e.append((w, "x-" + w))
                self.ecols["x-" + w] = (w, 0)
        self.eid = b.eid
        if b.eid:
            self.ecols["edge-id"] = ("EdgeId", 0)
        elif full or rng.random() < 0.6:
            gen_e.append(("EdgeId", "edge-id"))
            self.ecols["edge-id"] = ("EdgeId", 0)
            self.eid = True
            b.erank = {i: i + 1 for i in range(300)}
        if b.sc:
            self.ecols["sc0"] = ("ShortcutIdx0", 0)
            self.ecols["sc1"] = ("ShortcutIdx1", 0)
        rng.shuffle(gen_e)
        self.gen = (gen_n, gen_e)
        self.cfg = self.config("g.fmi")
        self.ops = [{"op": "file", "path": "g.yaml", "text": self.cfg},
                    {"op": "file", "path": "g.fmi", "text": b.text()}]
        self.add([{"op": "parse", "g": "g", "cfg": "g.yaml"}], self.p_load)

    def config(self, mapfile, extra=()):
        b = self.b
        y = parsing_cfg(b.dim, level=b.level, sc=b.sc, edge_id=b.eid, map_file=mapfile)
        y = re.sub(r"id: 'm(\d)' }", lambda m: f"id: '{self.mn[int(m[1])]}' }}", y)
        gen_n, gen_e = self.gen
        if gen_n or gen_e or extra:
            y += "  generating:\n    nodes:" + ("" if gen_n else " []") + "\n"
            for w, i in gen_n:
                y += f"    - meta: {{ info: '{w}', id: '{i}' }}\n"
            y += "    edges:" + ("" if gen_e or extra else " []") + "\n"
            for w, i in gen_e:
                y += f"    - meta: {{ info: '{w}', id: '{i}' }}\n"
            y += "".join(l + "\n" for l in extra)
        return y

    def add(self, ops, f):
        self.plan.append((len(self.ops), len(ops), f))
        self.ops += ops

    def file(self, path, text):
        self.ops.append({"op": "file", "path": path, "text": text})

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        ev = []
        for at, n, f in self.plan:
            part = obs[at:at + n]
            fl = next((failed(o) for o in obs[:at + n] if failed(o)), None)
            if fl or len(part) < n:
                ev.append({"op": "broken", "what": fl or "crash"})
                break
            e = f(part)
            if e is None:
                break
            ev += e
            if e[-1]["op"] == "broken":
                break
        return {"id": self.id, "ev": ev}

    # ---------------- load
    def p_load(self, o):
        if "err" in o[0]:
            return [{"op": "broken", "what": "map_refused"}]
        return [{"op": "load", "g": self.b.graph(o[0]["graph"])}]

    # ---------------- cells
    def cell(self, w, s):
        if w == "ignored":
            return IGN if s == "_" else BAD
        try:
            if w in ("NodeId", "SrcId", "DstId"):
                return self.b.rank.get(int(s), BAD)
            if w == "EdgeId":
                return self.b.erank.get(int(s), BAD)
            if w in ("Latitude", "Longitude", "SrcLat", "SrcLon", "DstLat", "DstLon"):
                return self.b.cval(float(s))
            if w == "metric":
                return self.b.mval(float(s))
            return int(s)
        except ValueError:
            return BAD

    def row(self, ws, line):
        cells = line.split(" ")
        if len(cells) != len(ws):
            return [BAD] * (len(cells) + 1)
        return [self.cell(w, s) for w, s in zip(ws, cells)]

    def ids_yaml(self, names, ind):
        return "".join(f"{ind}- ignored\n" if n is None else f"{ind}- id: '{n}'\n" for n in names)

    def pick(self, cols, must=(), unknown=0.0):
        rng = self.rng
        names = list(must)
        rest = [c for c in cols if c not in must]
        rng.shuffle(rest)
        names += rest[:rng.randint(0, len(rest))]
        rng.shuffle(names)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            names.insert(rng.randint(0, len(names)), None)
        if not must and names and rng.random() < 0.2:
            names.append(rng.choice([x for x in names]))   # a column twice
        if rng.random() < unknown:
            names.insert(rng.randint(0, len(names)), rng.choice(["nope", "Lat", "m9", "src-idx ", "node_id", "metric"]))
        return names or [next(iter(cols))]

    def bools(self, y, key, val, ind):
        # the default may be left out
        return f"{ind}{key}: {'true' if val else 'false'}\n" if val or self.rng.random() < 0.5 else ""

    # ---------------- maps
    def export_map(self, j):
        rng, b = self.rng, self.b
        sc = rng.random() < 0.5
        idx = "node-idx" in self.ncols and "x-SrcIdx" in self.ecols and "x-DstIdx" in self.ecols and rng.random() < 0.5
        again = rng.random() < 0.7
        mets = [k for k in range(b.dim) if rng.random() < 0.8] or [0]
        if again:
            nm = ["node-idx" if idx else "node-id", "lat", "lon"]
            em = ["x-SrcIdx", "x-DstIdx"] if idx else ["src-id", "dst-id"]
            em += [self.mn[k] for k in mets]
            refs = "sc0" in self.ecols and (rng.random() < 0.8)
            em += ["sc0", "sc1"] if refs else []
            nn, ee = self.pick(self.ncols, nm), self.pick(self.ecols, em)
        else:
            nn, ee = self.pick(self.ncols, unknown=0.15), self.pick(self.ecols, unknown=0.15)
        out = f"o{j}.fmi"
        nw, ew = self.map_as(j, nn, ee, sc)
        if not again:
            return
        self.reread(j, out, nw, ew, sc, idx, refs)

    def map_as(self, j, nn, ee, sc):
        """asks for a map with these columns"""
        rng = self.rng
        out = f"o{j}.fmi"
        y = f"writing:\n  graph:\n    map-file: '{out}'\n    nodes:\n" + self.ids_yaml(nn, "    ") + "    edges:\n"
        y += self.bools(y, "will_denormalize_metrics_by_mean", rng.random() < 0.3, "      ") + self.bools(y, "with_shortcuts", sc, "      ")
        y += "      ids:\n" + self.ids_yaml(ee, "      ")
        self.file(f"w{j}.yaml", y)
        nw = ["ignored" if n is None else self.ncols.get(n, "unknown") for n in nn]
        ew = [("ignored", 0) if n is None else self.ecols.get(n, ("unknown", 0)) for n in ee]

        def project(o):
            ok = "err" not in o[0]
            ls = functional(o[1].get("text", ""))
            try:
                counts = [int(x) for x in ls[:3]]
            except ValueError:
                counts = []
            n = counts[1] if len(counts) == 3 else 0
            known = "unknown" not in nw and "unknown" not in [w for w, _ in ew]
            good = ok and known
            return [{"op": "map", "ncols": [{"w": w, "k": 0} for w in nw], "ecols": [{"w": w, "k": k} for w, k in ew], "sc": sc, "ok": ok,
                     "counts": counts if good else [], "nrows": [self.row(nw, l) for l in ls[3:3 + n]] if good else [],
                     "erows": [self.row([w for w, _ in ew], l) for l in ls[3 + n:]] if good else []}]
        self.add([{"op": "wgraph", "g": "g", "cfg": f"w{j}.yaml"}, {"op": "read", "path": out}], project)
        return nw, ew

    def reread(self, j, out, nw, ew, sc, idx, refs):
        """parses the exported file with a matching config"""
        meta = {"NodeId": "NodeId", "NodeIdx": "NodeId", "CHLevel": "CHLevel"}
        cols, used_id, used_l = [], False, False
        want_id = "NodeIdx" if idx else "NodeId"
        seen = set()
        for w in nw:
            if w == want_id and w not in seen:
                cols.append("  - meta: { info: 'NodeId', id: 'node-id' }")
            elif w == "CHLevel" and w not in seen:
                cols.append("  - meta: { info: 'CHLevel', id: 'ch-level' }")
            elif w == "Latitude" and w not in seen:
                cols.append("  - metric: { unit: 'Latitude', id: 'lat' }")
            elif w == "Longitude" and w not in seen:
                cols.append("  - metric: { unit: 'Longitude', id: 'lon' }")
            else:
                cols.append("  - ignored")
            seen.add(w)
        lvl = "CHLevel" in nw
        ecs, order, seen = [], [], set()
        eid = "EdgeId" in [w for w, _ in ew]
        for w, k in ew:
            if (w, k) in seen:
                ecs.append("    - ignored")
            elif w == ("SrcIdx" if idx else "SrcId"):
                ecs.append("    - meta: { info: 'SrcId', id: 'src-id' }")
            elif w == ("DstIdx" if idx else "DstId"):
                ecs.append("    - meta: { info: 'DstId', id: 'dst-id' }")
            elif w == "EdgeId":
                ecs.append("    - meta: { info: 'EdgeId', id: 'edge-id' }")
            elif w == "metric":
                ecs.append(f"    - metric: {{ unit: 'F64', id: '{self.mn[k - 1]}' }}")
                order.append(k)
            elif w in ("ShortcutIdx0", "ShortcutIdx1") and refs:
                ecs.append(f"    - meta: {{ info: '{w}', id: 'sc{w[-1]}' }}")
            else:
                ecs.append("    - ignored")
            seen.add((w, k))
        if refs and not {"ShortcutIdx0", "ShortcutIdx1"} <= {w for w, _ in ew}:
            raise ToolError("columns of the reread map")
        self.file(f"r{j}.yaml", "\n".join(["parsing:", f"  map-file: '{out}'", "  nodes:"] + cols + ["  edges:", "    data:"] + ecs) + "\n")

        def project2(o):
            ok = "err" not in o[0]
            g = {}
            if ok:
                keep = self.b.rank
                if idx:
                    self.b.rank = {i: i + 1 for i in range(300)}
                ke = self.b.erank
                try:
                    g = self.b.graph(o[0]["graph"])
                finally:
                    self.b.rank = keep
            return [{"op": "reread", "ok": ok, "g": g, "sc": sc, "idx": idx, "lvl": lvl, "mets": order, "refs": refs, "eid": eid}]
        self.add([{"op": "parse", "g": f"h{j}", "cfg": f"r{j}.yaml"}], project2)

    # ---------------- tables
    def export_table(self, j):
        rng, b = self.rng, self.b
        sc = rng.random() < 0.5
        mets = [k for k in range(b.dim) if rng.random() < 0.8] or [0]
        pairs = [(e[0], e[1]) for e in b.edges]
        single = len({(e[0], e[1], tuple(e[2]), e[3] is None) for e in b.edges}) == len(set(pairs))
        merge = self.eid and (b.eid or single) and rng.random() < 0.7
        if merge:
            names = self.pick(self.ecols, ["edge-id"] + [self.mn[k] for k in mets])
        else:
            names = self.pick(self.ecols, unknown=0.15)
        ew = self.table_as(j, names, sc)
        if merge:
            self.merge_back(j, f"t{j}.csv", names, ew, sc)

    def table_as(self, j, names, sc):
        """asks for a table with these columns"""
        rng = self.rng
        out = f"t{j}.csv"
        y = f"writing:\n  edges-info:\n    file: '{out}'\n" + self.bools("", "with_shortcuts", sc, "    ")
        y += self.bools("", "will_denormalize_metrics_by_mean", rng.random() < 0.3, "    ") + "    ids:\n" + self.ids_yaml(names, "    ")
        self.file(f"v{j}.yaml", y)
        ew = [("ignored", 0) if n is None else self.ecols.get(n, ("unknown", 0)) for n in names]
        known = "unknown" not in [w for w, _ in ew]

        def project(o):
            ok = "err" not in o[0]
            ls = functional(o[1].get("text", ""))
            good = ok and known
            return [{"op": "table", "names": ["_" if n is None else n for n in names], "cols": [{"w": w, "k": k} for w, k in ew], "sc": sc, "ok": ok,
                     "header": ls[0].split(" ") if good and ls else [], "rows": [self.row([w for w, _ in ew], l) for l in ls[1:]] if good else []}]
        self.add([{"op": "wedges", "g": "g", "cfg": f"v{j}.yaml"}, {"op": "read", "path": out}], project)
        return ew

    def merge_back(self, j, out, names, ew, sc):
        b = self.b
        other = 9
        seen, info, used = set(), [], []
        for n, (w, k) in zip(names, ew):
            if n == "edge-id" and n not in seen:
                info.append("        - id: 'edge-id'")
            elif w == "metric" and n not in seen:
                info.append(f"        - id: '{n}'")
                used.append(k)
            else:
                info.append("        - ignored")
            seen.add(n)
        extra = ["    - merge:", f"        from: '{out}'", "        edge-id: 'edge-id'", "        edges-info:"] + info
        self.file(f"x{j}.yaml", self.config(f"x{j}.fmi", extra))
        self.file(f"x{j}.fmi", b.text([(e[0], e[1], [other] * b.dim, e[3], e[4]) for e in b.edges]))

        def project2(o):
            ok = "err" not in o[0]
            E = [{"id": e["id"], "m": e["m"]} for e in self.b.graph(o[0]["graph"])["E"]] if ok else []
            return [{"op": "merged", "ok": ok, "E": E, "sc": sc, "mets": used, "other": other}]
        self.add([{"op": "parse", "g": f"x{j}", "cfg": f"x{j}.yaml"}], project2)

    # ---------------- route-pairs
    def routes_yaml(self, file, read, seed, mx):
        algo = "'Dijkstra'" if self.rng.random() < .7 else "{ Explorator: { algo: 'Dijkstra' } }"
        y = f"routing:\n  route-pairs-file: '{read}'\n  algorithm: {algo}\n  metrics:\n  - id: '{self.mn[0]}'\n"
        y += f"writing:\n  route-pairs:\n    file: '{file}'\n    random_or_all: {{ "
        return y + ("" if seed is None else f"seed: {seed}, ") + f"max_count: {mx} }}\n"

    def export_routes(self, j):
        rng, b = self.rng, self.b
        n = len({e[0] for e in b.edges} | {e[1] for e in b.edges})
        mx = rng.choice([0, 1, 2, 3, n, n + 1, max(0, n * n - 1), n * n, n * n, n * n + 1, 1000, rng.randint(0, n * n + 3)])
        seed = rng.choice([None, 0, 1, 42, rng.randrange(2 ** 31)])
        self.routes_as(j, mx, seed)

    def routes_as(self, j, mx, seed):
        """asks twice for so many route-pairs"""
        for k in (0, 1):
            self.file(f"p{j}{k}.yaml", self.routes_yaml(f"p{j}{k}.route-pairs", f"p{j}0.route-pairs", seed, mx))
        r = lambda i: self.b.rank.get(i, BAD)

        def project(o):
            ok = "err" not in o[0] and "err" not in o[1]
            def rows(x):
                ls = [l.split(" ") for l in functional(x.get("text", ""))]
                try:
                    return (int(ls[0][0]), [[r(int(l[0])), r(int(l[1]))] + [int(y) for y in l[2:]] for l in ls[1:]])
                except (ValueError, IndexError):
                    return (BAD, [[BAD, BAD, BAD]])
            c, a = rows(o[2]) if ok else (0, [])
            _, again = rows(o[3]) if ok else (0, [])
            back = [[r(x[0]), r(x[1]), x[2]] for x in o[4]["pairs"]] if "pairs" in o[4] else [[BAD, BAD, BAD]]
            return [{"op": "routes", "max": mx, "ok": ok, "count": c, "rows": a, "again": again, "back": back}]
        self.add([{"op": "wroutes", "g": "g", "cfg": f"p{j}0.yaml"}, {"op": "wroutes", "g": "g", "cfg": f"p{j}1.yaml"},
                  {"op": "read", "path": f"p{j}0.route-pairs"}, {"op": "read", "path": f"p{j}1.route-pairs"},
                  {"op": "proutes", "g": "g", "cfg": f"p{j}0.yaml"}], project)

    def read_routes(self, j):
        rng = self.rng
        ids = [1, 2, 3, 77, -5, 2 ** 31, 6000000001, -4294967297]
        k = rng.randint(0, 5)
        lines = [[str(rng.choice(ids)), str(rng.choice(ids)), str(rng.choice([0, 1, 1, 2, 7, 300]))] for _ in range(k)]
        head = [[str(k)]]
        form = rng.choice(["fine", "fine", "fine", "less", "more", "short", "long", "text", "neg", "nocount", "twocounts", "textcount", "empty", "tail", "float"])
        at = rng.randrange(k) if k else None
        if form == "less" and k:
            lines.pop()
        elif form == "more":
            lines.append(["1", "2", "1"])
        elif form == "short" and k:
            # a line with a single value directly behind the count would be a count
            lines[at] = lines[at][:rng.choice([2, 2, 1]) if at else 2]
        elif form == "long" and k:
            lines[at].append(rng.choice(["1", "x"]))
        elif form == "text" and k:
            lines[at][rng.randrange(3)] = rng.choice(["x", "1,2", "0x10", "--1", "1-", "ten", "9999999999999999999999"])
        elif form == "float" and k:
            lines[at][rng.randrange(3)] = "1.0"
        elif form == "neg" and k:
            lines[at][2] = "-1"
        elif form == "nocount":
            head = []
        elif form == "twocounts":
            head = [[str(rng.randint(0, 9))]] + head
        elif form == "textcount":
            head = [[rng.choice(["x", "-1", "1.0", "2,"])]]
        elif form == "empty":
            head, lines = [], []
        elif form == "tail" and k:
            head = [[str(k - 1)]]
            lines[-1] = rng.choice([["junk"], ["1", "2"], ["a", "b", "c", "d"]])
        self.routefile(j, head + lines, ids)

    def routefile(self, j, ls, ids):
        """reads a route-pair-file with these lines"""
        rng = self.rng
        text = ""
        for l in ls:
            if rng.random() < 0.2:
                text += rng.choice(["\n", "# 5\n", "#\n", "# 1 2 3\n"])
            text += rng.choice(["", "", " ", "\t"]) + rng.choice([" ", "  ", "\t"]).join(l) + rng.choice(["", "", " "]) + "\n"
        if rng.random() < 0.3:
            text = text.rstrip("\n")
        ranks = {i: k + 1 for k, i in enumerate(sorted(ids))}

        def tok(s, last, header):
            try:
                v = int(s)
                if "." in s or "x" in s or not -2 ** 63 <= v < 2 ** 63:
                    return BAD
            except ValueError:
                return BAD
            return v if last or header else ranks.get(v, BAD)

        enc, inhead = [], True
        for l in ls:
            if len(l) != 1:
                inhead = False
            enc.append([tok(s, i == 2, inhead) if len(l) <= 3 else 0 for i, s in enumerate(l)])
        self.file(f"q{j}.route-pairs", text)
        self.file(f"q{j}.yaml", self.routes_yaml("zzz.route-pairs", f"q{j}.route-pairs", 1, 1))

        def project(o):
            ok = "pairs" in o[0]
            return [{"op": "routefile", "lines": enc, "ok": ok, "rows": [[ranks.get(x[0], BAD), ranks.get(x[1], BAD), x[2]] for x in o[0]["pairs"]] if ok else []}]
        self.add([{"op": "proutes", "g": "g", "cfg": f"q{j}.yaml"}], project)

    # ---------------- vehicles and workloads
    def export_vehicles(self, j):
        rng = self.rng
        walks = [[rng.randrange(50)] + [rng.randrange(12) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 8]))] for _ in range(rng.choice([0, 1, 2, 3, 6]))]
        if walks and rng.random() < 0.3:
            walks.append(rng.choice(walks))
        self.vehicles_as(j, walks)

    def vehicles_as(self, j, walks):
        """asks for vehicles on walks, each given by a first edge and by choices of the next one"""
        r = lambda s: self.b.rank.get(int(s), BAD)

        def project(o):
            ok = "err" not in o[0]
            got, form = [], True
            try:
                root = ET.fromstring(o[1].get("text", "").encode())
                form = root.tag == "data" and all(v.tag == "vehicle" for v in root)
                for v in root:
                    a, b = re.fullmatch(r"(-?\d+)->(-?\d+)", v.get("id")).groups()
                    form = form and all(n.tag == "node" for n in v)
                    got.append({"from": r(a), "to": r(b), "nodes": [r(n.get("id")) for n in v]})
            except Exception:
                form = False
            return [{"op": "vehicles", "ok": ok, "form": form, "got": got,
                     "paths": [{"src": p["src"] + 1, "dst": p["dst"] + 1, "edges": [e + 1 for e in p["edges"]]} for p in o[0].get("paths", [])]}]
        self.add([{"op": "wsmarts", "g": "g", "walks": walks, "file": f"s{j}.xml"}, {"op": "read", "path": f"s{j}.xml"}], project)

    def export_workloads(self, j):
        rng = self.rng
        if not self.eid:
            return
        sc = rng.random() < 0.4
        vals = [rng.choice([0, 1, 2, 3, 10, 1000, 4096, 100000]) + k for k in range(rng.randint(1, 60))]
        names = self.pick(self.ecols)
        d = f"res{j}"
        self.ops.append({"op": "mkdir", "path": d})
        y = f"evaluating_balance:\n  results-dir: '{d}'\n" + ("" if rng.random() < 0.5 else f"  seed: {rng.randrange(99)}\n")
        y += f"  monitoring:\n    edges-info:\n      file: 'info.csv'\n" + self.bools("", "with_shortcuts", sc, "      ") + "      ids:\n" + self.ids_yaml(names, "      ")
        self.file(f"e{j}.yaml", y)
        ew = [("ignored", 0) if n is None else self.ecols[n] for n in names]

        def project(o):
            ok = "err" not in o[0]
            ls = functional(o[1].get("text", ""))
            ws = functional(o[2].get("text", ""))
            def wrow(l):
                try:
                    a, v = l.split(" ")
                    return [self.b.erank.get(int(a), BAD), int(v)]
                except ValueError:
                    return [BAD, BAD]
            return [{"op": "table", "names": ["_" if n is None else n for n in names], "cols": [{"w": w, "k": k} for w, k in ew], "sc": sc, "ok": ok,
                     "header": ls[0].split(" ") if ls else [], "rows": [self.row([w for w, _ in ew], l) for l in ls[1:]]},
                    {"op": "workloads", "ok": ok, "sc": sc, "header": ws[0].split(" ") if ws else [], "rows": [wrow(l) for l in ws[1:]],
                     "vals": (vals * 300)[:300]}]
        self.add([{"op": "weval", "g": "g", "cfg": f"e{j}.yaml", "values": vals}, {"op": "read", "path": f"{d}/info.csv"},
                  {"op": "read", "path": f"{d}/abs_workloads.csv"}], project)


# ---------------- what the specification enumerates
def full_case(cid, rng, edges=None):
    """a graph with all columns: the given edges, or a small contracted graph with two metrics and ids"""
    if edges is None:
        ids = [-4, 6000000001, 3, 77]
        es = [(ids[0], ids[1], [1, 4], None, 9), (ids[1], ids[2], [2, 7], None, 0), (ids[1], ids[2], [3, 2], None, 255), (ids[2], ids[0], [5, 1], None, 4),
              (ids[0], ids[2], [3, 11], (0, 1), 65536)]
        b = BuildCase(cid, [(i, *coord(rng), [0, 3, 1, 2][k]) for k, i in enumerate(ids)], es, level=True, sc=True, eid=True)
    else:
        ids = rng.sample(range(-5, 100), 3)
        b = BuildCase(cid, [(i, *coord(rng), 0) for i in ids], [(ids[u - 1], ids[v - 1], [rng.randint(1, 3)], None, None) for u, v in edges])
    return ExportCase(cid, rng, None, b)


def column(c, w):
    """the name of a column in the graph of a full case"""
    if w in ("ignored", "unknown"):
        return None if w == "ignored" else "nope"
    names = {"NodeId": "node-id", "NodeIdx": "node-idx", "CHLevel": "ch-level", "Latitude": "lat", "Longitude": "lon", "metric1": "m0", "metric2": "m1"}
    return names.get(w) or next(n for n, x in c.ecols.items() if x[0] == w)


def all_selections(start, rng, part, selections, per=40):
    cases = []
    for at in range(0, len(selections), per):
        c = full_case(start + len(cases), rng)
        for j, sel in enumerate(selections[at:at + per]):
            names = [column(c, w) for w in sel]
            if part == "nodes":
                c.map_as(j, names, ["src-id", "dst-id", "m1"], True)
            elif part == "maps":
                c.map_as(j, ["node-id", "lat", "lon"], names, rng.random() < .5)
            else:
                c.table_as(j, names, rng.random() < .5)
        cases.append(c)
    return cases


def all_route_exports(start, rng, graphs):
    cases = []
    for k, edges in enumerate(graphs):
        c = full_case(start + k, rng, edges)
        for mx in range(11):
            c.routes_as(mx, mx, rng.choice([None, 0, 1, 2, 42]))
        cases.append(c)
    return cases


def all_route_files(start, rng, files, per=60):
    ids = [1, -5, 6000000001]
    cases = []
    for at in range(0, len(files), per):
        c = full_case(start + len(cases), rng)
        for j, kinds in enumerate(files[at:at + per]):
            lines = []
            for x in kinds:
                v = [str(rng.choice(ids)), str(rng.choice(ids)), str(rng.choice([0, 1, 300]))]
                lines.append({"count": lambda: ["x" if x[-1] == "x" else x[-1]], "route": lambda: (v + ["1"])[:int(x[-1])] if x[-1].isdigit() else [],
                              "src": lambda: ["a"] + v[1:], "dst": lambda: [v[0], "1.5", v[2]], "num": lambda: v[:2] + ["-1"]}[x.rstrip("0123456789x")]())
            c.routefile(j, lines, ids)
        cases.append(c)
    return cases


def all_vehicles(start, rng, graphs):
    cases = []
    for k, edges in enumerate(graphs):
        c = full_case(start + k, rng, edges)
        hops = [[]] + [[a] for a in range(2)] + [[a, b] for a in range(2) for b in range(2)]
        c.vehicles_as(0, [[e] + h for e in range(len(edges)) for h in hops])
        c.export_workloads(1)
        cases.append(c)
    return cases


def export_case(cid, rng, kinds):
    c = ExportCase(cid, rng, rng.choice(["plain", "sc", "sc", "ids", "ids"]))
    for j in range(rng.randint(2, 4)):
        getattr(c, rng.choice(kinds))(j)
    return c
