"""C21: balancing runs of the binary in a scratch directory, with a stand-in for the external constructor."""
import json, multiprocessing, os, random, re, shutil, subprocess, sys
from concurrent.futures import ProcessPoolExecutor
from vlib import *
from maps import *
from gen_routing import random_graph, shaped_graph, coords
from gen_balance import _lim
from gen_balrule import U

HERE = os.path.dirname(os.path.abspath(__file__))
ALGOS = {"Dijkstra": "'Dijkstra'", "CHDijkstra": "'CHDijkstra'", "Explorator": "{ Explorator: { algo: 'Dijkstra' } }",
         "ExploratorCH": "{ Explorator: { algo: 'CHDijkstra' } }"}


def reaches(E, s, d):
    seen, todo = {s}, [s]
    while todo:
        u = todo.pop()
        for a, b, _ in E:
            if a == u and b not in seen:
                seen.add(b)
                todo.append(b)
    return d in seen


def flt(s):
    try:
        return num(float(s), U)
    except (ValueError, TypeError):
        return BAD


class Pipe:
    def __init__(self, id, rng, n, fault, algo=None):
        self.id, self.n, self.fault, self.rng = id, n, fault, rng
        dim = self.dim = rng.choice([1, 2, 2])
        self.table = rng.sample(["lane", "dummy"], rng.choice([0, 1, 1, 2]))
        while True:
            k = rng.choice([2, 3, 4, 4, 5])
            kind = rng.choice(["cycle", "twoway_line", "grid", "sink", "random", "random", "detour", "detour"])
            if kind == "detour":  # more edges, less weight: different routes with and without a constant on every edge
                E = [(v, v + 1, [rng.randint(1, 2) for _ in range(dim)]) for v in range(k - 1)]
                E += [(v, w, [2 * (w - v) + rng.randint(1, 4) for _ in range(dim)]) for v in range(k) for w in range(v + 2, k) if rng.random() < .6]
                E.append((k - 1, 0, [1] * dim))
            else:
                E = random_graph(rng, k, rng.randint(k, 2 * k + 1), dim, 6) if kind == "random" else shaped_graph(rng, kind, k, dim, 6)
            seen, F = set(), []
            for e in E:
                if e[0] != e[1] and (e[0], e[1]) not in seen:
                    seen.add((e[0], e[1]))
                    F.append((e[0], e[1], [max(1, x) for x in e[2]]))
            E = F[:10]
            used = sorted({x for e in E for x in e[:2]})
            ok = [(s, d) for s in used for d in used if s != d and reaches(E, s, d)]
            if ok:
                break
        ids = {v: i for v, i in zip(used, rng.sample(range(1, 90), len(used)))}
        self.eids = rng.sample(range(1000), len(E))
        nodes = [(ids[v], *coords(v)) for v in used]
        srt = sorted(ids.values())
        self.pos = {i: k + 1 for k, i in enumerate(srt)}
        self.nodes = [[i, *[num(float(x), 10**7) for x in next(z for z in nodes if z[0] == i)[1:3]]] for i in srt]
        lanes = [rng.choice([1, 1, 2, 3]) for _ in E]
        cols = list(range(dim)) + (["lane"] if "lane" in self.table else [])
        fe = [(ids[u], ids[v], m + ([lanes[k]] if "lane" in self.table else []), None, self.eids[k]) for k, (u, v, m) in enumerate(E)]
        self.ends = [[self.pos[e[0]], self.pos[e[1]]] for e in fe]
        self.raw_stat = [m for _, _, m in E]
        self.raw_table = [[lanes[k] if t == "lane" else E[k][2][0] for t in self.table] for k in range(len(E))]
        order = list(range(len(E)))
        rng.shuffle(order)
        rng.shuffle(nodes)
        self.map = fmi(nodes, [fe[k] for k in order], edge_id=True)
        self.norm = rng.random() < .4
        self.bal0, self.bal1 = rng.choice([1, 1, 2]), rng.choice([1, 1, 3, 12, 40])
        self.percent = rng.choice(["99.8", "100", "50", None, "0"])
        self.algo = algo or rng.choice(list(ALGOS))
        mets = [f"m{k}" for k in range(dim)] + ["workload"] + (self.table if self.percent == "0" else [])  # shortcuts have no values in the table
        self.alpha = {m: rng.choice([1, 1, 2, 3, 0]) for m in mets if rng.random() < .8}
        if not any(self.alpha.get(f"m{k}") for k in range(dim)):
            self.alpha["m0"] = 1
        self.avg, self.c = rng.random() < .6, rng.choice([1000, 500, 250, 800])
        self.min = rng.choice([-1, 100000, 100000, 10000, 500000])
        self.throw = rng.choice([None, False, True]) if self.min >= 0 else rng.choice([False, False, True, None])
        self.collect = rng.random() < .5
        self.threads = rng.choice([1, 2, 3, 4, 9])
        pairs = [rng.choice(ok)] + [(rng.choice(used), rng.choice(used)) for _ in range(rng.randint(0, 4))]
        if fault["what"] == "no-load":
            pairs = [(s, s) for s, _ in pairs]
        lines = [(ids[s], ids[d], rng.choice([1, 1, 2, 3, 5])) for s, d in pairs]
        agg = {}
        for s, d, k in lines:
            agg[self.pos[s], self.pos[d]] = agg.get((self.pos[s], self.pos[d]), 0) + k
        self.pairs = [{"s": s, "d": d, "k": k} for (s, d), k in sorted(agg.items())]
        if fault["what"] == "pairs-unknown":
            lines[rng.randrange(len(lines))] = (999983, ids[used[0]], 1)
        rng.shuffle(lines)
        self.list = f"# pairs\n{len(lines)}\n" + "".join(f"{s} {d} {k}\n" for s, d, k in lines)
        if fault["what"] == "pairs-malformed":
            s, d, k = lines[-1]
            self.list = self.list.replace(f"{s} {d} {k}\n", f"{s} x{d} {k}\n")
        self.fgraph, self.fch, self.ftab = rng.choice(["graph.fmi", "g.fmi"]), rng.choice(["graph.ch.fmi", "c.fmi"]), rng.choice(["edges-info.csv", "carried.csv"])
        self.finfo, self.fbal = rng.choice(["edges-info.csv", "seen.csv"]), rng.choice(["balanced_graph.fmi", "b.fmi"])
        self.mcols = [f"m{k}" for k in range(dim)]
        rng.shuffle(self.mcols)
        self.icols = self.mcols + ["workload"]
        rng.shuffle(self.icols)
        self.files = self.configs()

    # ---- configs
    def iteration(self, first):
        rng, bad = self.rng, self.fault["what"] == ("iter0bad" if first else "iteribad")
        cols = self.mcols if first else self.icols
        tab = ["edge-id"] + self.table
        rng.shuffle(tab)
        w = "writing:\n  graph:\n    map-file: '%s'\n    nodes:\n" % self.fgraph
        w += "".join(f"    - id: '{i}'\n" for i in ("node-idx", "node-id", "lat", "lon")) + "    - ignored\n    - ignored\n"
        w += "    edges:\n      with_shortcuts: false\n      will_denormalize_metrics_by_mean: false\n      ids:\n"
        w += "".join(f"      - id: '{i}'\n" for i in ["edge-id", "src-idx", "dst-idx"] + cols) + "      - ignored\n      - ignored\n"
        if bad:
            w = w.replace("edges:", "vertices:")
        w += f"  edges-info:\n    file: '{self.ftab}'\n    with_shortcuts: false\n    will_denormalize_metrics_by_mean: false\n    ids:\n" + "".join(f"    - id: '{i}'\n" for i in tab)
        p = f"parsing:\n  map-file: '{self.fch}'\n  nodes:\n  - ignored\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\n"
        p += "  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  - ignored\n  - meta: { info: 'CHLevel', id: 'ch-level' }\n"
        p += "  edges:\n    will_normalize_metrics_by_mean: false\n    data:\n"
        p += "".join(f"    - meta: {{ info: '{a}', id: '{b}' }}\n" for a, b in [("EdgeId", "edge-id"), ("SrcId", "src-id"), ("DstId", "dst-id")])
        p += "".join(f"    - metric: {{ unit: 'F64', id: '{i}' }}\n" for i in cols)
        p += "    - meta: { info: 'ShortcutIdx0', id: 'sc0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc1' }\n"
        p += "  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'node-idx' }\n    edges:\n"
        gen = [["    - meta: { info: 'SrcIdx', id: 'src-idx' }"], ["    - meta: { info: 'DstIdx', id: 'dst-idx' }"]]
        cust = [["    - custom:", f"        id: '{t}'", f"        unit: '{'LaneCount' if t == 'lane' else 'F64'}'", "        default: 1.0"] for t in self.table]
        if first:
            cust.append(["    - custom:", "        id: 'workload'", "        unit: 'F64'", f"        default: {self.bal1}.0"])
        rng.shuffle(cust)
        gen += cust
        merges = [self.table] if len(self.table) == 1 or self.table and rng.random() < .5 else [[t] for t in self.table]  # at once or a merge per column
        for m in merges:
            gen.append(["    - merge:", f"        from: '{self.ftab}'", "        edge-id: 'edge-id'", "        edges-info:"] +
                       [f"        - id: '{i}'" if i in m + ["edge-id"] else "        - ignored" for i in tab])
        p += "\n".join(x for g in gen for x in g) + "\n"
        return w + p if rng.random() < .5 else p + w

    def configs(self):
        rng, f = self.rng, self.fault["what"]
        p = parsing_cfg(self.dim, edge_id=True, map_file="in/map.fmi", normalize=self.norm)
        if "lane" in self.table:
            p += "    - metric: { unit: 'LaneCount', id: 'lane' }\n"
        p += "  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'node-idx' }\n    edges:\n"
        p += "    - meta: { info: 'SrcIdx', id: 'src-idx' }\n    - meta: { info: 'DstIdx', id: 'dst-idx' }\n"
        if "dummy" in self.table:
            p += "    - copy:\n        from: { unit: 'F64', id: 'm0' }\n        to: { unit: 'F64', id: 'dummy' }\n"
        p += f"    - custom:\n        id: 'workload'\n        unit: 'F64'\n        default: {self.bal0}.0\n"
        items = [["  results-dir: '%s'" % rng.choice(["res", "res/deep"])], ["  iter-0-cfg: 'in/i0.yaml'"], ["  iter-i-cfg: 'in/i1.yaml'"],
                 [f"  number_of_metric-updates: {self.n - 1}"], [f"  number_of_threads: {self.threads}"]]
        if rng.random() < .5:
            items.append([f"  seed: {rng.randint(0, 99)}"])
        ch = ["  multi-ch-constructor:", f"    fmi-graph: '{self.fgraph}'", f"    contracted-graph: '{self.fch}'", f"    dimension: {self.dim + 1}",
              "    is_printing_osm-ids: true", "    is_using_external_edge-ids: true"]
        if self.percent:
            ch.append(f"    contraction-ratio: '{self.percent}'")
        items.append(ch)
        mc = ["edge-id", "workload"] + [m for m in self.mcols if rng.random() < .3]
        rng.shuffle(mc)
        self.infocols = mc
        items.append(["  monitoring:", "    edges-info:", f"      file: '{self.finfo}'", "      will_denormalize_metrics_by_mean: false", "      with_shortcuts: false",
                      "      ids:"] + [f"      - id: '{i}'" for i in mc] + [f"    export_vehicles_for_SMARTS: {'true' if self.collect else 'false'}"])
        m = ["    method: averaging"] if self.avg else ["    method:", "      explicit_euler:", f"        correction: {self.c / 1000}"]
        items.append(["  optimizing_with:", f"    metric-id: '{'nope' if f == 'unknown-metric' else 'workload'}'"] + m)
        if self.min >= 0:
            items.append([f"  min_new_metric: {self.min / U}"])
        if self.throw is not None:
            items.append([f"  throw_err_when_new_metric_is_zero: {'true' if self.throw else 'false'}"])
        rng.shuffle(items)
        b = "balancing:\n" + "\n".join(x for i in items for x in i) + "\n"
        r = "routing:\n" + ("" if f == "pairs-unset" else "  route-pairs-file: 'in/some.route-pairs'\n") + f"  algorithm: {ALGOS[self.algo]}\n  metrics:\n"
        ms = [f"  - {{ id: '{k}', alpha: {a} }}\n" for k, a in self.alpha.items()]
        rng.shuffle(ms)
        r += "".join(ms) + ("  - id: 'nope'\n" if f == "unknown-routing-metric" else "")
        self.balcols = ["edge-id", "src-id", "dst-id"] + self.mcols + self.table + ["workload"]
        if rng.random() < .5:
            rng.shuffle(self.balcols)
        w = f"writing:\n  graph:\n    map-file: '{self.fbal}'\n    nodes:\n    - id: 'node-id'\n    - id: 'lat'\n    - id: 'lon'\n    edges:\n      ids:\n"
        w += "".join(f"      - id: '{i}'\n" for i in self.balcols) + ("      - id: 'nope'\n" if f == "target-column" else "")
        secs = [s for s, name in ((p, ""), (b, "no-balancing"), (r, "no-routing"), (w, "no-writing")) if f != name]
        rng.shuffle(secs)
        files = {"in/c.yaml": "".join(secs), "in/i0.yaml": self.iteration(True), "in/i1.yaml": self.iteration(False), "in/map.fmi": self.map,
                 "in/some.route-pairs": self.list, "in/other.txt": "kept\n", "res/older.txt": "kept as well\n"}
        for name, path in (("config-absent", "in/c.yaml"), ("iter0cfg", "in/i0.yaml"), ("itericfg", "in/i1.yaml"), ("no-map", "in/map.fmi"), ("pairs-absent", "in/some.route-pairs")):
            if f == name:
                del files[path]
        return files

    def raw(self):
        return {"id": self.id, "n": self.n, "fault": self.fault, "files": self.files}

    # ---- running
    def snap(self, d):
        out = {}
        for p, _, fs in os.walk(d):
            for x in fs:
                q = os.path.join(p, x)
                with open(q, errors="replace") as f:
                    out[os.path.relpath(q, d)] = f.read()
        return out

    def execute(self, binary):
        top = scratch("pipe-")
        d = os.path.join(top, "w")
        self.obs = []
        try:
            for path, t in self.files.items():
                os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
                with open(os.path.join(d, path), "w") as f:
                    f.write(t)
            stub = open(os.path.join(HERE, "stub_ch.py")).read().replace("#!PYTHON", f"#!{sys.executable} -SE")
            places = [os.path.join(top, "bin", "cmake")]
            if self.fault["what"] != "no-externals":
                places.append(os.path.join(d, "externals/multi-ch-constructor/build/multi-ch"))
            for p in places:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(stub)
                os.chmod(p, 0o755)
            env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_SCHED", "RUST_"))}
            env.update(RUST_BACKTRACE="0", PATH=os.path.join(top, "bin") + ":" + env.get("PATH", ""), STUB_STATE=os.path.join(top, "state"),
                       STUB_DIE=self.rng.choice(["fails", "killed"]), STUB_FAULT=f"{self.fault['what']}@{self.fault['at']}")
            before = self.snap(d)
            res = self.run(binary, d, env)
            mid = self.snap(d)
            ev = [self.start()] + self.iterations(mid) + [self.end(res, before, mid)]
            if self.again:
                if os.path.exists(env["STUB_STATE"]):
                    os.unlink(env["STUB_STATE"])
                res = self.run(binary, d, env)
                after = self.snap(d)
                ev.append({"op": "again", "res": res, "kept": all(after.get(p) == t for p, t in mid.items())})
            return {"id": self.id, "ev": ev}
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def run(self, binary, d, env):
        try:
            p = subprocess.run([binary, "--config", "in/c.yaml", "--balancing", "--log", "ERROR"], cwd=d, env=env, preexec_fn=_lim, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = None, ""
        self.obs.append({"rc": rc, "out": out[-1500:]})
        return "hangs" if rc is None else "ok" if rc == 0 else "killed" if rc < 0 else "err"

    # ---- projections
    def start(self):
        a = [self.alpha.get(m, 0) for m in [f"m{k}" for k in range(self.dim)] + self.table + ["workload"]]
        return {"op": "start", "n": self.n, "fault": self.fault, "p": {"avg": self.avg, "c": self.c, "min": self.min, "throw": self.throw is not False},
                "a": a, "algo": self.algo.replace("rCH", "r"), "norm": self.norm, "stat": self.raw_stat, "table": self.raw_table, "bal0": self.bal0, "ends": self.ends,
                "nodes": self.nodes, "pairs": self.pairs, "collect": self.collect}

    def root(self, files):
        r = {m.group(0) for p in files for m in [re.match(r"(.*/)?utc_[^/]*", p)] if m}
        return sorted(r)[0] if len(r) == 1 else None

    def parse(self, text, cols):
        """a written map: nodes, and edges by their ids, each one with its values by names"""
        ls = [l for l in text.split("\n") if l and not l.startswith("#")]
        try:
            dim, n, m = (int(x) for x in ls[:3])
        except ValueError:
            return [], [], {}
        nodes = [l.split() for l in ls[3:3 + n]]
        E = []
        for l in ls[3 + n:3 + n + m]:
            E.append(dict(zip(cols, l.split())))
        if len(ls) != 3 + n + m or any(len(e) != len(cols) for e in E):
            return [], [], {}
        return nodes, E, {e["edge-id"]: e for e in E}

    def mynodes(self, rows, k):
        return [[int(r[k]) if r[k].isdigit() else 0, *[num(float(x), 10**7) for x in r[k + 1:k + 3]]] if len(r) > k + 2 else [] for r in rows]

    def column(self, by, names):
        return [[flt(by.get(str(i), {}).get(m)) for m in names] for i in self.eids]

    def csv(self, text, cols):
        rows = [l.split() for l in text.splitlines()]
        if not rows:
            return {}
        return {r["edge-id"]: r for r in (dict(zip(cols, x)) for x in rows[1:]) if len(r) == len(cols)}

    def iterations(self, files):
        root, out = self.root(files), []
        if root is None:
            return out
        its = sorted({int(m.group(1)) for p in files for m in [re.match(re.escape(root) + r"/(\d+)/", p)] if m})
        for i in its:
            at = lambda f: files.get(f"{root}/{i}/{f}")
            need = [at("iteration.yaml"), at(self.fgraph), at(self.ftab), at(self.fch), at("stats/abs_workloads.csv"), at("stats/" + self.finfo)]
            if self.collect:
                need.append(at("stats/smarts.xml"))
            e = {"op": "iter", "i": i, "whole": all(x is not None for x in need)}
            out.append(e)
            if not e["whole"]:
                continue
            want = self.files["in/i0.yaml" if i == 0 else "in/i1.yaml"]
            e["cfg"] = need[0] == want
            mets = [f"m{k}" for k in range(self.dim)]
            cols = self.mcols if i == 0 else self.icols
            nodes, E, by = self.parse(need[1], ["edge-id", "src-idx", "dst-idx"] + cols + ["x", "y"])
            e["nodes"] = self.mynodes(nodes, 1)
            ix = lambda r, k: int(r[k]) + 1 if r.get(k, "").isdigit() else 0
            e["ends"] = [[ix(by.get(str(j), {}), k) for k in ("src-idx", "dst-idx")] for j in self.eids]
            e["count"] = len(E)
            e["stat"] = self.column(by, mets)
            e["bal"] = [] if i == 0 else [r[0] for r in self.column(by, ["workload"])]
            tab = re.findall(r"id: '([^']*)'", re.search(r"edges-info:\n    file.*?(?=\nparsing|\Z)", want, re.S).group(0).split("ids:")[1])
            tab = [x for x in tab if x in ["edge-id"] + self.table]
            e["table"] = self.column(self.csv(need[2], tab), self.table)
            nodes, E, by = self.parse(need[3], ["edge-id", "src-id", "dst-id"] + cols + ["sc0", "sc1"])
            ok = set(str(j) for j in self.eids)
            full = [by[str(j)] for j in self.eids if str(j) in by] + [x for x in E if x["edge-id"] not in ok]
            st = {str(j): r for j, r in zip(self.eids, e["table"])}
            bal = self.bal1 * U
            po = lambda s: self.pos.get(int(s), 0) if s.isdigit() else 0
            e["g"] = {"n": len(self.pos), "lvl": [0] * len(self.pos), "E": [
                {"s": po(x["src-id"]), "d": po(x["dst-id"]),
                 "m": [flt(x.get(m)) for m in mets] + st.get(x["edge-id"], [U] * len(self.table)) + [bal if i == 0 else flt(x["workload"])],
                 "sc": [] if x["sc0"] == "-1" else [1, 1]} for x in full]}
            by = {}
            for line in need[4].splitlines()[1:]:
                t = re.split(r"[\s,;]+", line.strip())
                if len(t) == 2 and re.fullmatch(r"\d+", t[0]) and re.fullmatch(r"\d{1,9}", t[1]):
                    by[int(t[0])] = int(t[1])
            e["W"] = [by.get(j, -1) for j in self.eids]
            e["new"] = [r[0] for r in self.column(self.csv(need[5], self.infocols), ["workload"])]
            V = {}
            if self.collect:
                for m in re.finditer(r'<vehicle id="(-?\d+)->(-?\d+)"[^>]*>(.*?)</vehicle>', need[6], re.S):
                    walk = tuple(po(x) for x in re.findall(r'<node id="(-?\d+)"/>', m.group(3)))
                    k = (po(m.group(1)), po(m.group(2)), walk)
                    V[k] = V.get(k, 0) + 1
            e["V"] = [{"s": s, "d": d, "walk": list(w), "k": k} for (s, d, w), k in sorted(V.items())]
        return out

    def end(self, res, before, after):
        root = self.root(after)
        new = [p for p in after if p not in before]
        e = {"op": "end", "res": res, "kept": all(after.get(p) == t for p, t in before.items()),
             "stray": any(root is None or not p.startswith(root + "/") for p in new), "copies": False, "hasbal": False,
             "stat": [], "table": [], "bal": [], "nodes": [], "ends": []}
        if root is None:
            return e
        e["copies"] = after.get(root + "/c.yaml") == self.files.get("in/c.yaml") and after.get(root + "/some.route-pairs") == self.list
        t = after.get(f"{root}/{self.fbal}")
        if t is not None and res == "ok":
            e["hasbal"] = True
            nodes, E, by = self.parse(t, self.balcols)
            e["nodes"] = self.mynodes(nodes, 0)
            po = lambda s: self.pos.get(int(s), 0) if s and s.isdigit() else 0
            e["ends"] = [[po(by.get(str(j), {}).get(k)) for k in ("src-id", "dst-id")] for j in self.eids]
            e["stat"] = self.column(by, [f"m{k}" for k in range(self.dim)])
            e["table"] = self.column(by, self.table)
            e["bal"] = [r[0] for r in self.column(by, ["workload"])]
        return e

    again = False


def _work(args):
    hs, binary = args
    return [(h.execute(binary), h.obs) for h in hs]


def execute_all(hs, binary):
    parts = [hs[i::8 * NPROC] for i in range(8 * NPROC)]
    out = {}
    with ProcessPoolExecutor(NPROC, mp_context=multiprocessing.get_context("fork")) as ex:
        for part, res in zip(parts, ex.map(_work, [(p, binary) for p in parts])):
            for h, (t, obs) in zip(part, res):
                h.obs = obs
                out[h.id] = t
    return [out[h.id] for h in hs]
