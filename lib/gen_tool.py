"""C20: histories of runs of the binary in one directory."""
import hashlib, multiprocessing, os, random, re, shutil, subprocess
from concurrent.futures import ProcessPoolExecutor
from vlib import *
from maps import *
from gen_routing import random_graph, shaped_graph, coords
from gen_balance import _lim

FLAGS = {"graph": "--writing_graph", "edges": "--writing_edges", "pairs": "--writing_route-pairs", "routing": "--routing", "evaluate": "--evaluating_balance", "balance": "--balancing"}
ALGOS = {"Dijkstra": "'Dijkstra'", "CHDijkstra": "'CHDijkstra'", "Explorator": "{ Explorator: { algo: 'Dijkstra' } }"}
ROLES = ("graph", "edges", "pairs", "info")


class World:
    """a map and what is asked of it; the files' names, and what is wrong with them, come with the run"""
    def __init__(self, id, rng, algo=None):
        self.id = id
        dim = rng.choice([1, 2, 2, 3])
        n = rng.choice([2, 3, 4, 5])
        kind = rng.choice(["cycle", "twoway_line", "grid", "sink", "parts", "parallel", "random", "random"])
        E = random_graph(rng, n, rng.randint(n, 2 * n + 2), dim, 6) if kind == "random" else shaped_graph(rng, kind, n, dim, 6)
        many = algo == "Explorator" and rng.random() < .7    # alternatives: what is cheap in one metric is expensive in the other
        if many:
            dim = rng.choice([2, 2, 3])
            half = lambda m: [rng.randint(0, x - 1) if x > 1 else 0 for x in m]
            E = []
            for v, m in zip((2, 3, 4), ([2, 12, 5], [4, 6, 6], [rng.choice([5, 11]), rng.choice([2, 4]), 8])):
                h = half(m[:dim])
                E += [(1, v, [max(x, 1) for x in h]), (v, 5, [max(x - y, 1) for x, y in zip(m, h)])]
            E += [(5, 1, [rng.randint(1, 3) for _ in range(dim)]), (3, 4, [1] * dim)]
        E = [e for i, e in enumerate(E) if e not in E[:i] and e[0] != e[1]][:9] or [(1, 2, [1] * dim)]
        n = max(max(e[0], e[1]) for e in E)
        ids = rng.sample(range(1, 60), n)
        self.eids = rng.sample(range(1000), len(E))
        fe = [(ids[u - 1], ids[v - 1], m, None, self.eids[k]) for k, (u, v, m) in enumerate(E)]
        nodes = [(ids[i], *coords(i)) for i in range(n)]
        rng.shuffle(nodes)
        self.g, used = input_graph(nodes, fe)
        self.pos = {i: k + 1 for k, i in enumerate(used)}
        self.map = fmi(nodes, fe, edge_id=True)
        self.dim, self.algo = dim, algo or rng.choice(["Dijkstra", "Dijkstra", "CHDijkstra", "Explorator"])
        self.a = [rng.choice([1, 1, 2, 3]) for _ in range(dim)]
        # an exploration may keep to limits: what an alternative may cost, as a multiple of the least possible
        limits = self.algo == "Explorator" and rng.random() < .7
        self.tol = [rng.choice([1, 1.05, 1.3, 2, 4]) if limits and rng.random() < .7 else None for _ in range(dim)]
        self.metrics = [f"  - {{ id: 'm{k}', alpha: {a}" + (f", tolerated-scale: '{t}'" if t else "") + " }\n" for k, (a, t) in enumerate(zip(self.a, self.tol))]
        rng.shuffle(self.metrics)
        lines = [(rng.choice(used), rng.choice(used), rng.choice([1, 2, 3, 0])) for _ in range(rng.randint(1, 6))]
        if many:
            lines = [(ids[0], ids[4], 1)] + lines[:4]
        self.list = f"# pairs\n{len(lines)}\n" + "".join(f"{s} {d} {k}".strip() + "\n" for s, d, k in lines)
        s, d, k = lines[-1]
        self.unknown = self.list + f"{s} 999983 1\n"
        self.unknown = self.unknown.replace(f"\n{len(lines)}\n", f"\n{len(lines) + 1}\n", 1)
        self.malformed = self.list.replace(f"{s} {d}", f"{s} here", 1)
        ids = ["edge-id", "src-id", "dst-id"] + [f"m{k}" for k in range(dim)]
        self.ecols = ids if rng.random() < .5 else rng.sample(ids, rng.randint(1, len(ids)))
        self.icols = rng.sample(ids, rng.randint(1, len(ids)))
        self.gcols = ids if rng.random() < .5 else rng.sample(ids, len(ids))
        self.seed, self.max = rng.randint(0, 999), rng.choice([1, 2, 5, 1000])
        self.threads = rng.choice([1, 2, 4])

    def config(self, r):
        lay, bad = r["lay"], {x["p"]: x["k"] for x in r["bad"]}
        y = ""

        def at(part, path):
            k = bad.get(part)
            if k == "nodir":
                return "nowhere/" + path
            return path.rsplit(".", 1)[0] + ".txt" if k == "ext" else path

        def cols(part, ids, ind):
            return "".join(f"{ind}- id: '{i}'\n" for i in ids + (["nope"] if bad.get(part) == "column" else []))
        if bad.get("parsing") == "invalid":
            y += f"parsing:\n  map-file: '{lay['map']}'\n  nodes: 'none'\n"
        elif bad.get("parsing") != "missing":
            y += parsing_cfg(self.dim, edge_id=True, map_file=at("map", lay["map"]))
        k = bad.get("routing")
        if k == "invalid":
            y += "routing:\n  metrics: 'all'\n"
        elif k != "missing":
            y += "routing:\n"
            if bad.get("pairsfile") != "unset":
                y += f"  route-pairs-file: '{lay['in']}'\n"
            y += f"  algorithm: {ALGOS[self.algo] if k != 'algorithm' else 'Guessing'}\n  metrics:\n" + "".join(self.metrics)
            if k == "metric":
                y += "  - id: 'nope'\n"
        w = ""
        k = bad.get("wgraph")
        if k == "invalid":
            w += "  graph:\n    map-file: 5\n    nodes: 7\n"
        elif k != "missing":
            w += (f"  graph:\n    map-file: '{at('wgraph', lay['graph'])}'\n    nodes:\n" + cols("", ["node-id", "lat", "lon"], "    ") +
                  "    edges:\n      ids:\n" + cols("wgraph", self.gcols, "      "))
        k = bad.get("wedges")
        if k == "invalid":
            w += "  edges-info:\n    ids: 3\n"
        elif k != "missing":
            w += f"  edges-info:\n    file: '{at('wedges', lay['edges'])}'\n    ids:\n" + cols("wedges", self.ecols, "    ")
        k = bad.get("wpairs")
        if k == "invalid":
            w += "  route-pairs:\n    file: 'x'\n    random_or_all: 'yes'\n"
        elif k != "missing":
            w += f"  route-pairs:\n    file: '{at('wpairs', lay['pairs'])}'\n    random_or_all:\n      seed: {self.seed}\n      max_count: {self.max}\n"
        if w:
            y += "writing:\n" + w
        k = bad.get("evaluating")
        if k == "invalid":
            y += "evaluating_balance:\n  results-dir: 'out'\n  monitoring: 8\n"
        elif k != "missing":
            f = lay["info"].split("/")[-1]
            f = f.rsplit(".", 1)[0] + ".txt" if k == "ext" else f
            y += (f"evaluating_balance:\n  seed: {self.seed}\n  results-dir: '{lay['dir']}'\n  number_of_threads: {self.threads}\n  monitoring:\n"
                  f"    edges-info:\n      file: '{f}'\n      ids:\n" + cols("evaluating", self.icols, "      ") +
                  f"    export_vehicles_for_SMARTS: {'true' if r['veh'] else 'false'}\n")
        return y if y else "nothing: 1\n"

    # ---- what the library writes itself
    def lib_case(self, default):
        r = {"lay": {**default, "dir": "."}, "bad": [], "veh": False}
        r["lay"]["info"] = "info.csv"
        ops = [{"op": "file", "path": "c.yaml", "text": self.config(r)}, {"op": "file", "path": "m.fmi", "text": self.map},
               {"op": "file", "path": r["lay"]["in"], "text": self.list},
               {"op": "parse", "g": "g", "cfg": "c.yaml", "dump": False}, {"op": "wgraph", "g": "g", "cfg": "c.yaml"}, {"op": "wedges", "g": "g", "cfg": "c.yaml"},
               {"op": "wroutes", "g": "g", "cfg": "c.yaml"}, {"op": "weval", "g": "g", "cfg": "c.yaml", "values": [0] * len(self.eids)}]
        self.at = len(ops)
        return {"id": self.id, "ops": ops + [{"op": "read", "path": p} for p in (r["lay"]["graph"], r["lay"]["edges"], r["lay"]["pairs"], "info.csv")]}

    def learn(self, obs):
        self.lib = {}
        for role, o in zip(ROLES, obs[self.at:]):
            if "text" not in o:
                return False
            self.lib[role] = o["text"]
        self.names = {}
        for name, t in [("map", self.map), ("list", self.list), ("empty", EMPTY), ("malformed", self.malformed), ("unknown", self.unknown), ("old", OLD)] + [
                ("lib." + r, t) for r, t in self.lib.items()]:
            self.names.setdefault(re.sub(r"^#.*\n", "", t, flags=re.M), name)
        return True

    def pairs(self, text):
        out = []
        for line in text.splitlines():
            t = line.split()
            if len(t) in (2, 3) and not line.startswith("#"):
                out.append({"s": self.pos[int(t[0])], "d": self.pos[int(t[1])], "k": int(t[2]) if len(t) > 2 else 1})
        return out

    def tok(self, text):
        # the time of writing is noted in comments
        text = re.sub(r"^#.*\n", "", text, flags=re.M)
        if text in self.names:
            return self.names[text]
        return "x" + hashlib.sha256(text.encode()).hexdigest()[:10]

    def record(self):
        lib = {r: self.tok(t) for r, t in self.lib.items()}
        return {"g": self.g, "a": self.a, "algo": self.algo, "tol": [round(1000 * t) if t else 2000000000 for t in self.tol], "lib": {**lib, "abs": "any", "veh": "any"}}

    def lists(self):
        out = {}
        for t in (self.list, EMPTY, self.lib["pairs"]):
            out[self.tok(t)] = self.pairs(t)
        return [{"tok": k, "pairs": v} for k, v in out.items()]


EMPTY = "# pairs\n0\n"
OLD = "was there before\n"


class History:
    def __init__(self, id, world, steps, plain=False):
        """steps: ("prepare", run, fresh?) or ("run", run)"""
        self.id, self.w, self.steps, self.plain = id, world, steps, plain
        self.loud = random.Random(id + 7)

    def raw(self):
        return {"id": self.id, "steps": self.steps, "plain": self.plain, "map": self.w.map, "configs": [self.w.config(s[1]) for s in self.steps if s[0] == "prepare"]}

    def prepare(self, d, r, fresh):
        """writes what the run is given; only the config unless fresh"""
        w, bad = self.w, {x["p"]: x["k"] for x in r["bad"]}
        touched = []

        def put(path, text):
            p = os.path.join(d, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
            touched.append(path)
        if bad.get("config") != "absent":
            y = w.config(r)
            put("c.txt" if bad.get("config") == "ext" else r["lay"]["cfg"], y if bad.get("config") != "broken" else y + "x: [1\n y: }\n")
        elif os.path.exists(os.path.join(d, r["lay"]["cfg"])):
            os.unlink(os.path.join(d, r["lay"]["cfg"]))
            touched.append(r["lay"]["cfg"])
        if fresh:
            if bad.get("map") != "absent":
                put("m.txt" if bad.get("map") == "ext" else r["lay"]["map"], w.map if bad.get("map") != "malformed" else w.map.rsplit(" ", 1)[0] + "\n")
            if r["input"] != "absent":
                put(r["lay"]["in"], {"list": w.list, "empty": EMPTY, "malformed": w.malformed, "unknown": w.unknown}[r["input"]])
            for p in r["old"]:
                put(p, OLD)
        return touched

    def snap(self, d):
        out = {}
        for p, ds, fs in os.walk(d):
            for x in ds:
                out[os.path.relpath(os.path.join(p, x), d)] = "dir"
            for x in fs:
                with open(os.path.join(p, x), errors="replace") as f:
                    out[os.path.relpath(os.path.join(p, x), d)] = self.w.tok(f.read())
        return out

    def execute(self, binary):
        d = scratch("tool-")
        ev, self.obs = [], []
        try:
            for step in self.steps:
                r = step[1]
                if step[0] == "prepare":
                    touched = self.prepare(d, r, step[2])
                    if step[2] == "again":
                        # what the last run wrote is put away
                        for p in list(self.snap(d)):
                            if p not in before:
                                q = os.path.join(d, p)
                                if os.path.isfile(q):
                                    os.unlink(q)
                                    touched.append(p)
                    ev.append({"op": "prepare", "touched": touched, "after": self.snap(d)})
                    before = ev[-1]["after"]
                    continue
                bad = {x["p"]: x["k"] for x in r["bad"]}
                cmd = [binary]
                args = [["--config", "c.txt" if bad.get("config") == "ext" else r["lay"]["cfg"]]] if bad.get("cli") != "no-config" else []
                args += [[FLAGS[t]] for t in r["asked"]]
                args += [["--log", "LOUD"]] if bad.get("cli") == "log-level" else []
                # what is told changes nothing that is done; the answers are told from INFO on
                if bad.get("cli") != "log-level" and self.loud.random() < .4:
                    args.append(["--log", self.loud.choice(["DEBUG", "TRACE", "debug", "Info"] + ([] if "routing" in r["asked"] else ["WARN", "ERROR", "error"]))])
                if bad.get("cli") == "unknown-flag":
                    args.append(["--writing_everything"])
                random.Random(self.id).shuffle(args)
                for a in args:
                    cmd += a
                env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_SCHED", "RUST_"))}
                env["RUST_BACKTRACE"] = "0"
                try:
                    p = subprocess.run(cmd, cwd=d, env=env, preexec_fn=_lim, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       text=True, errors="replace", timeout=30)
                    rc, out = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, out = None, ""
                self.obs.append({"cmd": cmd[1:], "rc": rc, "out": out[-1500:]})
                res = "hangs" if rc is None else "ok" if rc == 0 else "killed" if rc < 0 else "err"
                e = {"op": "run", "asked": r["asked"], "bad": r["bad"], "lay": r["lay"], "veh": r["veh"], "res": res, "after": self.snap(d),
                     "answers": self.answers(out), "W": [], "V": []}
                if res == "ok" and "evaluate" in r["asked"]:
                    self.workloads(d, r["lay"], e)
                ev.append(e)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return {"id": self.id, "plain": self.plain, "world": self.w.record(), "lists": self.w.lists(), "ev": ev}

    def answers(self, out):
        A = []
        for line in out.splitlines():
            if re.search(r"\b(DEBUG|TRACE)\b", line[:60]):
                continue
            ids = re.findall(r"\bid: (-?\d+)", line)
            if len(ids) != 2:
                continue
            s, d = (self.w.pos.get(int(x), 0) for x in ids)
            m = re.search(r"costs[^\[]*\[([^\]]*)\]", line, re.I)
            if m:
                try:
                    c = [num(float(x)) for x in m.group(1).split(",")]
                except ValueError:
                    c = []
                A.append({"s": s, "d": d, "found": True, "c": c if len(c) == self.w.dim else [BAD] * self.w.dim})
            elif re.search(r"\bno path", line, re.I):
                A.append({"s": s, "d": d, "found": False, "c": []})
        return A

    def workloads(self, d, lay, e):
        rd = lambda fn: open(os.path.join(d, fn)).read() if os.path.isfile(os.path.join(d, fn)) else ""
        by = {}
        for line in rd(lay["abs"]).splitlines()[1:]:
            t = re.split(r"[\s,;]+", line.strip())
            if len(t) == 2 and re.fullmatch(r"\d+", t[0]) and re.fullmatch(r"\d{1,9}", t[1]):
                by[int(t[0])] = int(t[1])
        e["W"] = [by.get(i, -1) for i in self.w.eids]
        V = {}
        if e["veh"]:
            for m in re.finditer(r'<vehicle id="(-?\d+)->(-?\d+)"[^>]*>(.*?)</vehicle>', rd(lay["veh"]), re.S):
                walk = tuple(self.w.pos.get(int(x), 0) for x in re.findall(r'<node id="(-?\d+)"/>', m.group(3)))
                k = (self.w.pos.get(int(m.group(1)), 0), self.w.pos.get(int(m.group(2)), 0), walk)
                V[k] = V.get(k, 0) + 1
        e["V"] = [{"s": s, "d": d_, "walk": list(w), "k": k} for (s, d_, w), k in sorted(V.items())]


def _work(args):
    hs, binary = args
    return [(h.execute(binary[h.plain]), h.obs) for h in hs]


def execute_all(hs, binary):
    """in several processes: starting processes and reading directories keeps one interpreter busy"""
    parts = [hs[i::8 * NPROC] for i in range(8 * NPROC)]
    out = {}
    with ProcessPoolExecutor(NPROC, mp_context=multiprocessing.get_context("fork")) as ex:
        for part, res in zip(parts, ex.map(_work, [(p, binary) for p in parts])):
            for h, (t, obs) in zip(part, res):
                h.obs = obs
                out[h.id] = t
    return [out[h.id] for h in hs]
