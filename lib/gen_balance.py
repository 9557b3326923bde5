"""C16: cases for the binary evaluating route-pairs with several threads under a decided schedule."""
import os, random, re, shutil, subprocess, resource
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from maps import *
from gen_routing import random_graph, shaped_graph, contract, coords

SHAPES = ["cycle", "twoway_line", "grid", "bait", "sink", "parts", "parallel", "random", "random"]


ALGOS = {"Dijkstra": "'Dijkstra'", "CHDijkstra": "'CHDijkstra'", "Explorator": "{ Explorator: { algo: 'Dijkstra' } }",
         "ExploratorCH": "{ Explorator: { algo: 'CHDijkstra' } }"}


class Run:
    """one run of the binary"""
    def __init__(self, id, rng, threads, sched, npairs, algo, collect, unknown_at=None, counts=None):
        self.id, self.sched, self.algo, self.collect = id, sched, algo.replace("rCH", "r"), collect
        self.router = "CHDijkstra" if algo.endswith("rCH") else "Dijkstra"
        self.threads = threads
        dim = rng.choice([1, 2, 2, 3])
        n = rng.choice([3, 4, 5, 6])
        wmax = rng.choice([2, 5, 50])
        kind = rng.choice(SHAPES)
        E = random_graph(rng, n, rng.randint(n, 2 * n + 2), dim, wmax) if kind == "random" else shaped_graph(rng, kind, n, dim, wmax)
        E = [e for i, e in enumerate(E) if e not in E[:i] and e[0] != e[1]] or [(1, 2, [1] * dim)]
        n = max(max(e[0], e[1]) for e in E)
        ch = algo in ("CHDijkstra", "ExploratorCH")
        if ch:
            order = list(range(1, n + 1))
            rng.shuffle(order)
            edges, level = contract(n, E, order, dim)
            if len(edges) > 40:
                edges, level = [(u, v, m, None) for u, v, m in E], {v: 0 for v in range(1, n + 1)}
        else:
            edges, level = [(u, v, m, None) for u, v, m in E], {v: 0 for v in range(1, n + 1)}
        ids = [7 * i + 2 for i in range(1, n + 1)]
        rng.shuffle(ids)
        perm = list(range(len(edges)))
        rng.shuffle(perm)
        pos = {p: k for k, p in enumerate(perm)}
        eids = rng.sample(range(1000), len(edges))
        fe = []
        for k, p in enumerate(perm):
            u, v, m, sc = edges[p]
            # shortcuts refer to positions in the file
            fe.append((ids[u - 1], ids[v - 1], m, None if sc is None else (pos[sc[0]], pos[sc[1]]), eids[k]))
        nodes = [(ids[i], *coords(i), level[i + 1]) for i in range(n)]
        rng.shuffle(nodes)
        self.eids = eids
        self.g, used = input_graph(nodes, fe)
        self.pos = {i: k + 1 for k, i in enumerate(used)}
        self.alphas = [1] * dim if rng.random() < .6 else [rng.choice([1, 1, 2, 3]) for _ in range(dim)]
        lines = []
        for i in range(npairs):
            s, d = rng.choice(used), rng.choice(used)
            lines.append((s, d, rng.choice(counts or [1, 1, 1, 2, 3, 0])))
        self.unknown = unknown_at is not None
        if self.unknown and lines:
            i = min(unknown_at, len(lines) - 1)
            s, d, k = lines[i]
            lines[i] = (s, 999983, k) if rng.random() < .5 else (999983, d, k)
        agg = {}
        for s, d, k in lines:
            if s in self.pos and d in self.pos:
                agg[s, d] = agg.get((s, d), 0) + k
        self.pairs = [{"s": self.pos[s], "d": self.pos[d], "k": k} for (s, d), k in sorted(agg.items())]
        y = parsing_cfg(dim, level=True, sc=True, edge_id=True, map_file="g.fmi")
        y += "routing:\n  route-pairs-file: 'p.route-pairs'\n"
        y += f"  algorithm: {ALGOS[algo]}\n  metrics:\n" + "".join(f"  - {{ id: 'm{k}', alpha: {a} }}\n" for k, a in enumerate(self.alphas))
        y += f"evaluating_balance:\n  seed: {rng.randint(0, 10**6)}\n  results-dir: 'out/deep'\n  number_of_threads: {threads}\n  monitoring:\n"
        y += "    edges-info: { file: 'info.csv', with_shortcuts: true, will_denormalize_metrics_by_mean: false, ids: [{ id: 'edge-id' }] }\n"
        y += f"    export_vehicles_for_SMARTS: {'true' if collect else 'false'}\n"
        self.files = {"c.yaml": y, "g.fmi": fmi(nodes, fe, level=True, sc=True, edge_id=True),
                      "p.route-pairs": f"# pairs\n{len(lines)}\n" + "".join(f"{s} {d} {k}\n" for s, d, k in lines)}
        self.lines = lines

    def raw(self):
        return {"id": self.id, "files": self.files, "sched": self.sched, "threads": self.threads}

    def explore(self):
        """the alternatives of each pair, according to the library itself (which C15 judges)"""
        q = [[p["s"] - 1, p["d"] - 1] for p in self.pairs]
        return {"id": self.id, "ops": [{"op": "file", "path": "c.yaml", "text": self.files["c.yaml"]},
                                       {"op": "file", "path": "g.fmi", "text": self.files["g.fmi"]},
                                       {"op": "parse", "g": "g", "cfg": "c.yaml"},
                                       {"op": "explore", "g": "g", "r": "r", "alphas": self.alphas, "algo": self.router, "queries": q}]}

    def allowed(self, obs):
        if len(obs) < 4 or failed(obs[3]) or "found" not in obs[3]:
            return None
        g = obs[2]["graph"]
        out = []
        for p, found in zip(self.pairs, obs[3]["found"]):
            walks = []
            for x in found:
                es = x["flat"]["edges"]
                w = [g["edges"][e]["src"] + 1 for e in es] + [g["edges"][es[-1]]["dst"] + 1] if es else []
                if w not in walks:
                    walks.append(w)
            out.append({"s": p["s"], "d": p["d"], "walks": walks})
        return out

    def trace(self, o, allowed):
        e = {"g": self.g, "a": self.alphas, "algo": self.algo, "pairs": self.pairs, "unknown": self.unknown, "res": o["res"],
             "collect": self.collect, "hasW": o["W"] is not None, "hasveh": False, "V": [], "W": [], "allowed": allowed or []}
        if o["W"] is not None:
            by = {}
            for line in o["W"].splitlines()[1:]:
                t = re.split(r"[\s,;]+", line.strip())
                if len(t) == 2 and re.fullmatch(r"\d+", t[0]) and re.fullmatch(r"\d{1,9}", t[1]):
                    by[int(t[0])] = int(t[1])
            e["W"] = [by.get(i, -1) for i in self.eids]
        if o["V"] is not None:
            e["hasveh"] = True
            V = {}
            for m in re.finditer(r'<vehicle id="(-?\d+)->(-?\d+)"[^>]*>(.*?)</vehicle>', o["V"], re.S):
                walk = tuple(self.pos.get(int(x), 0) for x in re.findall(r'<node id="(-?\d+)"/>', m.group(3)))
                k = (self.pos.get(int(m.group(1)), 0), self.pos.get(int(m.group(2)), 0), walk)
                V[k] = V.get(k, 0) + 1
            e["V"] = [{"s": s, "d": d, "walk": list(w), "k": k} for (s, d, w), k in sorted(V.items())]
        return {"id": self.id, "ev": [e]}


def _lim():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(run, binary):
    global stuck
    if run.sched and stuck < 8:
        o = attempt(run, binary, run.sched, 30)
        if o["res"] != "hangs":
            return o
        # the scheduler decides nothing but channels: only what also hangs without it counts
        stuck += 1
    return attempt(run, binary, None, 30)


stuck = 0


def attempt(run, binary, sched, timeout):
    d = scratch("bal-")
    try:
        for fn, t in run.files.items():
            with open(os.path.join(d, fn), "w") as f:
                f.write(t)
        env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_SCHED")}
        if sched:
            env["VERIF_SCHED"] = sched
            env["VERIF_SCHED_TRACE"] = os.path.join(d, "sched.trace")
        env["RUST_BACKTRACE"] = "0"
        try:
            p = subprocess.run([binary, "--config", "c.yaml", "--evaluating_balance", "--log", "ERROR"], cwd=d, env=env, preexec_fn=_lim,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = None, ""
        if rc is None:
            res = "hangs"
        elif "VERIF-DEADLOCK" in out or rc == 97:
            res = "deadlock"
        elif rc == 0:
            res = "ok"
        elif rc == 101:
            res = "err"
        else:
            res = "killed"
        rd = lambda fn: open(os.path.join(d, fn)).read() if os.path.exists(os.path.join(d, fn)) else None
        dec = rd("sched.trace")
        return {"res": res, "rc": rc, "out": out[-1500:], "W": rd("out/deep/abs_workloads.csv"), "V": rd("out/deep/smarts.xml"),
                "decisions": len(dec.split(",")) - 1 if dec else 0, "distinct": dec}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute_all(runs, binary):
    with ThreadPoolExecutor(NPROC) as ex:
        return dict(zip([r.id for r in runs], ex.map(lambda r: execute(r, binary), runs)))
