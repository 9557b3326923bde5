"""C22: runs of the binary that wraps the external constructor, in a scratch directory with stand-ins for cmake and multi-ch."""
import json, multiprocessing, os, shutil, subprocess, sys
from concurrent.futures import ProcessPoolExecutor
from vlib import *
from maps import *
from gen_balance import _lim

G = 10**9
STUB = r'''#!%s -SE
import json, os, signal, sys
tool, args, fault = os.path.basename(sys.argv[0]), sys.argv[1:], os.environ["STUB_FAULT"]
step = "contract" if tool == "multi-ch" else "make" if "--build" in args else "configure"
with open(os.environ["STUB_LOG"], "a") as f:
    f.write(json.dumps({"step": step, "cwd": os.getcwd(), "args": args}) + "\n")
if fault == step + "@fails":
    sys.exit(7)
if fault == step + "@killed":
    os.kill(os.getpid(), signal.SIGKILL)
if step == "configure":
    os.makedirs("build", exist_ok=True)
    for name in ("CMakeCache.txt", "Makefile"):
        with open(os.path.join("build", name), "w") as f:
            f.write("\n".join(args) + "\n")
if step == "make" and os.environ["STUB_BIN"]:
    src, dst = os.environ["STUB_BIN"].split("|")
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.rename(src, dst)
if step == "contract":
    with open(args[args.index("--text") + 1]) as f:
        t = f.read()
    with open(args[args.index("--write") + 1], "w") as f:
        f.write("contracted\n" + t)
'''


class Wrap:
    def __init__(self, id, rng, opts, fault):
        self.id, self.rng, self.fault = id, rng, fault
        self.text, self.write = rng.choice(["map.fmi", "in/map.fmi", "in/deep/some map.fmi"]), rng.choice(["map.ch.fmi", "in/c.fmi", "in/out.txt"])
        self.cfg = {**opts, "text": self.text, "write": self.write}
        self.name = "c.txt" if fault["kind"] == "other-extension" else rng.choice(["c.yaml", "c.YAML", "in/c.yaml"])
        self.old = rng.random() < .3      # the contracted map is there already
        self.built = rng.random() < .5    # the constructor has been built before
        self.files = {self.text: f"1\n0\n0\n# {rng.randint(0, 10**6)}\n", "in/other.txt": "kept\n"}
        if self.old:
            self.files[self.write] = "older\n"
        if fault["kind"] != "file-absent":
            self.files[self.name] = self.config()

    def config(self):
        c, k, rng = self.cfg, self.fault["kind"], self.rng
        dec = lambda x, s: f"{x / s:.9f}".rstrip("0").rstrip(".") if x % s else str(x // s)
        items = [("no-map", f"fmi-graph: '{self.text}'"), ("no-target", f"contracted-graph: '{self.write}'"),
                 ("no-dimension", "dimension: " + {"dimension-is-text": "'many'", "dimension-is-negative": "-1"}.get(k, str(c["dim"]))),
                 ("no-ids", "is_printing_osm-ids: " + ("'perhaps'" if k == "ids-is-text" else str(c["ids"]).lower())),
                 ("no-ext", f"is_using_external_edge-ids: {str(c['ext']).lower()}")]
        if k == "accuracy-is-text":
            items.append(("", "cost-accuracy: 'fine'"))
        elif c["acc"]:
            items.append(("", "cost-accuracy: " + dec(c["acc"][0], G)))
        if c["ratio"]:
            items.append(("", f"contraction-ratio: '{dec(c['ratio'][0], 1000)}'"))
        if c["threads"]:
            items.append(("", f"number_of_threads: {c['threads'][0]}"))
        if k == "unknown-key":
            items.append(("", rng.choice(["threads: 3", "dimensions: 3", "fmi_graph: 'x'"])))
        if k == "map-twice":
            items.append(("", "fmi-graph: 'in/other.txt'"))
        rng.shuffle(items)
        s = ("multi-ch-constructors" if k == "no-section" else "multi-ch-constructor") + ":\n" + "".join(f"  {x}\n" for n, x in items if n != k)
        if k == "no-yaml":
            s = s.replace("dimension: ", "dimension: [")
        rest = [x for x in ("routing:\n  algorithm: 'Dijkstra'\n  metrics: []\n", "parsing:\n  map-file: 'in/x.fmi'\n  threads: 3\n") if rng.random() < .4]
        secs = rest + [s]
        rng.shuffle(secs)
        return "".join(secs)

    def raw(self):
        return {"id": self.id, "cfg": self.cfg, "fault": self.fault, "files": self.files}

    def snap(self, d):
        out = {}
        for p, _, fs in os.walk(d):
            for x in fs:
                q = os.path.join(p, x)
                with open(q, errors="replace") as f:
                    out[os.path.relpath(q, d)] = f.read()
        return out

    def call(self, raw, d):
        """one call of an external tool, as the specification knows it"""
        a, e = raw["args"], {"step": raw["step"]}
        at = lambda k: a[a.index(k) + 1] if a.count(k) == 1 and a.index(k) + 1 < len(a) else None
        if e["step"] == "configure":
            defs = {}
            for i, x in enumerate(a):
                y = a[i + 1] if x == "-D" and i + 1 < len(a) else x[2:] if x.startswith("-D") else ""
                if "=" in y:
                    n, v = y.split("=", 1)
                    defs.setdefault(n.split(":")[0], []).append(v)
            one = lambda n: defs[n][0] if len(defs.get(n, [])) == 1 else ""
            e["dim"] = int(one("GRAPH_DIM")) if one("GRAPH_DIM").isdigit() else -1
            e["acc"] = self.dec(one("COST_ACCURACY"), G)
        elif e["step"] == "contract":
            n = lambda k: int(at(k)) if (at(k) or "").isdigit() else -1
            rel = lambda p: "" if p is None else os.path.relpath(os.path.join(raw["cwd"], p), os.path.realpath(d))
            e.update(text=rel(at("--text")), write=rel(at("--write")), ratio=self.dec(at("--percent"), 1000), threads=n("--threads"),
                     ids="--using-osm-ids" in a, ext="--external-edge-ids" in a)
        return e

    def dec(self, s, scale):
        try:
            return num(float(s), scale)
        except (ValueError, TypeError):
            return -1

    def execute(self, binary):
        top = scratch("wrap-")
        d = os.path.join(top, "w")
        try:
            for path, t in self.files.items():
                os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
                with open(os.path.join(d, path), "w") as f:
                    f.write(t)
            os.makedirs(os.path.dirname(os.path.join(d, self.write)), exist_ok=True)
            stub = STUB % sys.executable
            repo, w, k = os.path.join(d, "externals/multi-ch-constructor"), self.fault["where"], self.fault["kind"]
            gone = lambda step: w == step and k == "absent"
            exe = os.path.join(repo, "build/multi-ch")
            spare = os.path.join(top, "multi-ch")
            os.makedirs(repo)
            place = [os.path.join(top, "bin", "cmake"), exe if self.built and w != "contract" else spare]
            with open(os.path.join(repo, "CMakeLists.txt"), "w") as f:
                f.write("project(x)\n")
            if self.built:      # what an earlier configuration has left, maybe one of other values
                os.makedirs(os.path.join(repo, "build"))
                c = self.rng.choice([self.cfg["dim"], self.cfg["dim"] + 1, 3])
                for name in ("CMakeCache.txt", "Makefile"):
                    with open(os.path.join(repo, "build", name), "w") as f:
                        f.write(f"-Bbuild\n-D\nGRAPH_DIM={c}\n-D\nCOST_ACCURACY=0.25\n")
            for p in place:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(stub)
                os.chmod(p, 0o755)
            log = os.path.join(top, "log")
            path = os.environ.get("PATH", "")
            if gone("configure"):
                how = self.rng.choice(["repo", "cmake"])
                if how == "repo":
                    shutil.rmtree(repo)
                else:
                    os.unlink(place[0])
                    path = os.path.join(top, "none")
            env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_SCHED", "RUST_"))}
            moves = place[1] == spare and not gone("contract")
            # once it is configured, cmake is gone
            env.update(RUST_BACKTRACE="0", PATH=os.path.join(top, "bin") + ":" + path, STUB_LOG=log, STUB_FAULT=f"{w}@{k}", STUB_BIN=f"{spare}|{exe}" if moves else "")
            if gone("make"):
                with open(place[0], "a") as f:
                    f.write("import shutil\nos.unlink(sys.argv[0]) if os.path.isabs(sys.argv[0]) else os.unlink(shutil.which(sys.argv[0]))\n")
                env["PATH"] = os.path.join(top, "bin")
            before = self.snap(d)
            try:
                p = subprocess.run([binary, "--config", self.name, "--log", "ERROR"], cwd=d, env=env, preexec_fn=_lim, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = None, ""
            self.obs = {"rc": rc, "out": out[-1500:]}
            after = self.snap(d)
            drop = lambda s: {p: t for p, t in s.items() if p != self.write and not p.startswith("externals/")}
            calls = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
            self.obs["calls"] = calls
            ev = {"fault": self.fault, "res": "hangs" if rc is None else "ok" if rc == 0 else "killed" if rc < 0 else "err",
                  "calls": [self.call(x, d) for x in calls], "kept": drop(before) == drop(after), "there": after.get(self.write) == "contracted\n" + self.files[self.text]}
            return {"id": self.id, "cfg": self.cfg, "ev": [ev]}
        finally:
            shutil.rmtree(top, ignore_errors=True)


def _work(args):
    hs, binary = args
    return [(h.execute(binary), h.obs) for h in hs]


def wrap_all(hs, binary):
    parts = [p for p in (hs[i::8 * NPROC] for i in range(8 * NPROC)) if p]
    out = {}
    with ProcessPoolExecutor(NPROC, mp_context=multiprocessing.get_context("fork")) as ex:
        for part, res in zip(parts, ex.map(_work, [(p, binary) for p in parts])):
            for h, (t, obs) in zip(part, res):
                h.obs = obs
                out[h.id] = t
    return [out[h.id] for h in hs]
