"""Shared machinery of all checks: building the harness from /repo's working tree, running cases
against the real code, running TLC, reporting and evidence."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
NPROC = os.cpu_count() or 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BAD = -999999999   # projection of anything that is not a number of the expected kind
INFTY = 2000000000 # projection of +inf


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def _tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "nd-stub", "src"), os.path.join(VERIF, "sched", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"),
             os.path.join(VERIF, "harness", "Cargo.toml"), os.path.join(VERIF, "harness", "build.rs")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for x in sorted(fs):
                files.append(os.path.join(d, x))
    for p in files:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except FileNotFoundError:
            h.update(b"absent")
    return h.hexdigest()


def build(bins=("vh",), hooks=True, dim=None):
    """Builds the harness binaries from the current tree. Freshness is decided by content.
    dim: the number of metrics to compile for (the build's GRAPH_DIM), or "plain" for the default build without
    the gpl-part; these builds share a target"""
    target = TARGET if dim is None else f"{TARGET}-dim"
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "verif-stamp")
    now = _tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("osmgraphing-", "verif-harness-", "verif-sched-", "nd-triangulation-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
    env = {k: v for k, v in os.environ.items()
           if k not in ("GRAPH_DIM", "RUST_LOG", "RUSTC", "RUSTDOC", "RUSTFLAGS", "LD_LIBRARY_PATH")}
    env.update(HOME="/root", PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="1.63.0",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=target, RUST_BACKTRACE="0")
    if dim not in (None, "plain"):
        env["GRAPH_DIM"] = str(dim)    # the explorator isn't built for many metrics
    if not hooks:
        env["VERIF_NO_HOOKS"] = "1"
    cmd = ["cargo", "--config", "/opt/vp/cargo-offline.toml", "build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    if dim is not None:
        cmd.append("--no-default-features")
    t = time.time()
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("building the harness failed")
    with open(stamp, "w") as f:
        f.write(now)
    for b in bins if dim is not None else ():
        os.replace(os.path.join(target, "debug", b), bin_path(b, dim))
    log(f"built {', '.join(bins)} in {time.time()-t:.1f}s")


def bin_path(name, dim=None):
    return os.path.join(TARGET, "debug", name) if dim is None else os.path.join(f"{TARGET}-dim", f"{name}-{dim}")


def scratch(prefix="verif-"):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


# ------------------------------------------------------------------ running cases
def _limit(memory=2 << 30):
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_chunk(binary, cases, op_timeout, extra_env, memory=2 << 30):
    """Runs the cases one after another in one process; restarts behind a case that ends the process."""
    out = {}
    todo = list(cases)
    while todo:
        d = scratch()
        try:
            inp = "".join(json.dumps(c) + "\n" for c in todo)
            env = dict(os.environ)
            env.update(extra_env or {})
            p = subprocess.Popen([binary, d, str(op_timeout)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, preexec_fn=lambda: _limit(memory), env=env)
            try:
                so, _ = p.communicate(inp, timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                so, _ = p.communicate()
            n = 0
            for line in so.splitlines():
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                out[r["id"]] = r["obs"]
                n += 1
            if n < len(todo) and p.returncode != 3:
                # the process died in the middle of case n
                out[todo[n]["id"]] = [{"crash": p.returncode}]
                n += 1
            todo = todo[n:]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


def run_cases(cases, binary="vh", op_timeout=20, procs=None, env=None, memory=2 << 30):
    procs = procs or NPROC
    if not cases:
        return {}
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "case-ids are unique"
    k = max(1, min(procs * 4, (len(cases) + 19) // 20))
    chunks = [cases[i::k] for i in range(k)]
    res = {}
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(lambda ch: _run_chunk(bin_path(*binary) if isinstance(binary, tuple) else bin_path(binary), ch, op_timeout, env, memory), chunks):
            res.update(r)
    for c in cases:
        for o in res[c["id"]]:
            if isinstance(o, dict) and str(o.get("panic", "")).startswith("HARNESS:"):
                raise ToolError("harness: " + o["panic"])
    return res


# ------------------------------------------------------------------ projection
def num(x, scale=1):
    """float of the implementation -> integer of the specification (in units of 1/scale)"""
    if isinstance(x, bool) or x is None:
        return BAD
    if isinstance(x, str):
        return INFTY if x == "inf" else BAD
    v = x * scale
    if scale == 1:
        if v != int(v):
            return BAD
        r = int(v)
    else:
        r = int(round(v))
    return r if abs(r) < 2000000000 else BAD


def failed(o):
    """crash/panic/hang of an operation, or None"""
    for k in ("panic", "crash", "hang"):
        if k in o:
            return k
    return None


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.viol = []      # (case, step, [clauses])
        self.generated = 0
        self.distinct = 0
        self.out = ""
        self.wall = 0.0
        self.violated = False
        self.stats = {}


def tlc(module, cfg, data=None, workers=None, timeout=800, extra=(), heap="12g", deque=False):
    """Runs TLC on spec/<module>.tla with the text of a configuration. data: {ENVNAME: list of records}"""
    d = scratch("tlc-")
    try:
        for fn in os.listdir(SPEC):
            if fn.endswith(".tla"):
                os.symlink(os.path.join(SPEC, fn), os.path.join(d, fn))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        env = dict(os.environ)
        for name, recs in (data or {}).items():
            p = os.path.join(d, name.lower() + ".ndjson")
            if isinstance(recs, str):
                p = recs
            else:
                with open(p, "w") as f:
                    for r in recs:
                        f.write(json.dumps(r) + "\n")
            env[name] = p
        env["OUTFILE"] = os.path.join(d, "out.ndjson")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"),
                "-workers", str(workers or NPROC), "-noTE" if False else "-nowarning", *extra, module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} exceeded {timeout}s")
        r = TlcResult()
        r.wall = time.time() - t
        r.out = p.stdout
        for line in p.stdout.splitlines():
            line = line.strip()
            if line.startswith('"VIOL|') and line.endswith('"'):
                _, c, l, cl = line[1:-1].split("|", 3)
                r.viol.append((int(c), int(l), sorted(re.findall(r'[A-Za-z0-9_:.\-]+', cl.replace('\\"', '')))))
            elif line.startswith('"STAT|'):
                _, k, v = line[1:-1].split("|", 2)
                r.stats.setdefault(k, []).append(v)
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                r.generated = int(m.group(1).replace(",", ""))
                r.distinct = int(m.group(2).replace(",", ""))
            m = re.match(r"The number of states generated: ([\d,]+)", line)
            if m:
                r.generated = r.distinct = int(m.group(1).replace(",", ""))
        r.viol = sorted(set((c, l, tuple(k)) for c, l, k in r.viol))
        r.violated = "is violated" in p.stdout or "was violated" in p.stdout or "Temporal properties were violated" in p.stdout
        completed = "Model checking completed" in p.stdout or "Finished in" in p.stdout
        fatal = [l for l in p.stdout.splitlines() if l.startswith("Error:") and "is violated" not in l and "behavior up to" not in l
                 and "The following behavior" not in l and "Temporal properties" not in l and "Deadlock" not in l]
        r.deadlock = "Deadlock reached" in p.stdout
        if not completed or (fatal and not r.violated) or p.returncode not in (0, 10, 11, 12, 13):
            raise ToolError(f"TLC on {module} failed (exit {p.returncode}):\n" + p.stdout[-3500:])
        if os.path.exists(env["OUTFILE"]):
            with open(env["OUTFILE"]) as f:
                r.outfile = [json.loads(x) for x in f if x.strip()]
        else:
            r.outfile = None
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, cases, constants="", timeout=800):
    """Trace validation: every record of `cases` is one recorded behaviour; TLC decides."""
    cfg = "SPECIFICATION TraceSpec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n" + constants
    return tlc(module, cfg, {"CASES": cases}, extra=("-continue",), timeout=timeout)


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.findings = load_findings(prop)
        self.seen = set()

    def model(self, name, r):
        """a design-level model-checking run"""
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", []).append({"model": name, "distinct_states": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)})
        if r.violated or r.deadlock:
            sys.stderr.write(r.out[-3000:])
            raise ToolError(f"the specification {name} violates its own properties")

    def traces_run(self, name, r, cases, raw, obs, describe=None):
        """the result of a trace validation"""
        if cases and not any(c.get("ev", True) for c in cases):
            raise ToolError("nothing was observed")
        self.states += r.distinct
        self.transitions += r.generated
        bad = {}
        for c, l, clauses in r.viol:
            bad.setdefault(c, []).append((l, clauses))
        nontool = [x for x in bad.items() if any(k.startswith("GEN_") for _, ks in x[1] for k in ks)]
        if nontool:
            raise ToolError(f"generated case outside the preconditions: {nontool[:3]}")
        self.traces += len(cases) - len(bad)
        self.extra.setdefault("runs", []).append({"spec": name, "traces": len(cases), "rejected": len(bad), "distinct_states": r.distinct, "wall_s": round(r.wall, 1)})
        if cases and len(self.samples) < 3:
            self.samples.append({"spec": name, "trace": shorten(cases[min(len(cases) - 1, 1 + self.seed % max(1, len(cases)))])})
        for c, steps in sorted(bad.items()):
            case = cases[c - 1]
            clauses = sorted({k for _, ks in steps for k in ks})
            key = case.get("key")
            self.violation(clauses, {"spec": name, "steps": [[l, list(ks)] for l, ks in steps], "trace": case,
                                     "case": raw.get(case["id"]) if raw else None, "obs": obs.get(case["id"]) if obs else None}, key)

    def violation(self, clauses, payload, key=None):
        for fd in self.findings:
            if fd.get("status") == "known" and key is not None and fd.get("key") == key and set(clauses) <= set(fd.get("clauses", [])):
                self.known.append(fd)
                return
        self.violations.append((clauses, payload))

    def finish(self, level="model_checking"):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for fn in os.listdir(rdir):
            if fn.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, fn))
        for fd in {json.dumps(x, sort_keys=True) for x in self.known}:
            log(f"KNOWN-FINDING: property={self.prop} {json.loads(fd)['what']}")
        shown = {}
        for i, (clauses, payload) in enumerate(self.violations):
            k = tuple(clauses)
            shown[k] = shown.get(k, 0) + 1
            if shown[k] > 2 or len(shown) > 8:
                continue
            path = os.path.join(rdir, f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "clauses": clauses, "tier": self.tier, "seed": self.seed, **payload}, f, indent=1)
            log(f"violated clauses: {', '.join(clauses)}")
            log(f"VIOLATION property={self.prop} replay={path}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"none": True}], **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.prop} {self.tier}: states={self.states} traces={self.traces} violations={len(self.violations)} wall={ev['wall_s']}s")
        return 1 if self.violations else 0


def shorten(x, depth=0):
    s = json.dumps(x)
    if len(s) <= 4000:
        return x
    return s[:4000] + "..."


def load_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]
