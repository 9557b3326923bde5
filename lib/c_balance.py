"""C16 (multi-threaded counting)."""
import random
from vlib import *
from gen_balance import *


def model(rep, nw, total, i, p, m, fail):
    rep.model(f"MasterWorker(NW={nw},Total={total},Init={i},Fail={fail})",
              tlc("MasterWorker", "SPECIFICATION Spec\nINVARIANTS Conservation OkIsComplete FailureReported NoFailureNoError PackagesNotEmpty\n"
                  "PROPERTIES Terminates WorkersStop\nCONSTANTS\n"
                  f"NW = {nw}\nTotal = {total}\nInitSize = {i}\nPlus = {p}\nMinus = {m}\nMayFail = {'TRUE' if fail else 'FALSE'}\nHistory = FALSE\nCHECK_DEADLOCK FALSE\n"))


def schedules(nw, total, simulate=None, seed=1):
    cfg = ("SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS\n"
           f"NW = {nw}\nTotal = {total}\nInitSize = 50\nPlus = 30\nMinus = 10\nMayFail = FALSE\nHistory = TRUE\nCHECK_DEADLOCK FALSE\n")
    if simulate:
        r = tlc("MasterWorker", cfg, extra=("-simulate", f"num={simulate}", "-depth", "2000", "-seed", str(seed)), workers=1)
    else:
        r = tlc("MasterWorker", cfg)
    return ["actors:" + re.sub(r"[<> ]", "", s) for s in r.stats.get("sched", [])]


def run_C16(rep, thorough, seed):
    hooked = True
    try:
        build(("vh", "osmgraphing"))
    except ToolError:
        # a scheduler that doesn't fit to the code leaves natural schedules
        hooked = False
        build(("vh", "osmgraphing"), hooks=False)
    rng = random.Random(seed)
    for a in [(1, 6, 2, 2, 1), (2, 8, 2, 2, 1), (3, 7, 2, 2, 1), (3, 14, 3, 1, 1)] + ([(4, 14, 3, 2, 1), (4, 24, 3, 1, 2)] if thorough else []):
        model(rep, *a, False)
        model(rep, *a, True)
    model(rep, 3, 120, 50, 30, 10, True)
    runs = []
    algos = ["Dijkstra", "Dijkstra", "CHDijkstra", "CHDijkstra", "Explorator", "ExploratorCH"]

    def add(threads, sched, npairs, **kw):
        runs.append(Run(len(runs), rng, threads, sched if hooked else None, npairs, kw.pop("algo", rng.choice(algos)), kw.pop("collect", rng.random() < .7), **kw))

    enum = [(2, 55, None), (2, 82, None), (3, 60, None), (4, 60, None), (3, 140, 60)]
    if thorough:
        enum += [(2, 90, None), (3, 90, None), (5, 60, None), (2, 300, 600), (3, 200, 600), (4, 250, 600)]
    for nw, total, sim in enum:
        ss = schedules(nw, total, sim, seed)
        rep.extra.setdefault("schedules_from_model", {})[f"{nw} workers, {total} pairs"] = len(ss)
        if len(ss) > (1500 if thorough else 60):
            ss = rng.sample(ss, 1500 if thorough else 60)
        for s in ss:
            add(nw, s, total)
    for i in range(2500 if thorough else 150):
        add(rng.choice([1, 2, 2, 3, 4, 7]), f"rand:{rng.randint(1, 10**6)}" + rng.choice(["", "", ":3", ":10"]), rng.choice([0, 1, 2, 10, 49, 50, 51, 60, 90, 130, 200]))
    # workers that fail
    for i in range(1000 if thorough else 100):
        n = rng.choice([1, 5, 50, 60, 90, 140])
        add(rng.choice([1, 2, 3, 4]), f"rand:{rng.randint(1, 10**6)}" + rng.choice(["", ":4"]), n, unknown_at=rng.choice([0, n // 2, n - 1, rng.randrange(n)]))
    # a master that always waits, workers that always wait, and long lists
    for i in range(120 if thorough else 24):
        w = rng.choice([1, 2, 3, 5])
        add(w, rng.choice(["actors:", "actors:" + ",".join(["5,4,3,2,1"] * 200), f"rand:{i}", f"rand:{i}:20"]), rng.choice([300, 700, 1500]), counts=[0, 1, 1])
    # threads running freely
    for i in range(500 if thorough else 60):
        n = rng.choice([1, 50, 60, 90, 200])
        add(rng.choice([1, 2, 3, 4, 8]), None, n, unknown_at=rng.randrange(n) if i % 5 == 0 else None)
    # many vehicles per pair
    for i in range(200 if thorough else 20):
        add(rng.choice([1, 2, 4]), f"rand:{rng.randint(1, 10**6)}", rng.choice([3, 60]), counts=[0, 1, 17, 100])
    decide(rep, "TraceBalance(decided schedules)" if hooked else "TraceBalance(natural schedules)", runs, bin_path("osmgraphing"))
    rep.extra["decisions_per_run_max"] = rep.extra.get("decisions_per_run_max", 0)
    rep.assumptions += ["threads are switched at channel-operations, spawns and joins only: workers share no other mutable state"]
    if not hooked:
        rep.assumptions.append("the decided scheduler could not be built with this tree: natural schedules only")


def decide(rep, name, runs, binary):
    obs = execute_all(runs, binary)
    ex = [r for r in runs if r.algo == "Explorator" and r.collect and not r.unknown]
    eobs = run_cases([r.explore() for r in ex]) if ex else {}
    traces = []
    for r in runs:
        al = r.allowed(eobs[r.id]) if r.id in eobs else []
        traces.append(r.trace(obs[r.id], al if al is not None else []))
    rep.extra["distinct_schedules"] = len({o["distinct"] for o in obs.values() if o["distinct"]})
    rep.extra["decisions_per_run_max"] = max(o["decisions"] for o in obs.values())
    rep.extra["results"] = {k: sum(o["res"] == k for o in obs.values()) for k in sorted({o["res"] for o in obs.values()})}
    rep.traces_run(name, validate("TraceBalance", traces), traces, {r.id: r.raw() for r in runs}, {i: {k: v for k, v in o.items() if k != "distinct"} for i, o in obs.items()})
