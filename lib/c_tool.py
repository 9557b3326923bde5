"""C20"""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from gen_tool import *


def binary(name="osmgraphing"):
    try:
        build(("vh", name))
    except ToolError:
        build(("vh", name), hooks=False)
    return bin_path(name)


def plain_binary(name="osmgraphing"):
    """the tool as it is built by default, without its gpl-part"""
    try:
        build((name,), dim="plain")
    except ToolError:
        build((name,), hooks=False, dim="plain")
    return bin_path(name, "plain")


def run_C20(rep, thorough, seed):
    with ThreadPoolExecutor(2) as ex:
        exe = list(ex.map(lambda f: f(), (binary, plain_binary)))
    rng = random.Random(seed)
    for runs, bad, odd in [(1, 1, 1), (2, 1, 0)] + ([(1, 1, 3), (2, 1, 1), (1, 2, 2)] if thorough else []):
        rep.model(f"ToolDesign(MaxRuns={runs},MaxBad={bad},MaxOdd={odd})",
                  tlc("ToolDesign", "SPECIFICATION Spec\nINVARIANTS Keeps OkIsComplete UnaskedIsUntouched Twice PlainRefuses\nPROPERTIES NeverOverwrites\n"
                      f"CONSTANTS\nMaxRuns = {runs}\nMaxBad = {bad}\nMaxOdd = {odd}\nCHECK_DEADLOCK FALSE\n"))
    gen = {x["what"]: x["all"] for x in tlc("GenTool", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n").outfile}
    asked = [sorted(a) for a in gen["asked"]]
    one, two = ([{**x, "asked": a} for a in asked for x in gen[k]] for k in ("one", "two"))
    for x in one + two:
        for k in ("bad", "old"):
            x[k] = sorted(x[k], key=str)
    rep.extra["enumerated"] = {"one": len(one), "two": len(two)}
    default = next(x["lay"] for x in one if x["bad"])
    algos = ["Dijkstra", "CHDijkstra", "Explorator"]
    worlds = [World(i, rng, algos[i % 4] if i % 4 < 3 else None) for i in range(200 if thorough else 32)]
    obs = run_cases([w.lib_case(default) for w in worlds])
    good = [w for w in worlds if w.learn(obs[w.id])]
    rep.extra["worlds"] = [len(worlds), len(good)]
    if len(good) < 8:
        raise ToolError("the library writes nothing to compare with")
    hs = []

    def history(r, w):
        steps = [("prepare", r, True), ("run", r)]
        x = rng.random()
        if x < .35:
            steps.append(("run", r))
        elif x < .5:
            steps += [("prepare", r, "again"), ("run", r)]
        elif x < .8:
            o = {**r, "bad": [y for y in r["bad"] if y["p"] == "map"], "asked": rng.choice(one)["asked"]}
            steps += [("prepare", o, False), ("run", o)]
            if rng.random() < .5:
                o = {**o, "asked": rng.choice(one)["asked"]}
                steps += [("run", o)]
        hs.append(History(len(hs), w, steps))
    # every task-combination without faults in every world, every enumerated run in some world
    plain = [x for x in one if not x["bad"] and x["input"] == "list" and not x["old"] and x["lay"] == default]
    for w in good[:200 if thorough else 10]:
        for r in plain:
            history(r, w)
    for r in one * (4 if thorough else 1):
        history(r, rng.choice(good))
    for r in two if thorough else rng.sample(two, 1200):
        history(r, rng.choice(good))
    # the tool without its gpl-part: whatever it can't do is refused
    unbuilt = [{**x, "asked": sorted({*x["asked"], *more})} for x in plain for more in (["balance"], ["balance", "evaluate"], ["evaluate"])]
    for r in unbuilt + rng.sample(one, len(one) if thorough else 150):
        w = rng.choice(good)
        steps = [("prepare", r, True), ("run", r)] + ([("run", r)] if rng.random() < .3 else [])
        hs.append(History(len(hs), w, steps, plain=True))
    traces = execute_all(hs, exe)
    raw = {h.id: h.raw() for h in hs}
    rep.traces_run("TraceTool", validate("TraceTool", traces), traces, raw, {h.id: h.obs for h in hs})
    evs = [e for t in traces for e in t["ev"] if e["op"] == "run"]
    rep.extra["runs_of_the_tool"] = {k: sum(e["res"] == k for e in evs) for k in sorted({e["res"] for e in evs})}
    rep.extra["answers"] = sum(len(e["answers"]) for e in evs)
    rep.assumptions += ["a faulty section that no asked task needs may be refused or ignored", "a vehicles-file that is already there may block "
                        "an evaluation that does not export vehicles", "with both --routing and --evaluating_balance, pairs need not be answered one by one",
                        "what a failing run leaves in files that were not there before is not judged"]
