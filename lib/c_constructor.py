"""C22"""
import random
from vlib import *
from gen_constructor import *
from c_tool import binary


def run_C22(rep, thorough, seed):
    exe = binary("multi-ch-constructor")
    rng = random.Random(seed)
    rep.model(f"ConstructorDesign(MaxDim={4 if thorough else 2})",
              tlc("ConstructorDesign", "SPECIFICATION Spec\nINVARIANTS CallsAreAsSaid EndsAsSaid Fits SuccessMeansContracted\nPROPERTIES Ends\n"
                  f"CONSTANTS\nMaxDim = {4 if thorough else 2}\nCHECK_DEADLOCK FALSE\n"))
    gen = tlc("GenConstructor", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n").outfile[0]
    cfgs, faults = sorted(gen["cfgs"], key=str), sorted(gen["faults"], key=str)
    rep.extra["enumerated"] = {"configs": len(cfgs), "faults": len(faults)}
    none = next(f for f in faults if f["where"] == "none")
    plan = [(c, none) for c in cfgs for _ in range(6 if thorough else 1)]
    plan += [(c, f) for f in faults if f != none for c in (cfgs if thorough else rng.sample(cfgs, 12))]
    hs = [Wrap(i, rng, c, f) for i, (c, f) in enumerate(plan)]
    traces = wrap_all(hs, exe)
    rep.traces_run("TraceConstructor", validate("TraceConstructor", traces), traces, {h.id: h.raw() for h in hs}, {h.id: h.obs for h in hs})
    ends = [t["ev"][0]["res"] for t in traces]
    rep.extra["runs_of_the_wrapper"] = {k: ends.count(k) for k in sorted(set(ends))}
    rep.assumptions += ["cmake and multi-ch are stand-ins that record how they are called", "empty arguments and arguments the specification doesn't know are not judged"]
