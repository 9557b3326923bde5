"""C12"""
import random
from vlib import *
from gen_fs import *


def run_C12(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    ex, pa, sz, bf = ("1, 2, 3", "1, 2, 3", 4, 3) if thorough else ("1, 2, 3", "1, 2", 3, 2)
    rep.model("ExportProtocol", tlc("ExportProtocol", "SPECIFICATION Spec\nINVARIANT SuccessIsComplete\nPROPERTY NeverOverwritten\nPROPERTY Ends\n"
              f"CONSTANTS\nExporters = {{{ex}}}\nPaths = {{{pa}}}\nSize = {sz}\nBuffer = {bf}\nCHECK_DEADLOCK FALSE\n"))
    names = NAMES[:10] + ["sub/a.fmi", "no/a.csv"] if not thorough else NAMES
    k = ", ".join(f'"{x}"' for x in KINDS)
    n = ", ".join(f'"{x}"' for x in ["a.fmi", "a.csv", "a.route-pairs", "a.FMI", "a.txt"] + (["a", "sub/a.csv", "a.CSV"] if thorough else []))
    hs = tlc("GenExportFs", f"SPECIFICATION Spec\nCONSTANTS\nKinds = {{{k}}}\nNames = {{{n}}}\nK = 2\nCHECK_DEADLOCK FALSE\n").outfile
    cases = [listed_case(i, rng, h["h"]) for i, h in enumerate(hs)]
    rep.extra["enumerated_histories"] = len(cases)
    for i in range(4000 if thorough else 400):
        cases.append(fs_case(len(cases), rng, rng.randint(4, 14)))
    rep.assumptions += ["a full device is simulated by a limit on the size of files (RLIMIT_FSIZE); concurrent exports are covered by the model only"]
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.traces_run("TraceFs", validate("TraceFs", traces), traces, raw, obs)
