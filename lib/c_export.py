"""C09, C10, C11, C19"""
import random
from vlib import *
from gen_export import *


def decide(rep, cases):
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.traces_run("TraceExport", validate("TraceExport", traces), traces, raw, obs)


def enumerate_all(part, n=2, m=3):
    return tlc("GenExport", f'SPECIFICATION Spec\nCONSTANTS\nPart = "{part}"\nLen1 = {n}\nLen2 = {m}\nCHECK_DEADLOCK FALSE\n').outfile


def run(rep, thorough, seed, kinds, count, exhaustive):
    build()
    rng = random.Random(seed)
    rep.model("RoundTrip", tlc("RoundTrip", "SPECIFICATION Spec\nINVARIANTS MapComesBack ColumnsTell\nCONSTANTS\nV = {1, 2}\nM = {1}\nMaxE = 3\nCHECK_DEADLOCK FALSE\n"))
    cases = []
    for part, make in exhaustive(thorough):
        cases += make(len(cases), rng, part)
    rep.extra["exhaustive_cases"] = len(cases)
    cases += [export_case(len(cases) + k, rng, kinds) for k in range(count * (8 if thorough else 1))]
    decide(rep, cases)


def run_C09(rep, thorough, seed):
    run(rep, thorough, seed, ["export_map"], 600, lambda deep: [
        (enumerate_all("nodes", 3 if deep else 2), lambda at, rng, x: all_selections(at, rng, "nodes", x)),
        (enumerate_all("edges", 2), lambda at, rng, x: all_selections(at, rng, "maps", x))])


def run_C10(rep, thorough, seed):
    run(rep, thorough, seed, ["export_table"], 600, lambda deep: [
        (enumerate_all("edges", 3 if deep else 2), lambda at, rng, x: all_selections(at, rng, "table", x))])


def run_C11(rep, thorough, seed):
    run(rep, thorough, seed, ["export_routes", "export_routes", "read_routes"], 600, lambda deep: [
        (enumerate_all("graphs"), all_route_exports), (enumerate_all("files", m=4 if deep else 3), all_route_files)])


def run_C19(rep, thorough, seed):
    run(rep, thorough, seed, ["export_vehicles", "export_workloads"], 600, lambda deep: [(enumerate_all("graphs"), all_vehicles)])
