"""C13"""
import random
from vlib import *
from gen_read import *
import gen_osm


def run_C13(rep, thorough, seed):
    build()
    rng = random.Random(seed)
    gen = tlc("GenReading", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", {"SHAPES": shapes()}).outfile
    edits = {x["name"]: x["all"] for x in gen if x["what"] == "edits"}
    ncols = [x["all"] for x in gen if x["what"] == "nodes"][0]
    ecols = [x["all"] for x in gen if x["what"] == "edges"][0]
    changes = {x["name"]: x["all"] for x in gen if x["what"] == "config"}
    rep.extra["enumerated"] = {"edits": {k: len(v) for k, v in edits.items()}, "node_columns": len(ncols), "edge_columns": len(ecols),
                               "config_changes": {k: len(v) for k, v in changes.items()}}
    cases = []

    def new():
        cases.append(ReadCase(len(cases)))
        return cases[-1]

    def chunks(l, n=20):
        return [l[i:i + n] for i in range(0, len(l), n)]

    def files(name, base, several):
        """corrupted files: every single edit, some combined ones, every prefix"""
        E = edits[name]
        raw = text(base, random.Random(0))
        out = [text(edit(base, e), rng, 0.0 if rng.random() < 0.7 else 0.3) for e in E]
        for _ in range(several):
            b = base
            for e in rng.sample(E, rng.choice([2, 2, 2, 3, 4])):
                b = edit(b, e)
            out.append(text(b, rng, 0.1))
        out += [raw[:k] for k in range(len(raw))]
        for _ in range(several // 4):
            b = bytearray(raw)
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(len(b))
                if rng.random() < 0.5:
                    b[k] = rng.choice([0, 10, 32, 35, 45, 46, 48, 57, 120, 195, 255, 9, 43])
                else:
                    del b[k]
            out.append(bytes(b))
        seen = set()
        return [x for x in out if not (x in seen or seen.add(x))]
    several = 3000 if thorough else 300
    nfiles = 0
    for name, (nc, ec, t) in MAPS.items():
        base = rows(t)
        for ch in chunks(files(name, base, several)):
            c = new()
            c.map(nc, ec, text(base, rng, 0.2), True)
            for raw in ch:
                nfiles += 1
                c.map(nc, ec, raw, cfg=False)
    for name, t in PAIRS.items():
        base = rows(t)
        for ch in chunks(files(name, base, several)):
            c = new()
            c.start_pairs()
            c.pairs(text(base, rng, 0.2), True)
            for raw in ch:
                nfiles += 1
                c.pairs(raw)
    for name, (header, cols, t) in TABLES.items():
        base = rows(t)
        for ch in chunks(files(name, base, several)):
            c = new()
            c.start_table(header, cols)
            c.table(header, cols, text(base, rng, 0.2), True)
            for raw in ch:
                nfiles += 1
                c.table(header, cols, raw)
    rep.extra["files"] = nfiles

    # columns: the file has what the columns say
    value = {"id": ["1", "2", "3"], "lat": ["1.5", "2", "0"], "lon": ["2", "-1", "3.5"], "lvl": ["0", "2", "1"], "ign": ["x", "1", "?"]}
    edge = {"src": ["1", "2", "3", "1"], "dst": ["2", "3", "1", "3"], "m": ["1.5", "2", "3", "3.5"], "sc0": ["-1", "-1", "-1", "0"],
            "sc1": ["-1", "-1", "-1", "1"], "eid": ["4", "7", "0", "2"], "ign": ["x", "1", "?", "a"]}

    def table_of(nc, ec):
        ls = [["", ["3"]], ["", ["4"]]]
        ls += [["", [value[c][k] for c in nc]] for k in range(3)]
        ls += [["", [edge[c][k] for c in ec]] for k in range(4)]
        return text(ls, rng, 0.1)
    combos = [(nc, ["src", "dst", "m"]) for nc in ncols] + [(["id", "lat", "lon"], ec) for ec in ecols]
    combos += [(rng.choice(ncols), rng.choice(ecols)) for _ in range(3000 if thorough else 300)]
    for ch in chunks(combos):
        c = new()
        for nc, ec in ch:
            c.map(nc, ec, table_of(nc, ec))
    # configurations
    nconf = 0
    for sec, chs in changes.items():
        base = section(sec)
        todo = [[x] for x in chs]
        for _ in range(1000 if thorough else 100):
            a, b = rng.sample(chs, 2)
            if apart(a["p"], b["p"]):
                todo.append([a, b])
        for part in chunks(todo):
            c = new()
            c.config(sec, [], emit(base) + "\n", True)
            for ms in part:
                cfg, done = base, []
                for m in ms:
                    x = change(cfg, m)
                    if x is not None:
                        cfg = x
                        done.append(m)
                if not done:
                    raise ToolError(f"no entry for {ms} in {sec}")
                if sec == "routing" and any(m["p"][0] == "parsing" for m in done):
                    continue
                if hollow(cfg):
                    if len(done) > 1:
                        continue
                    # each in a case of its own: see known-findings.json
                    own = new()
                    own.key = "config:empty-mapping-instead-of-a-variant"
                    own.config(sec, done, emit(cfg) + "\n")
                    nconf += 1
                    continue
                nconf += 1
                c.config(sec, done, emit(cfg) + "\n")
    rep.extra["configurations"] = nconf
    # files that are not there, or no files
    c = new()
    nc, ec, t = MAPS["plain"]
    c.op({"op": "file", "path": "g.yaml", "text": columns_cfg(nc, ec)})
    c.op({"op": "parse", "g": "x", "cfg": "g.yaml"}, ("absent",))
    c.op({"op": "mkdir", "path": "g.fmi"})
    c.op({"op": "parse", "g": "x", "cfg": "g.yaml"}, ("absent",))
    c = new()
    c.op({"op": "parse", "g": "x", "cfg": "g.yaml"}, ("absent",))
    for sec in changes:
        if sec != "routing":
            c.op({"op": "cfg", "sec": sec, "cfg": "g.yaml"}, ("absent",))
    c = new()
    c.start_pairs()
    c.op({"op": "proutes", "g": "g", "cfg": "g.yaml"}, ("absent",))
    c.op({"op": "mkdir", "path": "x.route-pairs"})
    c.op({"op": "proutes", "g": "g", "cfg": "g.yaml"}, ("absent",))
    c = new()
    c.start_table(True, ["eid", "m1"])
    c.op({"op": "parse", "g": "t", "cfg": "t.yaml"}, ("absent",))
    c.op({"op": "mkdir", "path": "t.csv"})
    c.op({"op": "parse", "g": "t", "cfg": "t.yaml"}, ("absent",))
    # OSM-files that end too early
    o = gen_osm.single(0, random.Random(7), [{"hw": "primary", "ow": "", "ms": "50", "vehicle": "Car", "picky": False}]).raw()["ops"]
    whole = [x for x in o if x.get("path") == "m.osm.pbf"][0]
    others = [x for x in o if x["op"] == "file" and x is not whole]
    size = len(whole["hex"]) // 2
    for k in range(0, size, 1 if thorough else 5):
        c = new()
        c.key = "pbf:truncated"
        for x in others:
            c.op(x)
        c.op({"op": "file", "path": "m.osm.pbf", "hex": whole["hex"][:2 * k]})
        c.op([x for x in o if x["op"] == "parse"][0], ("any",))
    # prefixes of a configuration: some answer
    for sec in changes:
        full = emit(section(sec))
        c = new()
        for k in range(0, len(full), 1 if thorough else 7):
            c.op({"op": "file", "path": "c.yaml", "text": full[:k]})
            if sec != "routing":
                c.op({"op": "cfg", "sec": sec, "cfg": "c.yaml"}, ("any",))
    raw = {c.id: c.raw() for c in cases}
    obs = run_cases(list(raw.values()))
    traces = [c.trace(obs[c.id]) for c in cases]
    rep.traces_run("TraceReading", validate("TraceReading", traces), traces, raw, obs)
    evs = [e for t in traces for e in t["ev"]]
    rep.extra["answers"] = {k: [sum(1 for e in evs if e["op"] == k and e.get("ok")), sum(1 for e in evs if e["op"] == k and not e.get("ok"))]
                            for k in sorted({e["op"] for e in evs})}
    rep.assumptions += ["a number beyond the range of its type, infinity, ids of the form ch<n>, two node-lines of one id that differ, and shortcuts "
                        "naming only one replaced edge: any orderly answer", "surplus fields and surplus lines mean nothing"]
