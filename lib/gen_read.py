"""Cases for C13: corrupted files and configurations."""
import json, random, re
from vlib import *
from maps import *

TINY = -7
TEXT = {"zero": "0", "one": "1", "two": "2", "negone": "-1", "neg": "-3", "far": "7000", "dec": "0.5", "negdec": "-0.5", "exp": "1e3",
        "word": "abc", "huge": "9" * 30, "umax": str(2 ** 64 - 1), "big": str(10 ** 15), "nbig": str(-10 ** 15), "ch": "ch1", "chw": "chx",
        "nan": "NaN", "inf": "inf", "multi": "ü2", "hex": "0x10", "comma": "1,5", "dash": "-", "plus": "+2", "under": "1_0"}


def ival(x):
    """integers of the files in TLC"""
    if abs(x) < 10 ** 9:
        return x
    return {10 ** 15: 1000000001, -10 ** 15: -1000000001, 2 ** 64 - 1: 1000000002, 2 ** 63 - 1: 1000000003}.get(x, BAD)


def token(s):
    t = {"k": "word", "i": 0, "c": 0, "m": 0, "co": False, "mo": False}
    v = None
    if re.fullmatch(r"[+-]?[0-9]+", s) and s not in ("-0",):
        x = int(s)
        v = float(x)
        if abs(x) < 10 ** 9:
            t["k"] = "int"
        elif 0 < x < 2 ** 63:
            t["k"] = "big"
        elif 2 ** 63 <= x < 2 ** 64:
            t["k"] = "umax"
        elif -2 ** 63 <= x < 0:
            t["k"] = "nbig"
        else:
            t["k"] = "huge"
        t["i"] = ival(x)
    elif re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", s):
        t["k"], v = "dec", float(s)
    elif re.fullmatch(r"[+-]?(inf|infinity)", s, re.I):
        t.update(k="inf", co=True, mo=True)
    elif re.fullmatch(r"[+-]?nan", s, re.I):
        t.update(k="nan", co=True, mo=True)
    elif re.fullmatch(r"ch\+?[0-9]+", s):
        t.update(k="ch", i=int(s[2:]))
    if v is not None:
        if abs(v) <= 200:
            t["c"] = round(v * 10 ** 7)
        else:
            t["co"] = True
        if abs(v) <= 10 ** 6 and (v == 0 or abs(v) >= 0.001):
            t["m"] = round(v * 1000)
        else:
            t["mo"] = True
            if v < 0 and t["k"] == "dec":
                t.update(mo=False, m=-1)   # negative is all that matters
    return t


def lex(raw):
    """bytes of a file -> [(f, tokens)]"""
    out = []
    parts = raw.split(b"\n")
    if parts[-1] == b"":
        parts.pop()
        last_open = False
    else:
        last_open = True
    for i, b in enumerate(parts):
        if b.endswith(b"\r") and not (last_open and i == len(parts) - 1):
            b = b[:-1]
        try:
            x = b.decode("utf-8")
        except UnicodeDecodeError:
            out.append(("bytes", []))
            continue
        if x == "":
            out.append(("empty", []))
        elif x[0] == "#":
            out.append(("comment", []))
        elif x.split() == []:
            out.append(("spaces", []))
        else:
            out.append(("data", x.split()))
    return out


class Lines:
    """numbers the different lines of a case"""
    def __init__(self):
        self.at, self.all = {}, []

    def file(self, raw):
        out = []
        for f, t in lex(raw):
            k = (f, tuple(t))
            if k not in self.at:
                self.all.append({"f": f, "t": [token(x) for x in t]})
                self.at[k] = len(self.all)
            out.append(self.at[k])
        return out


# ------------------------------------------------------------------ edits
def edit(lines, e):
    """lines: list of [prefix, tokens] or bytes; e as enumerated (1-based, of the original, if it still fits)"""
    a, t, do = e["a"] - 1, e["t"] - 1, e["do"]
    ls = [x if isinstance(x, bytes) else [x[0], list(x[1])] for x in lines]
    if a >= len(ls) or isinstance(ls[a], bytes):
        return ls
    T = ls[a][1]
    if do == "del":
        del ls[a]
    elif do == "dup":
        ls.insert(a, ["", list(T)])
    elif do == "cut":
        ls = ls[:a]
    elif do == "comment":
        ls[a][0] = "#"
    elif do == "bytes":
        ls[a] = " ".join(T).encode() + b" \xff\xfe"
    elif do == "spaces":
        ls.insert(a, ["", ["", ""]])
    elif do == "blank":
        ls.insert(a, ["", []])
    elif do == "indent":
        ls[a][0] = "\t  "
    elif do == "swap" and a + 1 < len(ls):
        ls[a], ls[a + 1] = ls[a + 1], ls[a]
    elif do == "glue" and a + 1 < len(ls) and not isinstance(ls[a + 1], bytes):
        ls[a][1] = T + ls[a + 1][1]
        del ls[a + 1]
    elif t < len(T) + (do == "ins"):
        if do == "rm":
            del T[t]
        elif do == "split":
            ls[a:a + 1] = [[ls[a][0], T[:t + 1]], ["", T[t + 1:]]]
        elif do == "put":
            T[t] = TEXT[e["w"]]
        elif do == "ins":
            T.insert(t, TEXT[e["w"]])
        elif do == "turn" and t + 1 < len(T):
            T[t], T[t + 1] = T[t + 1], T[t]
    return ls


def text(ls, rng, noise=0.0):
    out = []
    for x in ls:
        if rng.random() < noise:
            out.append(rng.choice([b"", b"# x 1 2", b"#"]))
        out.append(x if isinstance(x, bytes) else (x[0] + (" " if rng.random() > noise / 3 else "\t ").join(x[1])).encode())
        if rng.random() < noise / 4:
            out[-1] += b"\r"
        elif rng.random() < noise / 4:
            out[-1] += b"  "
    return b"\n".join(out) + (b"\n" if rng.random() < 0.8 else b"")


# ------------------------------------------------------------------ originals
def rows(text):
    return [["", x.split()] for x in text.strip("\n").split("\n")]


MAPS = {
    "plain": (["id", "lat", "lon"], ["src", "dst", "m"],
              "4 nodes 4 edges\n4\n4\n1 48.5 9.25\n2 -0.5 2\n5 7.5 -1\n9 1 1.5\n1 2 3\n2 1 0.5\n5 2 0\n2 2 7"),
    "hierarchy": (["id", "lat", "lon", "lvl"], ["src", "dst", "m", "m", "sc0", "sc1"],
                  "7\n3\n4\n3 1 2 0\n1 2 3 1\n2 3 1 2\n1 3 1 2 -1 -1\n3 2 2 1 -1 -1\n1 2 3 3 0 1\n2 1 4 1 -1 -1"),
    "ids": (["id", "ign", "lon", "lat"], ["eid", "src", "ign", "dst", "m"],
            "3\n4\n1 foo 2 3.5\n2 bar 1 1\n3 1 -1.5 2\n0 1 x 2 1.5\n2 2 y 3 2\n7 3 1 1 2.5\n1 1 2 3 9"),
}
PAIRS = {"pairs": "5 routes\n3\n1 2 1\n2 5 0\n9 9 3", "pairs2": "2\n1 1 1\n2 1 2"}
TABLES = {"table": (True, ["eid", "m1", "ign", "m2"], "edge-id a x b\n0 2 foo 5.5\n7 0 1 1\n1 1.5 bar 0.5"),
          "table2": (False, ["m2", "eid"], "3 2\n1.5 7\n4 0")}


def shapes():
    out = []
    for k, (_, _, t) in MAPS.items():
        out.append({"name": k, "n": [len(r[1]) for r in rows(t)]})
    for k, t in PAIRS.items():
        out.append({"name": k, "n": [len(r[1]) for r in rows(t)]})
    for k, (_, _, t) in TABLES.items():
        out.append({"name": k, "n": [len(r[1]) for r in rows(t)]})
    return out


def columns_cfg(nc, ec, extra=(), norm=None, shared=""):
    y = ["parsing:", "  map-file: 'g.fmi'", "  nodes:" if nc else "  nodes: []"]
    for k, c in enumerate(nc):
        y.append({"id": "  - meta: { info: 'NodeId', id: 'n%d' }", "lvl": "  - meta: { info: 'CHLevel', id: 'n%d' }",
                  "lat": "  - metric: { unit: 'Latitude', id: 'n%d' }", "lon": "  - metric: { unit: 'Longitude', id: 'n%d' }",
                  "ign": "  - ignored"}[c].replace("%d", str(k)))
    y += ["  edges:", "    will_normalize_metrics_by_mean: false", "    data:" if ec else "    data: []"]
    m = 0
    for k, c in enumerate(ec):
        if c == "m":
            y.append(f"    - metric: {{ unit: 'F64', id: 'm{m + 1}' }}")
            m += 1
        elif c == "ign":
            y.append("    - ignored")
        else:
            info = {"src": "SrcId", "dst": "DstId", "sc0": "ShortcutIdx0", "sc1": "ShortcutIdx1", "eid": "EdgeId"}[c]
            y.append(f"    - meta: {{ info: '{info}', id: '{'edge-id' if c == 'eid' else f'e{k}'}' }}")
    y += list(extra)
    if m:
        y += ["routing:", "  route-pairs-file: 'x.route-pairs'", "  algorithm: 'Dijkstra'", "  metrics: [{ id: 'm1' }]"]
    return "\n".join(y) + "\n"


def mval(x):
    return TINY if isinstance(x, float) and 0 < x < 1e-5 else num(x, 1000)


def graph(d):
    N = [{"id": ival(n["id"]), "lat": num(n["lat"], 10 ** 7), "lon": num(n["lon"], 10 ** 7), "lvl": ival(n["level"])} for n in d["nodes"]]
    E = [{"s": e["src"] + 1, "d": e["dst"] + 1, "m": [mval(x) for x in e["m"]],
          "sc": [] if e["sc"] is None else [e["sc"][0] + 1, e["sc"][1] + 1], "issc": e["is_sc"],
          "id": -1 if e["id"] is None else ival(e["id"])} for e in d["edges"]]
    adj = lambda a: [[{"e": x[0] + 1, "d": x[1] + 1, "m": [mval(y) for y in x[2]]} for x in l] for l in a]
    return {"n": len(N), "N": N, "E": E, "out": adj(d["out"]), "in": adj(d["in"]), "nc": d["node_count"], "fc": d["fwd_count"], "bc": d["bwd_count"]}


class ReadCase:
    """a series of files read one after another"""
    def __init__(self, id):
        self.id, self.ops, self.plan, self.lines, self.key = id, [], [], Lines(), None

    def op(self, op, plan=None):
        self.ops.append(op)
        self.plan.append(plan)

    def write(self, path, raw):
        self.op({"op": "file", "path": path, "hex": raw.hex()})

    def map(self, nc, ec, raw, base=False, cfg=True):
        if cfg:
            self.op({"op": "file", "path": "g.yaml", "text": columns_cfg(nc, ec)})
        self.write("g.fmi", raw)
        self.op({"op": "parse", "g": "g", "cfg": "g.yaml"}, ("map", nc, ec, raw, base))

    def start_pairs(self):
        nc, ec, t = MAPS["plain"]
        self.map(nc, ec, (t + "\n").encode(), True)

    def pairs(self, raw, base=False):
        self.write("x.route-pairs", raw)
        self.op({"op": "proutes", "g": "g", "cfg": "g.yaml"}, ("pairs", raw, base))

    def start_table(self, header, cols):
        nc, _, _ = MAPS["ids"]
        ec = ["eid", "src", "m", "dst", "m"]
        raw = b"3\n4\n1 foo 2 3.5\n2 bar 1 1\n3 1 -1.5 2\n0 1 3 2 1.5\n2 2 4 3 2\n7 3 1 1 2.5\n1 1 2 3 9\n"
        self.map(nc, ec, raw, True)
        info = {"eid": "        - id: 'edge-id'", "ign": "        - ignored", "m1": "        - id: 'm1'", "m2": "        - id: 'm2'"}
        y = ["  generating:", "    nodes: []", "    edges:", "    - merge:", "        from: 't.csv'", f"        with_header-line: {'true' if header else 'false'}",
             "        edge-id: 'edge-id'", "        edges-info:"] + [info[c] for c in cols]
        self.op({"op": "file", "path": "t.yaml", "text": columns_cfg(nc, ec, y)})

    def table(self, header, cols, raw, base=False):
        self.write("t.csv", raw)
        self.op({"op": "parse", "g": "t", "cfg": "t.yaml"}, ("table", header, cols, raw, base))

    def config(self, sec, muts, text, base=False):
        self.op({"op": "file", "path": "c.yaml", "text": text})
        self.op({"op": "cfg", "sec": sec, "cfg": "c.yaml"}, ("config", sec, muts, base))

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        ev, before = [], []
        for p, o in zip(self.plan, obs):
            fl = failed(o)
            if fl:
                ev.append({"op": "broken", "what": fl})
                break
            if p is None or o.get("skipped"):
                continue
            ok = "err" not in o
            if p[0] == "map":
                g = graph(o["graph"]) if ok else {}
                before = g["E"] if ok else []
                ev.append({"op": "map", "nc": p[1], "ec": p[2], "file": self.lines.file(p[3]), "base": p[4], "ok": ok, "g": g})
            elif p[0] == "pairs":
                ev.append({"op": "pairs", "file": self.lines.file(p[1]), "base": p[2], "ok": ok,
                           "pairs": [{"s": ival(s), "d": ival(d), "n": ival(n)} for s, d, n in o["pairs"]] if ok else []})
            elif p[0] == "table":
                ev.append({"op": "table", "header": p[1], "cols": p[2], "file": self.lines.file(p[3]), "base": p[4], "ok": ok,
                           "before": before, "after": graph(o["graph"])["E"] if ok else []})
            elif p[0] == "config":
                ev.append({"op": "config", "sec": p[1], "muts": p[2], "base": p[3], "ok": ok})
            elif p[0] == "absent":
                ev.append({"op": "absent", "ok": ok})
            else:
                ev.append({"op": "any"})
        t = {"id": self.id, "lines": self.lines.all, "ev": ev}
        if self.key:
            t["key"] = self.key
        return t


# ------------------------------------------------------------------ configurations
P = lambda **k: list((a.replace("__", "-"), b) for a, b in k.items())   # mappings are lists of pairs (keys may stand there twice)


def section(sec):
    D = lambda *a: list(a)
    metric = lambda u, i: D(("metric", D(("unit", u), ("id", i))))
    unit = lambda u, i: D(("unit", u), ("id", i))
    meta = lambda f, i: D(("meta", D(("info", f), ("id", i))))
    parsing = ("parsing", D(("map-file", "g.fmi"), ("vehicles", D(("category", "Car"), ("are_drivers_picky", False))),
                            ("nodes", [[meta("NodeId", "n0"), metric("Latitude", "lat"), metric("Longitude", "lon")]]),
                            ("edges", D(("will_normalize_metrics_by_mean", False),
                                        ("data", [[meta("SrcId", "s"), meta("DstId", "d"), metric("Kilometers", "len")]]))),
                            ("generating", D(("nodes", [[meta("NodeIdx", "i0")]]), ("edges", [[D(("custom", D(("unit", "Seconds"), ("id", "own"), ("default", 1.5)))),
                                                         D(("haversine", D(("unit", "Meters"), ("id", "hav")))),
                                                         D(("copy", D(("from", unit("Kilometers", "len")), ("to", unit("Meters", "len2"))))),
                                                         D(("convert", D(("from", unit("Seconds", "own")), ("to", unit("Minutes", "own2"))))),
                                                         D(("calc", D(("result", unit("KilometersPerHour", "v")), ("a", unit("Meters", "hav")), ("b", unit("Minutes", "own2"))))),
                                                         meta("EdgeId", "e0"),
                                                         D(("merge", D(("from", "t.csv"), ("with_header-line", True), ("edge-id", "e0"), ("edges-info", [[D(("id", "e0")), D(("id", "v"))]]))))]])))))
    edges_info = D(("file", "e.csv"), ("with_shortcuts", False), ("will_denormalize_metrics_by_mean", False), ("ids", [[D(("id", "len")), D(("id", "own"))]]))
    return {
        "parsing": D(parsing),
        "routing": D(parsing, ("routing", D(("route-pairs-file", "x.route-pairs"), ("algorithm", "Dijkstra"),
                                            ("metrics", [[D(("id", "len"), ("alpha", 1.5), ("tolerated-scale", "1.5"))]])))),
        "wgraph": D(("writing", D(("graph", D(("map-file", "o.fmi"), ("nodes", [[D(("id", "n0")), D(("id", "lat"))]]),
                                              ("edges", D(("with_shortcuts", True), ("will_denormalize_metrics_by_mean", False), ("ids", [[D(("id", "s"))]])))))))),
        "wedges": D(("writing", D(("edges-info", edges_info)))),
        "wroutes": D(("writing", D(("route-pairs", D(("file", "o.route-pairs"), ("random_or_all", D(("seed", 1), ("max_count", 5)))))))),
        "balancing": D(("balancing", D(("seed", 3), ("results-dir", "res"), ("iter-0-cfg", "i0.yaml"), ("iter-i-cfg", "i1.yaml"),
                                       ("multi-ch-constructor", D(("fmi-graph", "graph.fmi"), ("contracted-graph", "graph.ch.fmi"), ("dimension", 3), ("contraction-ratio", "99.5"), ("cost-accuracy", 0.001), ("number_of_threads", 2),
                                                                  ("is_printing_osm-ids", True), ("is_using_external_edge-ids", True))),
                                       ("number_of_metric-updates", 2), ("monitoring", D(("edges-info", edges_info), ("export_vehicles_for_SMARTS", True))),
                                       ("optimizing_with", D(("metric-id", "w"), ("method", D(("explicit_euler", D(("correction", 0.5))))))),
                                       ("number_of_threads", 2), ("min_new_metric", 0.01), ("throw_err_when_new_metric_is_zero", False)))),
        "evaluating": D(("evaluating_balance", D(("seed", 3), ("results-dir", "res"), ("number_of_threads", 2), ("monitoring", D(("edges-info", edges_info), ("export_vehicles_for_SMARTS", True)))))),
    }[sec]


# a list of values is [[...]], a mapping is [(key, value), ...]
def is_list(x):
    return isinstance(x, list) and len(x) == 1 and isinstance(x[0], list)


def is_map(x):
    return isinstance(x, list) and all(isinstance(y, tuple) for y in x)


class Raw(str):
    pass


def emit(x):
    if isinstance(x, Raw):
        return str(x)
    if is_list(x):
        return "[" + ", ".join(emit(y) for y in x[0]) + "]"
    if is_map(x):
        return "{" + ", ".join(f"{k}: {emit(v)}" for k, v in x) + "}"
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, str):
        return "'" + x + "'"
    return str(x)


WRONG = {"word": Raw("abc"), "number": Raw("17.25"), "yes": Raw("true"), "list": Raw("[1, 'x']"), "map": Raw("{a: 1}"),
         "negative": Raw("-2"), "fraction": Raw("2.5"), "null": Raw("~")}


def change(cfg, ch):
    """the changed config, or None if the entry is not there"""
    def go(x, p):
        if is_list(x):
            k = int(p[0])
            if k >= len(x[0]):
                return None
            ys = list(x[0])
            if len(p) == 1:
                ys[k] = WRONG[ch["w"] or "null"]
            else:
                y = go(ys[k], p[1:])
                if y is None:
                    return None
                ys[k] = y
            return [ys]
        if not is_map(x):
            return None
        for k, (a, v) in enumerate(x):
            if a == p[0]:
                if len(p) > 1:
                    y = go(v, p[1:])
                    if y is None:
                        return None
                    return x[:k] + [(a, y)] + x[k + 1:]
                do = ch["do"]
                if do == "del":
                    return x[:k] + x[k + 1:]
                if do == "ren":
                    return x[:k] + [(a + "x", v)] + x[k + 1:]
                if do == "dup":
                    return x + [(a, v)]
                return x[:k] + [(a, WRONG[ch["w"] or "null"])] + x[k + 1:]
        return None
    return go(cfg, ch["p"])


def apart(p, q):
    n = min(len(p), len(q))
    return p[:n] != q[:n]


def hollow(x):
    """is there an empty mapping instead of one of several alternatives (or of a list's item)?"""
    if is_list(x):
        return any(y == [] or hollow(y) for y in x[0])
    if is_map(x):
        return any((v == [] and k == "method") or hollow(v) for k, v in x)
    return False
