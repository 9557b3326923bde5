"""Cases for C07 and C08: configs with columns and generating-sections, normalization, exports."""
import math, random
from fractions import Fraction as F
from vlib import *

DEG = math.pi * 6371.0 / 180.0   # km per degree of a great circle
UNITS = ["Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "LaneCount", "F64"]
SIZE = {"Meters": 1, "Kilometers": 1000, "Seconds": 1, "Minutes": 60, "Hours": 3600}
LIM = 40000


def dec(x):
    """an observed number as whole part and 10^-9-ths"""
    if isinstance(x, (str, bool)) or x is None or x != x or x < 0 or x >= 2e9:
        return {"i": -1, "f": 0}
    i = math.floor(x)
    f = round((x - i) * 10 ** 9)
    return {"i": i + 1, "f": 0} if f == 10 ** 9 else {"i": i, "f": f}


def powers(x):
    ok = isinstance(x, (int, float)) and not isinstance(x, bool)
    return [dec(x * DEG) if ok else dec(x), dec(x), dec(x / DEG) if ok else dec(x)]


def q(fr):
    fr = F(fr)
    return {"n": fr.numerator, "d": fr.denominator, "h": 0}


def fmt(fr):
    fr = F(fr)
    return str(fr.numerator) if fr.denominator == 1 else repr(float(fr))


def y_unit(u, i):
    return f"{{ unit: '{u}', id: '{i}' }}"


def op_yaml(o):
    k = o["op"]
    if k == "custom":
        d = "" if o.get("implicit") else f", default: {fmt(o['dflt'])}"
        return [f"    - custom: {{ unit: '{o['unit']}', id: '{o['id']}'{d} }}"]
    if k == "haversine":
        return [f"    - haversine: {y_unit(o['unit'], o['id'])}"]
    if k in ("copy", "convert"):
        return [f"    - {k}:", f"        from: {y_unit(o['fu'], o['from'])}", f"        to: {y_unit(o['tu'], o['to'])}"]
    if k == "calc":
        return ["    - calc:", f"        result: {y_unit(o['ru'], o['r'])}", f"        a: {y_unit(o['au'], o['a'])}", f"        b: {y_unit(o['bu'], o['b'])}"]
    if k == "meta":
        return [f"    - meta: {{ info: '{o['info']}', id: '{o['id']}' }}"]
    out = ["    - merge:", f"        from: '{o['file']}'"]
    if not o["header"] or o.get("explicit"):
        out.append(f"        with_header-line: {'true' if o['header'] else 'false'}")
    out += [f"        edge-id: '{o['eid']}'", "        edges-info:"]
    return out + ["        - ignored" if i == "" else f"        - id: '{i}'" for i in o["ids"]]


def op_spec(o):
    k = o["op"]
    if k == "custom":
        return {"op": k, "id": o["id"], "unit": o["unit"], "default": q(0 if o.get("implicit") else o["dflt"])}
    if k == "merge":
        return {"op": k, "ids": o["ids"], "eid": o["eid"], "rows": [[q(x) for x in r] for r in o["rows"]]}
    return {x: o[x] for x in o if x in ("op", "id", "unit", "from", "fu", "to", "tu", "r", "ru", "a", "au", "b", "bu", "info")}


class MetricCase:
    """cols: [{kind, id, unit}], lines: value per column; pos: [(lat, lon)]; edges: [(s, d)] node-numbers, distinct"""
    def __init__(self, cid, rng, cols, pos, edges, lines, eids, prog, norm=None, exports=(), sc=None, dups=(), nmeta=()):
        self.id, self.cols, self.pos, self.edges, self.lines, self.eids, self.prog, self.norm, self.exports, self.nmeta = cid, cols, pos, edges, lines, eids, prog, norm, exports, list(nmeta)
        ids = rng.sample(range(1, 10 ** 6), len(pos))
        self.nid = ids
        y = ["parsing:", "  map-file: 'g.fmi'", "  nodes:", "  - meta: { info: 'NodeId', id: 'node-id' }",
             "  - metric: { unit: 'Latitude', id: 'lat' }", "  - metric: { unit: 'Longitude', id: 'lon' }", "  edges:"]
        if norm is not None:
            y.append(f"    will_normalize_metrics_by_mean: {'true' if norm else 'false'}")
        y.append("    data:")
        for c in cols:
            if c["kind"] == "ignored":
                y.append("    - ignored")
            elif c["kind"] == "metric":
                y.append(f"    - metric: {y_unit(c['unit'], c['id'])}")
            else:
                info = {"eid": "EdgeId"}.get(c["kind"]) or c["info"]
                y.append(f"    - meta: {{ info: '{info}', id: '{c['id']}' }}")
        if sc:
            y += ["    - meta: { info: 'ShortcutIdx0', id: 'sc0' }", "    - meta: { info: 'ShortcutIdx1', id: 'sc1' }"]
        if prog or nmeta:
            y += ["  generating:", "    nodes:" + ("" if nmeta else " []")] + [f"    - meta: {{ info: '{w}', id: '{i}' }}" for w, i in nmeta]
            y += ["    edges:" + ("" if prog else " []")] + [l for o in prog for l in op_yaml(o)]
        out = ["# map", str(len(pos)), str(len(edges) + len(dups))] + [f"{ids[k]} {p[0]} {p[1]}" for k, p in enumerate(pos)]
        junk = ["x", "-1", "nan", "99999", "0", "???", "1e400", "-0.5", "inf"]
        for e, (s, d) in enumerate(edges):
            row = []
            for k, c in enumerate(cols):
                if c["kind"] == "ignored":
                    row.append(rng.choice(junk))
                elif c["kind"] == "metric":
                    row.append(fmt(lines[e][k]))
                elif c["kind"] == "eid":
                    row.append(str(eids[e]))
                else:
                    row.append(str(ids[s if c["info"] == "SrcId" else d]))
            if sc:
                row += ["-1", "-1"] if sc[e] is None else [str(x) for x in sc[e]]
            out.append(" ".join(row))
        out += [out[3 + len(pos) + k] for k in dups]
        self.ops = [{"op": "file", "path": "g.yaml", "text": "\n".join(y) + "\n"}, {"op": "file", "path": "g.fmi", "text": "\n".join(out) + "\n"}]
        for o in prog:
            if o["op"] == "merge":
                rows = [" ".join(i if i else "_" for i in o["ids"])] if o["header"] else []
                for r in o["rows"]:
                    rows.append(" ".join(rng.choice(junk) if i == "" else fmt(x) for i, x in zip(o["ids"], r)))
                self.ops.append({"op": "file", "path": o["file"], "text": "\n".join(rows) + "\n"})
        self.at = len(self.ops)
        self.ops.append({"op": "parse", "g": "g", "cfg": "g.yaml"})
        self.names = final_names(cols, prog)
        for j, (kind, denorm, explicit) in enumerate(exports):
            body = [f"will_denormalize_metrics_by_mean: {'true' if denorm else 'false'}"] if denorm or explicit else []
            if sc:
                body.append("with_shortcuts: true")
            body += ["ids:"] + [f"- id: '{i}'" for i in ["src-id", "dst-id"] + self.names]
            if kind == "edges":
                path = f"o{j}.csv"
                y = ["writing:", "  edges-info:", f"    file: '{path}'"] + ["    " + b for b in body]
            else:
                path = f"o{j}.fmi"
                y = ["writing:", "  graph:", f"    map-file: '{path}'", "    nodes:", "    - id: 'node-id'", "    edges:"] + ["      " + b for b in body]
            self.ops += [{"op": "file", "path": f"w{j}.yaml", "text": "\n".join(y) + "\n"}, {"op": "w" + kind, "g": "g", "cfg": f"w{j}.yaml"},
                         {"op": "read", "path": path}]

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        if len(obs) > self.at and "err" in obs[self.at]:
            obs = obs[:self.at + 1]     # there is no graph to export
        fl = next((failed(o) for o in obs if failed(o)), "") or ""
        got = {"failed": fl, "ok": False}
        o = obs[self.at] if len(obs) > self.at else {"err": ""}
        if not fl and "err" not in o:
            g = o["graph"]
            idx = {i: k for k, i in enumerate(self.nid)}
            key = {(idx.get(g["nodes"][e["src"]]["id"], -1), idx.get(g["nodes"][e["dst"]]["id"], -1)): e for e in g["edges"]}
            es = [key.get(tuple(e)) for e in self.edges]
            got.update(ok=True, ids=g["metric_ids"], units=g["metric_units"],
                       v=[[powers(x) for x in e["m"]] for e in es] if len(key) == len(g["edges"]) == len(es) and None not in es else [],
                       eids=[] if None in es or any(e["id"] is None for e in es) else [e["id"] for e in es],
                       means=[] if None in g["means"] else [powers(x) for x in g["means"]], exports=[])
            for j, (kind, denorm, _) in enumerate(self.exports):
                w, r = obs[self.at + 3 * j + 2], obs[self.at + 3 * j + 3]
                rows = {}
                for line in r.get("text", "").splitlines():
                    p = line.split(" ")
                    if len(p) != 2 + len(self.names) or p[0] in ("#", "src-id"):
                        continue
                    try:
                        rows[(idx.get(int(p[0]), -1), idx.get(int(p[1]), -1))] = [powers(float(x)) for x in p[2:]]
                    except ValueError:
                        pass
                vs = [rows.get(tuple(e)) for e in self.edges]
                good = None not in vs and all(len(v) == len(self.names) for v in vs) and len(rows) == len(vs)
                got["exports"].append({"denorm": denorm, "ok": "err" not in w, "v": vs if good else []})
        spec_cols = [{"kind": "other" if c["kind"] == "other" else c["kind"], "id": c.get("id", ""), "unit": c.get("unit", "")} for c in self.cols]
        return {"id": self.id, "cols": spec_cols, "pos": [{"lat": p[0], "lon": p[1]} for p in self.pos],
                "edges": [{"s": s + 1, "d": d + 1} for s, d in self.edges],
                "lines": [[q(x) for x in l] for l in self.lines], "eids": self.eids or [], "norm": bool(self.norm), "prog": [op_spec(o) for o in self.prog],
                "nmeta": [{"info": w, "id": i} for w, i in self.nmeta], "got": got}


def final_names(cols, prog):
    names = [c["id"] for c in cols if c["kind"] == "metric"]
    for o in prog:
        if o["op"] in ("custom", "haversine"):
            names.append(o["id"])
        elif o["op"] == "copy":
            names.append(o["to"])
        elif o["op"] == "calc":
            names.append(o["r"])
        elif o["op"] == "convert":
            names = [o["to"] if x == o["from"] else x for x in names]
    return names


SPOTS = [(0, 0), (0, 45), (0, 90), (0, -90), (0, 180), (0, -179), (0, 179), (45, 0), (45, 90), (-45, 90), (90, 0), (-90, 0), (10, 0), (80, 180), (-45, 0), (33, 0), (1, 0), (0, 1)]


def angle(p, r):
    a, b = map(math.radians, p), map(math.radians, r)
    (la, lo), (lb, lp) = tuple(a), tuple(b)
    d = math.degrees(math.acos(max(-1, min(1, math.sin(la) * math.sin(lb) + math.cos(la) * math.cos(lb) * math.cos(lo - lp)))))
    return round(d) if abs(d - round(d)) < 1e-5 else None


def places(rng, n):
    while True:
        pos = rng.sample(SPOTS, n)
        pairs = [(a, b) for a in range(n) for b in range(n) if angle(pos[a], pos[b]) is not None]
        # the specification knows which angles are whole; keep to the pairs it can name
        pairs = [(a, b) for a, b in pairs if known(pos[a], pos[b])]
        if len(pairs) >= 2:
            return pos, pairs


def known(p, r):
    d = abs(p[1] - r[1]) % 360
    d = min(d, 360 - d)
    ls = {p[0], r[0]}
    return (d in (0, 180) or 90 in ls or -90 in ls or ls == {0} or (d == 90 and 0 in ls)
            or (d == 90 and abs(p[0]) == 45 == abs(r[0])) or (d == 45 and ls <= {0, 45, -45} and (p[0] == 0) != (r[0] == 0)))


def simulate(cols, lines, arcs, prog, eids):
    """exact values of every program, to keep numbers in the specification's range: None if out of range"""
    t = {c["id"]: [(F(lines[e][k]), 0) for e in range(len(lines))] for k, c in enumerate(cols) if c["kind"] == "metric"}
    ok = lambda v: all(abs(x.numerator) < LIM * 2000 and x.denominator < LIM for x, h in v) and all(x < 10 ** 6 for x, h in v) and all(abs(h) <= 1 for _, h in v)
    conv = lambda u, w, v: [(x * F(SIZE[u], SIZE[w]) if u != w and u in SIZE and w in SIZE else x, h) for x, h in v]
    for o in prog:
        k = o["op"]
        if k == "custom":
            t[o["id"]] = [(F(0 if o.get("implicit") else o["dflt"]), 0)] * len(lines)
        elif k == "haversine":
            t[o["id"]] = [(F(a), 1) for a in arcs]
        elif k in ("copy", "convert"):
            if o["from"] not in t:
                return t
            v = conv(o["fu"], o["tu"], t[o["from"]])
            if not ok(v):
                return None
            if k == "convert":
                del t[o["from"]]
            t[o["to"]] = v
        elif k == "calc":
            if o["a"] not in t or o["b"] not in t:
                return t
            if any(x == 0 for x, _ in t[o["b"]]):
                return None
            v = [(x / y, h - i) for (x, h), (y, i) in zip(t[o["a"]], t[o["b"]])]
            if o["ru"] in SIZE:
                v = conv("Hours", o["ru"], v)
            if not ok(v) or any(x.numerator * y.numerator > 2 ** 31 or x.denominator * y.denominator > 2 ** 31 for (x, _), (y, _) in zip(t[o["a"]], t[o["b"]])):
                return None
            t[o["r"]] = v
        elif k == "merge":
            for r in o["rows"]:
                ed = [x for i, x in zip(o["ids"], r) if i == o["eid"]]
                if not ed or not eids or ed[0] not in eids:
                    return t
                e = eids.index(ed[0])
                for i, x in zip(o["ids"], r):
                    if i and i != o["eid"] and i in t:
                        t[i] = t[i][:e] + [(F(x), 0)] + t[i][e + 1:]
    return t


def values(rng):
    return rng.choice([F(1), F(2), F(3), F(5), F(12), F(50), F(100), F(1, 2), F(3, 4), F(5, 2), F(120), F(1, 8), F(7), F(30), F(1000)])


def base(rng, eid=None, unit_a=None, unit_b=None, names=("a", "b"), ncols=None):
    n = rng.choice([2, 3, 4])
    pos, pairs = places(rng, n)
    edges = rng.sample(pairs, min(len(pairs), rng.randint(1, 5)))
    cols = [{"kind": "other", "info": "SrcId", "id": "src-id"}, {"kind": "other", "info": "DstId", "id": "dst-id"}]
    k = ncols if ncols is not None else 2
    for j in range(k):
        u = [unit_a, unit_b][j] if j < 2 else None
        cols.append({"kind": "metric", "id": names[j] if j < len(names) else "abcdefgh"[j], "unit": u or rng.choice(UNITS)})
    eid = rng.random() < 0.4 if eid is None else eid
    if eid:
        cols.append({"kind": "eid", "id": "edge-id"})
    cols += [{"kind": "ignored"} for _ in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(cols)
    lines = [[values(rng) if c["kind"] == "metric" else F(0) for c in cols] for _ in edges]
    eids = rng.sample(range(0, 100), len(edges)) if eid else []
    return pos, edges, cols, lines, eids


def single(cid, rng, o):
    """one operation over columns of the given units"""
    o = dict(o)
    au, bu = o.get("au", "F64"), o.get("bu", "F64")
    if o["op"] in ("copy", "convert"):
        au = o["fu"]
    if o["op"] == "custom":
        o["dflt"] = values(rng)
    for _ in range(200):
        pos, edges, cols, lines, eids = base(rng, unit_a=au, unit_b=bu)
        arcs = [angle(pos[s], pos[d]) for s, d in edges]
        if simulate(cols, lines, arcs, [o], eids) is not None:
            return MetricCase(cid, rng, cols, pos, edges, lines, eids, [o])
    raise ToolError("no values in range")


METAS = ["SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"]


def program(cid, rng):
    while True:
        pos, edges, cols, lines, eids = base(rng, ncols=rng.choice([0, 1, 2, 2, 3]))
        arcs = [angle(pos[s], pos[d]) for s, d in edges]
        units = {c["id"]: c["unit"] for c in cols if c["kind"] == "metric"}
        prog, fresh = [], iter("uvwxyzUVWXYZ")
        has_id = bool(eids)
        wild = rng.random() < 0.25
        for _ in range(rng.randint(1, 6)):
            names = list(units)
            kind = rng.choice(["custom", "haversine", "copy", "convert", "calc", "merge", "meta", "copy", "convert", "calc"])
            new = next(fresh)
            if wild and rng.random() < 0.2:
                new = rng.choice(names + ["src-id", "nope"])
            pick = lambda us=None: rng.choice([x for x in names if us is None or units[x] in us] or names) if not (wild and rng.random() < 0.1) else "nope"
            U = lambda x: units.get(x, "F64")
            if kind == "custom":
                u = rng.choice(UNITS)
                o = {"op": kind, "id": new, "unit": u, "dflt": rng.choice([F(0), values(rng)]), "implicit": rng.random() < 0.3}
                units[new] = u
            elif kind == "haversine":
                o = {"op": kind, "id": new, "unit": "Kilometers" if not wild or rng.random() < 0.8 else "Meters"}
                units[new] = "Kilometers"
            elif kind in ("copy", "convert") and names:
                f = pick()
                to = rng.choice(([x for x in UNITS if x == U(f) or "F64" in (x, U(f)) or {x, U(f)} <= {"Meters", "Kilometers"} or {x, U(f)} <= {"Seconds", "Minutes", "Hours"}]) if not wild or rng.random() < 0.9 else UNITS)
                new = f if kind == "convert" and rng.random() < 0.5 else new
                o = {"op": kind, "from": f, "fu": U(f), "to": new, "tu": to}
                if kind == "convert":
                    units.pop(f, None)
                units[new] = to
            elif kind == "calc" and len(names) >= 2:
                speed = rng.random() < 0.6
                a, b = pick(["Kilometers"]), pick(["KilometersPerHour"] if speed else ["Hours"])
                r = rng.choice(["Seconds", "Minutes", "Hours"]) if speed else "KilometersPerHour"
                if not wild and not (U(a) == "Kilometers" and U(b) == ("KilometersPerHour" if speed else "Hours")):
                    continue
                o = {"op": kind, "r": new, "ru": r, "a": a, "au": U(a), "b": b, "bu": U(b)}
                units[new] = r
            elif kind == "merge" and has_id and eids and names:
                ids = rng.sample(names, rng.randint(1, len(names)))
                cs = ["edge-id"] + ids + [""] * rng.choice([0, 0, 1])
                if wild and rng.random() < 0.2:
                    cs.append("nope")
                rng.shuffle(cs)
                rows = []
                for e in rng.sample(eids, rng.randint(0, len(eids))):
                    rows.append([e if i == "edge-id" else values(rng) for i in cs])
                if wild and rng.random() < 0.3:
                    rows.append([1000 if i == "edge-id" else values(rng) for i in cs])
                o = {"op": "merge", "file": f"m{len(prog)}.csv", "header": rng.random() < 0.6, "explicit": rng.random() < 0.5, "eid": "edge-id", "ids": cs, "rows": rows}
            elif kind == "meta":
                info = rng.choice(METAS + (["EdgeId"] if not has_id else []))
                if wild and rng.random() < 0.15:
                    info = rng.choice(["ShortcutIdx0", "ShortcutIdx1"])
                has_id = has_id or info == "EdgeId"
                o = {"op": kind, "info": info, "id": new}
            else:
                continue
            prog.append(o)
        if sum(c["kind"] == "metric" for c in cols) + sum(o["op"] in ("custom", "haversine", "copy", "calc") for o in prog) == 0:
            continue
        if simulate(cols, lines, arcs, prog, eids) is not None:
            # columns are known by their new names to an export as well
            exports = [(rng.choice(["edges", "graph"]), False, rng.random() < .5)] if not wild and rng.random() < .5 else ()
            nmeta = []
            if rng.random() < 0.3:
                fresh = iter(["node-idx", "number", "again"])
                for _ in range(rng.choice([1, 1, 2])):
                    odd = wild and rng.random() < 0.4
                    nmeta.append((rng.choice(["NodeIdx"] * 2 + ["NodeId", "CHLevel"]) if odd else "NodeIdx",
                                  rng.choice(["node-id", "lat", "lon", "node-idx"]) if odd and rng.random() < 0.6 else next(fresh)))
            return MetricCase(cid, rng, cols, pos, edges, lines, eids, prog, exports=exports, nmeta=nmeta)


def normalized(cid, rng):
    while True:
        pos, edges, cols, lines, eids = base(rng, ncols=rng.choice([1, 2, 3]))
        if rng.random() < 0.04:
            edges, lines, eids = [], [], []     # there is no mean
        for l in lines:
            for k, c in enumerate(cols):
                if c["kind"] == "metric":
                    l[k] = F(rng.choice([1, 2, 3, 4, 5, 7, 10, 30, 50, 100, 1000, 20000]))
        prog = []
        names = [c for c in cols if c["kind"] == "metric"]
        if rng.random() < 0.5:
            prog.append({"op": "custom", "id": "w", "unit": "F64", "dflt": F(rng.choice([1, 2, 9])), "implicit": rng.random() < 0.05})
        if rng.random() < 0.3:
            c = names[0]
            prog.append({"op": "copy", "from": c["id"], "fu": c["unit"], "to": "z", "tu": c["unit"]})
        if rng.random() < 0.3:
            prog.append({"op": "haversine", "id": "hav", "unit": "Kilometers"})
        if rng.random() < 0.3:
            c = rng.choice(names)
            prog.append({"op": "convert", "from": c["id"], "fu": c["unit"], "to": c["id"] if rng.random() < .3 else "new" + c["id"], "tu": rng.choice([c["unit"], "F64"])})
            names = [x for x in names if x is not c]
        if eids and names and rng.random() < 0.4:
            prog.append({"op": "merge", "file": "m.csv", "header": True, "eid": "edge-id", "ids": ["edge-id", names[0]["id"]],
                         "rows": [[e, F(rng.choice([3, 8, 11]))] for e in eids]})
        arcs = [angle(pos[s], pos[d]) for s, d in edges]
        if any(o["op"] == "haversine" for o in prog) and 0 in arcs:
            continue
        if simulate(cols, lines, arcs, prog, eids) is None:
            continue
        norm = rng.choice([True, True, True, False, None])
        exports = [(rng.choice(["edges", "graph"]), a, b) for a, b in rng.sample([(True, True), (False, True), (False, False)], rng.randint(1, 3))]
        sc = None
        if rng.random() < 0.3:
            sc = [None if k == 0 or rng.random() < 0.5 else (0, rng.randrange(len(edges))) for k in range(len(edges))]
        dups = [rng.randrange(len(edges)) for _ in range(rng.choice([0, 0, 1, 3]) if edges else 0)]
        return MetricCase(cid, rng, cols, pos, edges, lines, eids, prog, norm, exports, sc, dups)
