"""C14: OSM files in the protobuf format and what they contain."""
import json, random, struct, zlib
from vlib import *


# ------------------------------------------------------------------ protobuf
def varint(x):
    x &= (1 << 64) - 1
    o = bytearray()
    while True:
        b = x & 127
        x >>= 7
        o.append(b | (128 if x else 0))
        if not x:
            return bytes(o)


def zig(x):
    return varint((x << 1) ^ (x >> 63))


def fld(n, data):
    return varint(n << 3 | 2) + varint(len(data)) + data


def ival(n, v):
    return varint(n << 3) + v


def deltas(xs):
    p, o = 0, b""
    for x in xs:
        o += zig(x - p)
        p = x
    return o


def blob(kind, data, packed=True):
    b = (ival(2, varint(len(data))) + fld(3, zlib.compress(data))) if packed else fld(1, data)
    h = fld(1, kind.encode()) + ival(3, varint(len(b)))
    return struct.pack(">I", len(h)) + h + b


class Block:
    """a primitive-block with its table of strings"""

    def __init__(self, gran=100, off=(0, 0)):
        self.st = [""]
        self.groups = b""
        self.gran, self.off = gran, off

    def s(self, x):
        if x not in self.st:
            self.st.append(x)
        return self.st.index(x)

    def kv(self, tags):
        return fld(2, b"".join(varint(self.s(k)) for k, _ in tags)) + fld(3, b"".join(varint(self.s(v)) for _, v in tags)) if tags else b""

    def raw(self, v, ax):
        """decimicro -> units of this block"""
        x = v * 100 - self.off[ax]
        assert x % self.gran == 0
        return x // self.gran

    def nodes(self, ns, dense):
        """ns: (id, lat, lon, tags)"""
        if dense:
            kvs = b""
            if any(t for *_, t in ns):
                for *_, t in ns:
                    for k, v in t:
                        kvs += varint(self.s(k)) + varint(self.s(v))
                    kvs += varint(0)
            d = fld(1, deltas([n[0] for n in ns])) + fld(8, deltas([self.raw(n[1], 0) for n in ns])) + fld(9, deltas([self.raw(n[2], 1) for n in ns]))
            if kvs:
                d += fld(10, kvs)
            self.groups += fld(2, fld(2, d))
        else:
            g = b""
            for i, la, lo, t in ns:
                g += fld(1, ival(1, zig(i)) + self.kv(t) + ival(8, zig(self.raw(la, 0))) + ival(9, zig(self.raw(lo, 1))))
            self.groups += fld(2, g)

    def ways(self, ws):
        """ws: (id, refs, tags)"""
        g = b""
        for i, refs, t in ws:
            g += fld(3, ival(1, varint(i)) + self.kv(t) + (fld(8, deltas(refs)) if refs else b""))
        self.groups += fld(2, g)

    def relation(self, i, members, tags):
        b = ival(1, varint(i)) + self.kv(tags) + fld(8, b"".join(varint(self.s("r")) for _ in members))
        b += fld(9, deltas(members)) + fld(10, b"".join(varint(1) for _ in members))
        self.groups += fld(2, fld(4, b))

    def bytes(self):
        st = b"".join(fld(1, x.encode()) for x in self.st)
        o = fld(1, st) + self.groups
        if self.gran != 100:
            o += ival(17, varint(self.gran))
        if self.off != (0, 0):
            o += ival(19, varint(self.off[0])) + ival(20, varint(self.off[1]))
        return o


def osm_file(rng, nodes, ways, simple=False):
    """nodes: (id, lat, lon) in decimicro; ways: (id, refs, tags)"""
    head = fld(4, b"OsmSchema-V0.6") + fld(4, b"DenseNodes")
    out = blob("OSMHeader", head, rng.random() < .7)
    parts = []
    ns = [(*n, [("name", "x"), ("highway", "crossing")] if rng.random() < .1 else []) for n in nodes]
    if not simple:
        rng.shuffle(ns)
    k = max(1, len(ns) // rng.choice([1, 1, 2, 3]))
    parts += [("n", ns[i:i + k]) for i in range(0, len(ns), k)]
    k = max(1, len(ways) // rng.choice([1, 1, 2, 3]))
    parts += [("w", ways[i:i + k]) for i in range(0, len(ways), k)]
    if rng.random() < .3:
        parts.append(("r", None))
    if rng.random() < .3:
        rng.shuffle(parts)
    b = None
    for i, (k, x) in enumerate(parts):
        if b is None:
            off = (0, 0) if rng.random() < .85 else (rng.choice([100, 12300]), rng.choice([500, 100]))
            b = Block(100 if off != (0, 0) or rng.random() < .8 else rng.choice([50, 20, 1]), off)
        if k == "n":
            b.nodes(x, rng.random() < .6)
        elif k == "w":
            b.ways(x)
        else:
            b.relation(5, [1, 2], [("type", "route"), ("highway", "primary")])
        if i == len(parts) - 1 or rng.random() < .7:
            out += blob("OSMData", b.bytes(), rng.random() < .6)
            b = None
    return out


# ------------------------------------------------------------------ configs and cases
NOISE = [("name", "Hauptstraße"), ("surface", "asphalt"), ("ref", "B 27"), ("maxspeed:forward", "20"), ("oneway:bicycle", "no"), ("lit", "yes"), ("lanes:psv", "1"), ("note", "")]


def spelled(rng, v):
    if rng.random() < .8:
        return v
    return rng.choice([v.upper(), v.capitalize(), " " + v, v + " "])


class OCase:
    def __init__(self, id, rng):
        self.id, self.rng = id, rng
        self.ops, self.plan = [], []

    def load(self, pos, ids, ways, vehicle, picky, cols, unsupported=None, say_vehicle=True, simple=False):
        """pos: (lat, lon) per known node (numbers from 1); ids: id per number (may be longer than pos);
        ways: dicts of the specification"""
        rng = self.rng
        ws = []
        for i, w in enumerate(ways):
            tags = []
            if w["hw"]:
                tags.append(("highway", spelled(rng, w["hw"]).lstrip()))
            if w["ow"]:
                tags.append(("oneway", spelled(rng, w["ow"])))
            ms = "".join(w["digits"])
            if ms or w["ms"]:
                tags.append(("maxspeed", ms or spelled(rng, w["ms"])))
            tags += rng.sample(NOISE, rng.choice([0, 0, 1, 3]))
            rng.shuffle(tags)
            ws.append((i + 1, [ids[n - 1] for n in w["nodes"]], tags))
        if not simple and rng.random() < .5:
            rng.shuffle(ws)
        data = osm_file(rng, [(ids[k], *pos[k]) for k in range(len(pos))], ws, simple)
        y = ["parsing:", "  map-file: 'm.osm.pbf'"]
        if say_vehicle:
            y += ["  vehicles:", f"    category: '{vehicle}'", f"    are_drivers_picky: {'true' if picky else 'false'}"]
        y += ["  nodes:", "  - meta: { info: 'NodeId', id: 'node-id' }", "  - metric: { unit: 'Latitude', id: 'lat' }", "  - metric: { unit: 'Longitude', id: 'lon' }",
              "  edges:", "    data:"]
        cs = ["    - meta: { info: 'SrcId', id: 'src-id' }", "    - meta: { info: 'DstId', id: 'dst-id' }"]
        mc = [f"    - metric: {{ unit: '{ {'speed': 'KilometersPerHour', 'lanes': 'LaneCount'}[x]}', id: 'm{k}' }}" for k, x in enumerate(cols)]
        if unsupported:
            mc.insert(rng.randint(0, len(mc)), unsupported)
        if rng.random() < .3:
            cs.append("    - ignored")
        # metrics keep their order
        allc = cs + mc
        pos_m = sorted(rng.sample(range(len(allc)), len(mc))) if rng.random() < .5 else list(range(len(cs), len(allc)))
        outc, a, b = [], iter(cs), iter(mc)
        for k in range(len(allc)):
            outc.append(next(b) if k in pos_m else next(a))
        y += outc
        self.ops += [{"op": "file", "path": "m.osm.pbf", "hex": data.hex()}, {"op": "file", "path": "c.yaml", "text": "\n".join(y) + "\n"},
                     {"op": "parse", "g": "g", "cfg": "c.yaml"}]
        self.plan += [None, None, {"pos": [list(p) for p in pos], "ids": ids, "ways": ways, "cols": cols, "unsupported": bool(unsupported),
                                   "cfg": {"vehicle": vehicle, "picky": picky}}]

    def raw(self):
        return {"id": self.id, "ops": self.ops}

    def trace(self, obs):
        ev = []
        for pl, o in zip(self.plan, obs):
            if pl is None:
                continue
            fl = failed(o)
            e = {k: v for k, v in pl.items() if k != "ids"}
            e.update(res=fl or ("err" if "err" in o else "ok"), N=[], E=[])
            if "graph" in o:
                no = {x: k + 1 for k, x in enumerate(pl["ids"])}
                g = o["graph"]
                name = [no.get(n["id"], 9000 + i) for i, n in enumerate(g["nodes"])]
                e["N"] = [{"id": name[i], "lat": num(n["lat"], 10**7), "lon": num(n["lon"], 10**7)} for i, n in enumerate(g["nodes"])]
                e["E"] = [{"s": name[x["src"]], "d": name[x["dst"]], "m": [num(v) for v in x["m"]]} for x in g["edges"]]
            ev.append(e)
            if fl:
                break
        return {"id": self.id, "ev": ev}


def way(nodes, hw, ow="", ms="", digits=""):
    return {"nodes": nodes, "hw": hw, "ow": ow, "ms": ms, "digits": list(digits)}


def some_ids(rng, n):
    kind = rng.random()
    if kind < .4:
        s = rng.sample(range(1, 3 * n + 2), n)
    elif kind < .7:
        s = [rng.randint(1, 10**10) for _ in range(n)]
    else:
        s = [rng.choice([-1, 1]) * rng.randint(1, 2**40) for _ in range(n)]
    return s if len(set(s)) == n else rng.sample(range(1, 3 * n + 2), n)


def some_pos(rng, n):
    k = rng.random()
    if k < .5:
        return [(rng.randint(470000000, 480000000), rng.randint(80000000, 90000000)) for _ in range(n)]
    if k < .8:
        return [(rng.randint(-900000000, 900000000), rng.randint(-1800000000, 1800000000)) for _ in range(n)]
    return [(rng.choice([0, 1, -1, 900000000, -900000000]), rng.choice([0, 7, -1800000000, 1799999999])) for _ in range(n)]


COLS = [["speed"], ["lanes"], ["speed", "lanes"], ["lanes", "speed"], ["speed", "speed"], [], ["speed", "lanes", "speed"]]
UNSUPPORTED = ["    - metric: { unit: 'Meters', id: 'x' }", "    - metric: { unit: 'Kilometers', id: 'x' }", "    - metric: { unit: 'Seconds', id: 'x' }",
               "    - metric: { unit: 'Hours', id: 'x' }", "    - metric: { unit: 'Minutes', id: 'x' }", "    - metric: { unit: 'F64', id: 'x' }",
               "    - meta: { info: 'EdgeId', id: 'x' }"]


def single(id, rng, xs):
    """each of the enumerated roads with one three-noded way, several files per case"""
    c = OCase(id, rng)
    for x in xs:
        ids, pos = some_ids(rng, 4), some_pos(rng, 4)
        c.load(pos, ids, [way([1, 2, 3], x["hw"], x["ow"], x["ms"])], x["vehicle"], x["picky"], ["speed", "lanes"],
               say_vehicle=not (x["vehicle"] == "Car" and x["picky"]) or rng.random() < .5)
    return c


def allowed_kinds(tables, vehicle):
    return [h for h in tables["hw"] if not (h in ("service", "sevice", "service2", "swervice") and vehicle == "Car") and h != "road"]


def network(id, rng, tables):
    c = OCase(id, rng)
    for _ in range(3):
        n = rng.choice([2, 3, 5, 8])
        vehicle, picky = rng.choice(["Car", "Bicycle", "Pedestrian"]), rng.random() < .5
        ids, pos = some_ids(rng, n + 1), some_pos(rng, n)
        hs = allowed_kinds(tables, vehicle)
        focus = rng.choice([None, None, "residential", "primary", "path"])
        ways = []
        for _ in range(rng.choice([0, 1, 2, 4, 8, 14])):
            k = rng.choice([0, 1, 2, 2, 3, 4, 6])
            nodes = [rng.randint(1, n) for _ in range(k)]
            if k > 2 and rng.random() < .2:
                nodes[-1] = nodes[0]
            hw = focus if focus and rng.random() < .7 else rng.choice(hs + ["", "bus_stop", "construction", "corner"])
            d, ms = "", ""
            if rng.random() < .4:
                d = rng.choice(["0", "3", "5", "6", "30", "50", "120", "050", "65535", str(rng.randint(1, 300))])
            elif rng.random() < .4:
                ms = rng.choice(tables["ms"])
            ways.append(way(nodes, hw, rng.choice(["", "", "", "yes", "yes", "-1", "-1", "no", "1", "reversible"]), ms, d))
            if rng.random() < .15:
                # the same road again, as it is or the other way round
                w = dict(ways[-1], nodes=list(ways[-1]["nodes"]))
                if rng.random() < .5:
                    w["nodes"].reverse()
                ways.append(w)
        if rng.random() < .06 and ways:
            w = rng.choice(ways)
            w["nodes"] = w["nodes"] + [n + 1]     # a node that isn't in the file
        c.load(pos, ids, ways, vehicle, picky, rng.choice(COLS), rng.choice(UNSUPPORTED) if rng.random() < .06 else None,
               say_vehicle=not (vehicle == "Car" and picky) or rng.random() < .5)
    return c


def large(id, rng, tables, long):
    """a way of very many nodes (long), or very many ways"""
    c = OCase(id, rng)
    vehicle = rng.choice(["Car", "Bicycle"])
    hs = allowed_kinds(tables, vehicle)
    n = rng.randint(2100, 2400) if long else 400
    ids, pos = some_ids(rng, n), some_pos(rng, n)
    if long:
        ways = [way(list(range(1, n + 1)), "residential", rng.choice(["", "yes", "-1"]), "", "40"),
                way(rng.sample(range(1, n + 1), 300), "tertiary", "", "", "70")]
    else:
        ways = [way([rng.randint(1, n) for _ in range(rng.randint(2, 4))], rng.choice(hs + ["", "corner"]), rng.choice(["", "yes", "-1", "no"]), "",
                    rng.choice(["30", "50", "70"])) for _ in range(900)]
    c.load(pos, ids, ways, vehicle, False, ["speed"])
    return c
