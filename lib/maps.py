"""Writing maps and configs for the implementation, and projecting dumped graphs to the specification."""
from vlib import num, BAD

UNIT_F64 = "F64"


def node_cols(level=False):
    cols = ["  - meta: { info: 'NodeId', id: 'node-id' }",
            "  - metric: { unit: 'Latitude', id: 'lat' }",
            "  - metric: { unit: 'Longitude', id: 'lon' }"]
    if level:
        cols.append("  - meta: { info: 'CHLevel', id: 'ch-level' }")
    return cols


def parsing_cfg(dim, level=False, sc=False, edge_id=False, map_file="g.fmi", normalize=None, unit=UNIT_F64):
    y = ["parsing:", f"  map-file: '{map_file}'", "  nodes:"] + node_cols(level) + ["  edges:"]
    if normalize is not None:
        y.append(f"    will_normalize_metrics_by_mean: {'true' if normalize else 'false'}")
    y.append("    data:")
    if edge_id:
        y.append("    - meta: { info: 'EdgeId', id: 'edge-id' }")
    y += ["    - meta: { info: 'SrcId', id: 'src-id' }", "    - meta: { info: 'DstId', id: 'dst-id' }"]
    for k in range(dim):
        y.append(f"    - metric: {{ unit: '{unit}', id: 'm{k}' }}")
    if sc:
        y += ["    - meta: { info: 'ShortcutIdx0', id: 'sc0' }", "    - meta: { info: 'ShortcutIdx1', id: 'sc1' }"]
    return "\n".join(y) + "\n"


def fmi(nodes, edges, level=False, sc=False, edge_id=False):
    """nodes: (id, lat, lon[, level]); edges: (src, dst, [metrics][, (a,b) or None][, edge_id])"""
    out = ["# map", "", str(len(nodes)), str(len(edges))]
    for n in nodes:
        cols = [str(n[0]), str(n[1]), str(n[2])]
        if level:
            cols.append(str(n[3]))
        out.append(" ".join(cols))
    for e in edges:
        cols = []
        if edge_id:
            cols.append(str(e[4]))
        cols += [str(e[0]), str(e[1])] + [str(x) for x in e[2]]
        if sc:
            cols += ["-1", "-1"] if e[3] is None else [str(e[3][0]), str(e[3][1])]
        out.append(" ".join(cols))
    return "\n".join(out) + "\n"


def abs_graph(dump, scale=1, unit=1):
    """the dumped graph as the specification's record (1-based)"""
    E = []
    for e in dump["edges"]:
        sc = [] if e["sc"] is None else [e["sc"][0] + 1, e["sc"][1] + 1]
        E.append({"s": e["src"] + 1, "d": e["dst"] + 1, "m": [num(x if isinstance(x, str) else x / unit, scale) for x in e["m"]], "sc": sc})
    return {"n": len(dump["nodes"]), "lvl": [n["level"] for n in dump["nodes"]], "E": E}


def input_graph(nodes, edges):
    """the intended graph of a map: nodes that are endpoints, in id-order; edges in input-order (1-based)"""
    used = sorted({e[0] for e in edges} | {e[1] for e in edges})
    pos = {i: k + 1 for k, i in enumerate(used)}
    lv = {n[0]: (n[3] if len(n) > 3 else 0) for n in nodes}
    E = []
    for e in edges:
        sc = [] if len(e) < 4 or e[3] is None else [e[3][0] + 1, e[3][1] + 1]
        E.append({"s": pos[e[0]], "d": pos[e[1]], "m": list(e[2]), "sc": sc})
    return {"n": len(used), "lvl": [lv.get(i, 0) for i in used], "E": E}, used
