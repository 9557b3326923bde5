#!PYTHON
"""Stands in for the external constructor of contraction-hierarchies: `cmake` and `multi-ch` are this file.
State and faults come from the environment: STUB_STATE (a file), STUB_FAULT (what@iteration)."""
import json, os, random, signal, sys

state = os.environ["STUB_STATE"]
fault, at = os.environ.get("STUB_FAULT", "none@0").split("@")
at = int(at)
st = json.load(open(state)) if os.path.exists(state) else {"dim": None, "made": None, "calls": 0}


def save():
    with open(state, "w") as f:
        json.dump(st, f)


def die(msg):
    print("stub:", msg, flush=True)
    if os.environ.get("STUB_DIE") == "killed":
        os.kill(os.getpid(), signal.SIGKILL)
    sys.exit(3)


args = sys.argv[1:]
if os.path.basename(sys.argv[0]) == "cmake":
    it = st["calls"] // 2
    st["calls"] += 1
    save()
    if "--build" in args:
        if fault == "make" and it == at:
            die("make")
        st["made"] = st["dim"]
    else:
        if fault == "cmake" and it == at:
            die("cmake")
        d = [a for a in args if a.startswith("GRAPH_DIM=")]
        if len(d) != 1:
            die("no dimension")
        st["dim"] = int(d[0].split("=")[1])
    save()
    sys.exit(0)

# multi-ch
val = lambda k: args[args.index(k) + 1]
src, dst = val("--text"), val("--write")
it = st["calls"] // 2 - 1
if fault == "contract-fails" and it == at:
    die("asked to fail")
if fault == "contract-nothing" and it == at:
    sys.exit(0)
lines = [l for l in open(src).read().split("\n") if l and not l.startswith("#")]
dim, n, m = int(lines[0]), int(lines[1]), int(lines[2])
if st["made"] is None or dim != st["made"]:
    die(f"built for {st['made']} metrics, not for {dim}")
nodes = [l.split() for l in lines[3:3 + n]]
edges = [l.split() for l in lines[3 + n:3 + n + m]]
if len(nodes) != n or len(edges) != m or any(len(e) != 5 + dim for e in edges) or any(int(x[0]) != i for i, x in enumerate(nodes)):
    die("malformed map")
E = [(int(e[1]), int(e[2]), [float(x) for x in e[3:3 + dim]], None) for e in edges]
if "--external-edge-ids" in args:
    eid = [int(e[0]) for e in edges]
else:
    eid = list(range(len(E)))
rng = random.Random(f"{n} {sorted(eid)}")
order = list(range(n))
rng.shuffle(order)
order = order[:int(n * float(val("--percent")) / 100 + 1e-6)]
level = {v: len(order) for v in range(n)}
alive = set(range(n))
out = list(E)
for k, v in enumerate(order):
    level[v] = k
    ins = [i for i, e in enumerate(out) if e[1] == v and e[0] in alive and e[0] != v]
    outs = [i for i, e in enumerate(out) if e[0] == v and e[1] in alive and e[1] != v]
    for i in ins:
        for o in outs:
            a, b = out[i], out[o]
            c = [x + y for x, y in zip(a[2], b[2])]
            if a[0] != b[1] and not any(e[0] == a[0] and e[1] == b[1] and all(abs(x - y) < 1e-5 for x, y in zip(e[2], c)) for e in out):
                out.append((a[0], b[1], c, (i, o)))
    alive.discard(v)
ids = lambda v: nodes[v][1] if "--using-osm-ids" in args else str(v)
new = 1 + max(eid + [0])
perm = list(range(len(out)))
rng.shuffle(perm)
pos = {p: k for k, p in enumerate(perm)}
t = ["# contracted", "", str(dim), str(n), str(len(out))]
t += [" ".join([str(i), *x[1:4], "0", str(level[i])]) for i, x in enumerate(nodes)]
for p in perm:
    u, v, c, sc = out[p]
    t.append(" ".join([str(eid[p] if p < len(eid) else new + p), ids(u), ids(v)] + [repr(x) for x in c] +
                      (["-1", "-1"] if sc is None else [str(pos[sc[0]]), str(pos[sc[1]])])))
if fault == "contract-garbage" and it == at:
    t = t[:5 + n // 2] + ["what is this"]
with open(dst, "w") as f:
    f.write("\n".join(t) + "\n")
