------------------------------ MODULE TraceTool ------------------------------
(* Judges histories of runs of the real tool: file systems before and after, exit status, answers. *)
EXTENDS Balance, Json, IOUtils
Tl == INSTANCE Tool
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, fs, bad
vars == <<c, l, fs, bad>>
If(b, name) == IF b THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}
World == Cases[c].world
E == Cases[c].ev[l]
Plain == Cases[c].plain
Run(e) == [asked |-> Range(e.asked), lay |-> e.lay, veh |-> e.veh, plain |-> Plain,
           bad |-> Range(e.bad) \cup IF Plain /\ World.algo = "Explorator" THEN {[p |-> "routing", k |-> "unbuilt"]} ELSE {}]
Lists == {x.tok : x \in Range(Cases[c].lists)}
List(tok) == (CHOOSE x \in Range(Cases[c].lists) : x.tok = tok).pairs

(* cost-vectors of the optimal paths; weights are positive *)
RECURSIVE OptCosts(_, _, _, _, _)
OptCosts(g, w, ds, s, v) ==
  IF v = s THEN {[k \in 1..Dim(g) |-> 0]}
  ELSE UNION {{[k \in 1..Dim(g) |-> x[k] + g.E[e].m[k]] : x \in OptCosts(g, w, ds, s, g.E[e].s)}
              : e \in {i \in InEdges(g, v) : ds[g.E[i].s] # Inf /\ ds[g.E[i].s] + w[i] = ds[v]}}

Unlimited == 2000000000
Limited == \E k \in 1..Len(World.tol) : World.tol[k] # Unlimited
(* every pair of the list is answered, nothing else is *)
Answers(e, tok) ==
  LET g == World.g
      w == Weights(g, World.a)
      ps == List(tok)
      srcs == {p.s : p \in Range(ps)}
      dist == TLCEval([s \in srcs |-> Dist(g, w, s)])
      Known(x) == \E p \in Range(ps) : p.s = x.s /\ p.d = x.d
      Best(x) == IF dist[x.s][x.d] = Inf THEN ~x.found ELSE x.found /\ x.c \in OptCosts(g, w, dist[x.s], x.s, x.d)
      Right(x) == IF World.algo # "Explorator" THEN Best(x)
                  ELSE /\ dist[x.s][x.d] = Inf => ~x.found
                       /\ dist[x.s][x.d] # Inf /\ ~Limited => x.found
                       /\ x.found => Dot(World.a, x.c) >= dist[x.s][x.d]
      Least(k, s, d) == Dist(g, Weights(g, [j \in 1..Dim(g) |-> IF j = k THEN 1 ELSE 0]), s)[d]
      Tolerated(x) == \A k \in 1..Dim(g) : World.tol[k] = Unlimited \/ x.c[k] * 1000 <= World.tol[k] * Least(k, x.s, x.d)
  IN   If(\A p \in Range(ps) : \E x \in Range(e.answers) : x.s = p.s /\ x.d = p.d, "pair_not_answered")
  \cup If(\A x \in Range(e.answers) : Known(x), "answer_to_nobody")
  \cup If(\A x \in Range(e.answers) : Known(x) => Right(x), "answer_not_optimal")
  \cup If(Limited => \A x \in Range(e.answers) : Known(x) /\ x.found => Tolerated(x), "answer_not_tolerated")
  \cup If(World.algo # "Explorator" \/ Limited \/ \A p \in Range(ps) : \E x \in Range(e.answers) : x.s = p.s /\ x.d = p.d /\ Best(x), "no_answer_is_optimal")

RECURSIVE Merged(_, _, _)
Merged(ps, k, acc) ==
  IF k > Len(ps) THEN acc
  ELSE LET same == {i \in 1..Len(acc) : acc[i].s = ps[k].s /\ acc[i].d = ps[k].d} IN
       Merged(ps, k + 1, IF same = {} THEN Append(acc, ps[k]) ELSE LET i == CHOOSE x \in same : TRUE IN [acc EXCEPT ![i].k = @ + ps[k].k])
Workloads(e, tok) ==
  LET g == World.g
      w == Weights(g, World.a)
      ps == Merged(List(tok), 1, <<>>)
      dist == TLCEval([s \in {p.s : p \in Range(ps)} |-> Dist(g, w, s)])
  IN IF \E i \in 1..Len(e.W) : e.W[i] < 0 THEN {"workload_missing"}
     ELSE   If(Limited \/ Flow(g, ps, dist, e.W), "workloads_are_no_routes")
       \cup If(World.algo = "Explorator" \/ TotalCosts(g, w, ps, dist, e.W), "workloads_not_of_shortest_routes")
       \cup (IF ~e.veh THEN {} ELSE If(Limited \/ VehicleCounts(ps, dist, e.V), "vehicle_counts") \cup If(VehiclesAreCounted(g, e.V, e.W), "workloads_differ_from_vehicles"))

Violations(before, e) ==
  LET r == Run(e)
      con == Tl!Contract(before, r, e.res = "ok", e.after, Lists, World.lib)
      ts == Range(Tl!Todo(r.asked))
  IN IF "balance" \in r.asked /\ ~Plain THEN {"GEN_balance"}
     ELSE IF e.res \notin {"ok", "err"} THEN {e.res}
     ELSE con \cup
       IF e.res = "err" \/ con # {} THEN {}
       ELSE      (IF "routing" \in ts THEN Answers(e, e.after[r.lay.in]) ELSE If(e.answers = <<>> \/ "evaluate" \in ts, "unasked_routing"))
            \cup (IF "evaluate" \in ts THEN Workloads(e, e.after[r.lay.in]) ELSE {})

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = {} /\ fs = <<>>
(* the user prepares files, in between runs *)
Prepare == /\ E.op = "prepare" /\ fs' = E.after
           /\ bad' = If(l = 1 \/ \A p \in DOMAIN fs \ Range(E.touched) : p \in DOMAIN E.after /\ fs[p] = E.after[p], "GEN_prepare")
Running == E.op = "run" /\ fs' = E.after /\ bad' = Violations(fs, E)
Next == l <= Len(Cases[c].ev) /\ (Prepare \/ Running) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
