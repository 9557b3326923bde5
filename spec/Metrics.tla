------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* Metric-columns of a graph's edges and the operations a config may ask     *)
(* for (C07), and normalizing by mean (C08).                                 *)
(*                                                                         *)
(* A table is a record                                                      *)
(*   ok     FALSE once something impossible was asked for                     *)
(*   cols   <<[id, unit, v], ...>>, v being the value of each edge            *)
(*   meta   ids of other columns                                             *)
(*   eids   <<id of edge 1, ...>> or <<>> if edges have no ids                *)
(*   arcs   <<angle in degrees between the endpoints of edge 1, ...>>         *)
(***************************************************************************)
EXTENDS Rationals, FiniteSets, TLC

Units == {"Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "LaneCount", "F64"}
Lengths == {"Meters", "Kilometers"}
Times == {"Seconds", "Minutes", "Hours"}
MaxDim == 5

(* one of a unit in terms of meters respectively seconds *)
Size(u) == CASE u = "Meters" -> 1 [] u = "Kilometers" -> 1000
             [] u = "Seconds" -> 1 [] u = "Minutes" -> 60 [] u = "Hours" -> 3600 [] OTHER -> 1
Convertible(u, v) == u = v \/ u = "F64" \/ v = "F64" \/ {u, v} \subseteq Lengths \/ {u, v} \subseteq Times
Converted(u, v, x) == IF u = v \/ u = "F64" \/ v = "F64" THEN x ELSE QMul(x, Q(Size(u), Size(v), 0))

(* a quotient is defined for length/speed = time and length/time = speed *)
Calculable(r, a, b) == \/ r \in Times /\ a = "Kilometers" /\ b = "KilometersPerHour"
                       \/ r = "KilometersPerHour" /\ a = "Kilometers" /\ b = "Hours"
Quotient(r, x, y) == IF r \in Times THEN Converted("Hours", r, QDiv(x, y)) ELSE QDiv(x, y)

Ids(t) == {t.cols[k].id : k \in 1..Len(t.cols)} \cup t.meta
Has(t, id) == \E k \in 1..Len(t.cols) : t.cols[k].id = id
Pos(t, id) == CHOOSE k \in 1..Len(t.cols) : t.cols[k].id = id
Fail(t) == [t EXCEPT !.ok = FALSE]
Append1(t, id, unit, v) == IF id \in Ids(t) THEN Fail(t) ELSE [t EXCEPT !.cols = Append(@, [id |-> id, unit |-> unit, v |-> TLCEval(v)])]
Edges(t) == 1..Len(t.arcs)

Custom(t, o) == Append1(t, o.id, o.unit, [e \in Edges(t) |-> o.default])
Haversine(t, o) == IF o.unit # "Kilometers" THEN Fail(t)
                   ELSE Append1(t, o.id, o.unit, [e \in Edges(t) |-> Q(t.arcs[e], 1, 1)])
Copy(t, o) == IF ~Has(t, o.from) \/ ~Convertible(o.fu, o.tu) THEN Fail(t)
              ELSE Append1(t, o.to, o.tu, [e \in Edges(t) |-> Converted(o.fu, o.tu, t.cols[Pos(t, o.from)].v[e])])
Convert(t, o) ==
  IF ~Has(t, o.from) \/ ~Convertible(o.fu, o.tu) \/ o.to \in Ids(t) \ {o.from} THEN Fail(t)
  ELSE [t EXCEPT !.cols[Pos(t, o.from)] = [id |-> o.to, unit |-> o.tu, v |-> TLCEval([e \in Edges(t) |-> Converted(o.fu, o.tu, @.v[e])])]]
Calc(t, o) == IF ~Has(t, o.a) \/ ~Has(t, o.b) \/ ~Calculable(o.ru, o.au, o.bu) THEN Fail(t)
              ELSE Append1(t, o.r, o.ru, [e \in Edges(t) |-> Quotient(o.ru, t.cols[Pos(t, o.a)].v[e], t.cols[Pos(t, o.b)].v[e])])
(* columns that describe what the graph knows anyway *)
Meta(t, o) == IF o.id \in Ids(t) \/ o.info \in {"ShortcutIdx0", "ShortcutIdx1"} THEN Fail(t)
              ELSE [t EXCEPT !.meta = @ \cup {o.id}, !.eids = IF o.info = "EdgeId" THEN [e \in Edges(t) |-> -1] ELSE @]

(* the same for nodes, which know only their number; known are the ids of their columns *)
NodeMeta(known, ms) == \A k \in 1..Len(ms) : /\ ms[k].info = "NodeIdx"
                                            /\ ms[k].id \notin known \cup {ms[j].id : j \in 1..(k - 1)}

(* o.ids are the names of a side-file's columns ("" is ignored), o.eid the name of its id-column *)
RECURSIVE MergeRows(_, _, _)
MergeRows(t, o, k) ==
  IF k > Len(o.rows) \/ ~t.ok THEN t ELSE
  LET row == o.rows[k]
      named == {j \in 1..Len(o.ids) : o.ids[j] # "" /\ o.ids[j] # o.eid}
      idcol == {j \in 1..Len(o.ids) : o.ids[j] = o.eid}
      E == IF idcol = {} THEN {} ELSE {e \in 1..Len(t.eids) : t.eids[e] = row[CHOOSE j \in idcol : TRUE].n}
  IN IF E = {} \/ \E j \in named : ~Has(t, o.ids[j]) THEN Fail(t)
     ELSE LET e == CHOOSE x \in E : TRUE
          IN MergeRows([t EXCEPT !.cols = TLCEval([c \in 1..Len(@) |->
                  LET hit == {j \in named : o.ids[j] = @[c].id}
                  IN IF hit = {} THEN @[c] ELSE [@[c] EXCEPT !.v[e] = row[CHOOSE j \in hit : TRUE]]])], o, k + 1)
Merge(t, o) == MergeRows(t, o, 1)

Apply(t, o) ==
  IF ~t.ok THEN t ELSE
  CASE o.op = "custom" -> Custom(t, o) [] o.op = "haversine" -> Haversine(t, o) [] o.op = "copy" -> Copy(t, o)
    [] o.op = "convert" -> Convert(t, o) [] o.op = "calc" -> Calc(t, o) [] o.op = "meta" -> Meta(t, o)
    [] o.op = "merge" -> Merge(t, o)

(* how many metrics a program ends with *)
Grown(t, prog) == Len(t.cols) + Cardinality({k \in 1..Len(prog) : prog[k].op \in {"custom", "haversine", "copy", "calc"}})

(* ---------------- parsing ---------------- *)
(* cols: <<[kind, id, unit], ...>> of the map-file, kind being "metric", "ignored", "eid" or "other" *)
Parsed(cols, lines, eids, arcs) ==
  LET M == SelectSeq([k \in 1..Len(cols) |-> [k |-> k, c |-> cols[k]]], LAMBDA x : x.c.kind = "metric")
      names == [k \in 1..Len(cols) |-> IF cols[k].kind = "ignored" THEN "" ELSE cols[k].id]
  IN [ok |-> \A a, b \in 1..Len(cols) : a # b => names[a] = "" \/ names[a] # names[b],
      cols |-> [j \in 1..Len(M) |-> [id |-> M[j].c.id, unit |-> M[j].c.unit, v |-> [e \in 1..Len(lines) |-> lines[e][M[j].k]]]],
      meta |-> {cols[k].id : k \in {j \in 1..Len(cols) : cols[j].kind \in {"eid", "other"}}},
      eids |-> eids, arcs |-> arcs]

(* ---------------- positions on the globe ---------------- *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
LonDiff(p, q) == LET d == Abs(p.lon - q.lon) % 360 IN Min2(d, 360 - d)
(* angle between two positions in whole degrees, where it is one; -1 otherwise *)
Angle(p, q) ==
  LET d == LonDiff(p, q) IN
  CASE d = 0 -> Abs(p.lat - q.lat)
    [] Abs(p.lat) = 90 -> Abs(p.lat - q.lat)
    [] Abs(q.lat) = 90 -> Abs(p.lat - q.lat)
    [] d = 180 -> 180 - Abs(p.lat + q.lat)
    [] p.lat = 0 /\ q.lat = 0 -> d
    [] d = 90 /\ (p.lat = 0 \/ q.lat = 0) -> 90
    [] d = 90 /\ Abs(p.lat) = 45 /\ Abs(q.lat) = 45 -> IF p.lat = q.lat THEN 60 ELSE 120
    [] d = 45 /\ {p.lat, q.lat} \subseteq {0, 45, -45} /\ (p.lat = 0) # (q.lat = 0) -> 60
    [] OTHER -> -1

(* ---------------- normalizing ---------------- *)
RECURSIVE SumUp(_, _)
SumUp(v, k) == IF k = 0 THEN 0 ELSE v[k].n + SumUp(v, k - 1)
(* for columns of whole numbers *)
Mean(c) == Q(SumUp(c.v, Len(c.v)), Len(c.v), c.v[1].h)
Normalized(t) == [t EXCEPT !.cols = [k \in 1..Len(t.cols) |-> [t.cols[k] EXCEPT !.v = TLCEval([e \in 1..Len(@) |-> QDiv(@[e], Mean(t.cols[k]))])]]]
=============================================================================
