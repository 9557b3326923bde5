----------------------------- MODULE GenMetrics -----------------------------
(***************************************************************************)
(* All programs of at most Len operations over two parsed columns, explored   *)
(* as a state-machine: every column keeps its physical quantity (ghost        *)
(* variable phys), ids stay unique, and a failed table stays failed.          *)
(* Emits every single-operation program over all units for replay.           *)
(***************************************************************************)
EXTENDS Metrics, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, SmallUnits
VARIABLES t, phys, n
vars == <<t, phys, n>>

(* a quantity in base units; dimensionless values have no base *)
Base(u, x) == IF u \in Lengths \cup Times THEN QMul(x, QInt(Size(u)))
              ELSE IF u = "KilometersPerHour" THEN QMul(x, Q(1000, 3600, 0)) ELSE x
Start(u, v) == [ok |-> TRUE, cols |-> <<[id |-> "a", unit |-> u, v |-> <<Q(3, 2, 0)>>], [id |-> "b", unit |-> v, v |-> <<Q(7, 1, 0)>>]>>,
                meta |-> {"src", "dst"}, eids |-> <<>>, arcs |-> <<60>>]
Init == \E u, v \in SmallUnits : t = Start(u, v) /\ n = 0
        /\ phys = [id \in {"a", "b"} |-> IF id = "a" THEN Base(u, Q(3, 2, 0)) ELSE Base(v, Q(7, 1, 0))]
Name == CHOOSE x \in {"c", "d", "e", "f"} : x \notin Ids(t)
UnitOf(id) == t.cols[Pos(t, id)].unit
Cols == {t.cols[k].id : k \in 1..Len(t.cols)}
Put(id, q) == phys' = [x \in DOMAIN phys \cup {id} |-> IF x = id THEN q ELSE phys[x]]
DoCopy == \E f \in Cols, u \in SmallUnits : LET o == [op |-> "copy", from |-> f, fu |-> UnitOf(f), to |-> Name, tu |-> u] IN
            /\ t' = Apply(t, o)
            /\ IF t'.ok THEN Put(o.to, IF "F64" \in {u, UnitOf(f)} /\ u # UnitOf(f) THEN Base(u, t'.cols[Len(t'.cols)].v[1]) ELSE phys[f]) ELSE UNCHANGED phys
DoConvert == \E f \in Cols, u \in SmallUnits : LET o == [op |-> "convert", from |-> f, fu |-> UnitOf(f), to |-> f, tu |-> u] IN
            /\ t' = Apply(t, o)
            /\ IF t'.ok /\ "F64" \in {u, UnitOf(f)} /\ u # UnitOf(f) THEN Put(f, Base(u, t'.cols[Pos(t', f)].v[1])) ELSE UNCHANGED phys
DoCalc == \E a, b \in Cols, u \in SmallUnits : LET o == [op |-> "calc", r |-> Name, ru |-> u, a |-> a, au |-> UnitOf(a), b |-> b, bu |-> UnitOf(b)] IN
            /\ t' = Apply(t, o)
            /\ IF t'.ok THEN Put(o.r, QDiv(phys[a], phys[b])) ELSE UNCHANGED phys
DoHaversine == /\ t' = Apply(t, [op |-> "haversine", id |-> Name, unit |-> "Kilometers"])
               /\ Put(Name, Q(60000, 1, 1))
Next == /\ t.ok /\ n < MaxLen /\ n' = n + 1
        /\ DoCopy \/ DoConvert \/ DoCalc \/ DoHaversine
Spec == Init /\ [][Next]_vars

IdsUnique == \A i, j \in 1..Len(t.cols) : i # j => t.cols[i].id # t.cols[j].id
PhysicalKept == t.ok => \A k \in 1..Len(t.cols) : Base(t.cols[k].unit, t.cols[k].v[1]) = phys[t.cols[k].id]
MeanIsOne == t.ok => LET s == Normalized(t) IN \A k \in 1..Len(s.cols) : s.cols[k].v[1] = [n |-> 1, d |-> 1, h |-> 0]

Single ==    {[op |-> o, from |-> "a", fu |-> u, to |-> "c", tu |-> v, au |-> u, bu |-> "F64"] : o \in {"copy", "convert"}, u \in Units, v \in Units}
        \cup {[op |-> "calc", r |-> "c", ru |-> r, a |-> "a", au |-> u, b |-> "b", bu |-> v] : r \in Units, u \in Units, v \in Units}
        \cup {[op |-> "haversine", id |-> "c", unit |-> u, au |-> "F64", bu |-> "F64"] : u \in Units}
        \cup {[op |-> "custom", id |-> "c", unit |-> u, au |-> "F64", bu |-> "F64"] : u \in Units}
ASSUME ndJsonSerialize(IOEnv.OUTFILE, SetToSeq(Single))
=============================================================================
