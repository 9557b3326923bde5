---------------------------- MODULE CompiledDesign ----------------------------
(***************************************************************************)
(* The library is compiled for a number of metrics; a config with more of     *)
(* them has to be refused before the map is read (C23). The number is told    *)
(* from the config's entries alone (Grown). Here, all sequences of entries    *)
(* are worked off: the number told is the one the table really ends with,     *)
(* and no step in between needs more room.                                    *)
(***************************************************************************)
EXTENDS Metrics, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, MaxCols, EmitLen
VARIABLES start, t, prog
vars == <<start, t, prog>>
Names == <<"a", "b", "c", "d", "e">>
UnitAt == <<"Kilometers", "KilometersPerHour", "F64", "F64", "F64">>
Table(p) == [ok |-> TRUE, cols |-> [k \in 1..p |-> [id |-> Names[k], unit |-> UnitAt[k], v |-> <<QInt(k)>>]], meta |-> {"src-id"}, eids |-> <<7>>, arcs |-> <<60>>]
New == CHOOSE x \in {"n1", "n2", "n3", "n4", "n5"} : x \notin Ids(t)
Cols == {t.cols[k].id : k \in 1..Len(t.cols)}
UnitOf(id) == t.cols[Pos(t, id)].unit
Entries ==
       {[op |-> "custom", id |-> New, unit |-> "F64", default |-> QInt(1)], [op |-> "haversine", id |-> New, unit |-> "Kilometers"],
        [op |-> "meta", id |-> New, info |-> "SrcIdx"]}
  \cup {[op |-> "copy", from |-> f, fu |-> UnitOf(f), to |-> New, tu |-> "F64"] : f \in Cols}
  \cup {[op |-> "convert", from |-> f, fu |-> UnitOf(f), to |-> g, tu |-> "F64"] : f \in Cols, g \in {New}}
  \cup {[op |-> "calc", r |-> New, ru |-> "Hours", a |-> a, au |-> UnitOf(a), b |-> b, bu |-> UnitOf(b)] : a \in Cols, b \in Cols}
  \cup {[op |-> "merge", ids |-> <<"edge-id", f>>, eid |-> "edge-id", rows |-> <<<<QInt(7), QInt(3)>>>>] : f \in Cols}
Init == start \in {Table(p) : p \in 0..MaxCols} /\ t = start /\ prog = <<>>
Next == /\ t.ok /\ Len(prog) < MaxLen
        /\ \E o \in Entries : t' = TLCEval(Apply(t, o)) /\ prog' = Append(prog, o)
        /\ start' = start
Spec == Init /\ [][Next]_vars
ToldIsTrue == t.ok => Grown(start, prog) = Len(t.cols)
NeverShrinks == [][t'.ok => Len(t'.cols) >= Len(t.cols)]_vars
(* what is replayed: a number of parsed columns and kinds of entries *)
Kinds == {"custom", "haversine", "meta", "copy", "convert", "calc", "merge"}
Plans == UNION {[cols : 0..MaxCols, kinds : [1..n -> Kinds]] : n \in 0..EmitLen}
ASSUME ndJsonSerialize(IOEnv.OUTFILE, SetToSeq(Plans))
=============================================================================
