------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The build pipeline of src/network/graph/building.rs (finalize): sort,    *)
(* remap shortcut-references, remove duplicates reading position r and       *)
(* writing position w, shift references down, build the offset-arrays of     *)
(* both directions.  Checked for every list of up to MaxE edges over the      *)
(* nodes V with metrics M, edges of the list optionally being shortcuts of    *)
(* any two listed edges: the result is related to the input as Building       *)
(* demands.                                                                *)
(***************************************************************************)
EXTENDS Building, SequencesExt
CONSTANTS V, M, MaxE
VARIABLES inp, pc, es, w, r, removed, offs, boffs
vars == <<inp, pc, es, w, r, removed, offs, boffs>>

Edges == {[s |-> a, d |-> b, m |-> <<x>>, sc |-> sc, id |-> None] : a \in V, b \in V, x \in M,
          sc \in {<<>>} \cup ((1..MaxE) \X (1..MaxE))}
Init == /\ \E n \in 1..MaxE :
             /\ inp \in [1..n -> Edges]
             /\ \A i \in 1..n : inp[i].sc # <<>> => inp[i].sc[1] \in 1..n /\ inp[i].sc[2] \in 1..n /\ inp[i].sc[1] # i /\ inp[i].sc[2] # i
        /\ pc = "sort" /\ es = <<>> /\ w = 0 /\ r = 0 /\ removed = <<>> /\ offs = <<>> /\ boffs = <<>>

Level(v) == v % 2   \* some levels
(* total preorder of the sort *)
Before(a, b) == \/ a.s < b.s
                \/ a.s = b.s /\ Level(a.d) > Level(b.d)
                \/ a.s = b.s /\ Level(a.d) = Level(b.d) /\ a.d < b.d
                \/ a.s = b.s /\ a.d = b.d /\ IsSc(a) # IsSc(b) /\ IsSc(b)
                \/ a.s = b.s /\ a.d = b.d /\ IsSc(a) = IsSc(b) /\ a.m[1] < b.m[1]
(* stable: position of edge i of the input *)
NewPos(i) == 1 + Cardinality({j \in 1..Len(inp) : Before(inp[j], inp[i]) \/ (~Before(inp[i], inp[j]) /\ j < i)})
Sort == /\ pc = "sort"
        /\ LET old == [p \in 1..Len(inp) |-> CHOOSE i \in 1..Len(inp) : NewPos(i) = p]
           IN es' = [p \in 1..Len(inp) |-> LET e == inp[old[p]] IN
                      [e EXCEPT !.sc = IF e.sc = <<>> THEN <<>> ELSE <<NewPos(e.sc[1]), NewPos(e.sc[2])>>]]
        /\ pc' = "dedup" /\ w' = 2 /\ r' = 2
        /\ UNCHANGED <<inp, removed, offs, boffs>>
Duplicate(a, b) == a.s = b.s /\ a.d = b.d /\ a.m = b.m /\ IsSc(a) = IsSc(b)
Dedup == /\ pc = "dedup" /\ r <= Len(es)
         /\ IF Duplicate(es[w - 1], es[r])
            THEN removed' = Append(removed, r) /\ UNCHANGED <<es, w>>
            ELSE es' = [es EXCEPT ![w] = es[r], ![r] = es[w]] /\ w' = w + 1 /\ removed' = removed
         /\ r' = r + 1
         /\ UNCHANGED <<inp, pc, offs, boffs>>
Shift(x) == FoldRight(LAMBDA rem, acc : IF acc >= rem THEN acc - 1 ELSE acc, removed, x)
Fix == /\ pc = "dedup" /\ r > Len(es)
       /\ es' = [p \in 1..(Len(es) - Len(removed)) |->
                  [es[p] EXCEPT !.sc = IF @ = <<>> THEN <<>> ELSE <<Shift(@[1]), Shift(@[2])>>]]
       /\ pc' = "offsets"
       /\ UNCHANGED <<inp, w, r, removed, offs, boffs>>
NodeSeq == SetToSortSeq({inp[i].s : i \in 1..Len(inp)} \cup {inp[i].d : i \in 1..Len(inp)}, <)
Pos(v) == CHOOSE k \in 1..Len(NodeSeq) : NodeSeq[k] = v
(* offset of node k: number of edges of earlier nodes *)
Offsets(Key(_)) == [k \in 1..Len(NodeSeq) + 1 |-> Cardinality({i \in 1..Len(es) : Pos(Key(es[i])) < k})]
Offset == /\ pc = "offsets"
          /\ offs' = Offsets(Src)
          /\ boffs' = Offsets(Dst)
          /\ pc' = "done"
          /\ UNCHANGED <<inp, es, w, r, removed>>
Next == Sort \/ Dedup \/ Fix \/ Offset
Spec == Init /\ [][Next]_vars

Map == [N |-> [k \in 1..Len(NodeSeq) |-> [id |-> NodeSeq[k], lat |-> 0, lon |-> 0, lvl |-> Level(NodeSeq[k])]], E |-> inp]
Slice(off, k, all) == SubSeq(all, off[k] + 1, off[k + 1])
(* entering edges: positions sorted by destination *)
ByDst == SetToSortSeq(1..Len(es), LAMBDA a, b : \/ Pos(es[a].d) < Pos(es[b].d) \/ (es[a].d = es[b].d /\ a < b))
Built ==
  LET E == [i \in 1..Len(es) |-> [s |-> Pos(es[i].s), d |-> Pos(es[i].d), m |-> es[i].m, sc |-> es[i].sc, issc |-> IsSc(es[i]), id |-> None]]
  IN [N |-> Map.N, E |-> E, nc |-> Len(NodeSeq), fc |-> Len(E), bc |-> Len(E), n |-> Len(NodeSeq),
      out |-> [k \in 1..Len(NodeSeq) |-> [x \in 1..(offs[k + 1] - offs[k]) |-> LET i == offs[k] + x IN [e |-> i, d |-> E[i].d, m |-> E[i].m]]],
      in |-> [k \in 1..Len(NodeSeq) |-> [x \in 1..(boffs[k + 1] - boffs[k]) |-> LET i == ByDst[boffs[k] + x] IN [e |-> i, d |-> E[i].s, m |-> E[i].m]]]]
Faithful == pc = "done" => NodeFaults(Map, Built) \cup EdgeFaults(Map, Built) \cup AdjacencyFaults(Built) = {}
ShortcutsKept == pc = "done" => ShortcutFaults(Map, Built) = {}
(* the hierarchical search stops at the first edge leading downwards *)
LevelSorted == pc = "done" => \A v \in 1..Len(NodeSeq) : \A a, b \in (offs[v] + 1)..offs[v + 1] : a < b => Level(es[a].d) >= Level(es[b].d)
=============================================================================
