------------------------------- MODULE GenTool -------------------------------
(* Every run with at most one unusual thing: a fault, a file that is already there, or a layout; *)
(* and all pairs of absent or invalid sections.                                                   *)
EXTENDS Tool, Json, IOUtils, SequencesExt
VARIABLE done
Faults == UNION {{[p |-> p, k |-> k] : k \in Kinds(p)} : p \in Parts}
Inputs == {"list", "absent", "malformed", "unknown", "empty"}
R(b, l, i, o, v) == [bad |-> b, lay |-> l, input |-> i, old |-> o, veh |-> v]
One == {R({}, Default, "list", {}, v) : v \in {TRUE, FALSE}}
  \cup {R({f}, Default, "list", {}, FALSE) : f \in Faults}
  \cup {R({}, l, i, {}, FALSE) : l \in Layouts, i \in Inputs}
  \cup {R({}, Default, "list", {p}, TRUE) : p \in Writable(Default)}
  \cup {R({}, Here, "list", {p}, TRUE) : p \in Writable(Here) \ Writable(Default)}
Two == {R({x, y}, Default, "list", {}, FALSE) : x, y \in {z \in Faults : z.k \in {"missing", "invalid", "nodir", "column"}}}
  \cup {R({f}, Default, "list", {p}, TRUE) : f \in Faults, p \in Writable(Default)}
  \cup {R({f}, l, i, {}, TRUE) : f \in {z \in Faults : z.k \in {"missing", "unset"}}, l \in Layouts, i \in {"list", "absent"}}
Apart(S) == \A a, b \in S : a # b => a.p # b.p
(* every combination of tasks with each of these *)
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, <<[what |-> "asked", all |-> SetToSeq(SUBSET Tasks)], [what |-> "one", all |-> SetToSeq(One)],
                                           [what |-> "two", all |-> SetToSeq({x \in Two : Apart(x.bad)})]>>)
Spec == Init /\ [][Next]_done
=============================================================================
