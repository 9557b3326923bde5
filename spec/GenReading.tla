------------------------------ MODULE GenReading ------------------------------
(* Every single corruption of given files (by the numbers of tokens of their lines), of the sections of           *)
(* configurations, and every choice of columns.                                                                 *)
EXTENDS ConfigShape, Json, IOUtils, SequencesExt
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
VARIABLE done

(* what takes the place of a token, or is put between tokens *)
Kinds == {"zero", "one", "two", "negone", "neg", "far", "dec", "negdec", "exp", "word", "huge", "umax", "big", "nbig", "ch", "chw",
          "nan", "inf", "multi", "hex", "comma", "dash", "plus", "under"}
Ed(do, a, t, w) == [do |-> do, a |-> a, t |-> t, w |-> w]
Edits(n) ==   \* n[a] tokens in line a
  LET A == 1..Len(n) IN
       {Ed(do, a, 0, "") : do \in {"del", "dup", "cut", "comment", "bytes", "spaces", "blank", "indent"}, a \in A}
  \cup {Ed(do, a, 0, "") : do \in {"swap", "glue"}, a \in 1..(Len(n) - 1)}
  \cup UNION {{Ed("rm", a, t, "") : t \in 1..n[a]} : a \in A}
  \cup UNION {{Ed("split", a, t, "") : t \in 1..(n[a] - 1)} : a \in A}
  \cup UNION {{Ed("put", a, t, w) : t \in 1..n[a], w \in Kinds} : a \in A}
  \cup UNION {{Ed("ins", a, t, w) : t \in 1..(n[a] + 1), w \in {"word", "one", "negone"}} : a \in A}
  \cup UNION {{Ed("turn", a, t, "") : t \in 1..(n[a] - 1)} : a \in A}   \* two neighbouring tokens change places

Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Once(s, S) == \A x \in S : Cardinality({k \in 1..Len(s) : s[k] = x}) <= 1
NodeColumns == {s \in Upto({"id", "lat", "lon", "lvl", "ign"}, 5) : Once(s, {"id", "lat", "lon", "lvl"}) /\ Len(SelectSeq(s, LAMBDA x : x = "ign")) <= 1}
EdgeColumns == {s \in Upto({"src", "dst", "m", "sc0", "sc1", "eid", "ign"}, 4) : Once(s, {"sc0", "sc1", "eid"})}
          \cup {s \in Upto({"src", "dst", "sc0", "sc1", "m"}, 5) : Once(s, {"src", "dst", "sc0", "sc1"})}
          \cup {<<"src", "dst">> \o [k \in 1..n |-> "m"] : n \in 3..8}

Out == [n \in 1..Len(Shapes) |-> [what |-> "edits", name |-> Shapes[n].name, all |-> SetToSeq(Edits(Shapes[n].n))]]
    \o <<[what |-> "nodes", name |-> "", all |-> SetToSeq(NodeColumns)],
         [what |-> "edges", name |-> "", all |-> SetToSeq(EdgeColumns)]>>
    \o [k \in 1..Cardinality(Sections) |-> LET s == SetToSeq(Sections)[k] IN [what |-> "config", name |-> s, all |-> SetToSeq(Changes(s))]]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, Out)
Spec == Init /\ [][Next]_done
=============================================================================
