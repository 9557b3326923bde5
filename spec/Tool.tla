-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The command-line tool: a run reads a config and a map and works off the   *)
(* asked tasks one after another (C20).                                      *)
(*                                                                          *)
(* The file system is a function from paths to contents; contents are         *)
(* opaque strings, a path outside of its domain isn't there.                  *)
(* A run r is a record                                                       *)
(*   asked   the asked tasks, a set                                          *)
(*   bad     what is wrong with the config and its inputs, a set of [p, k]    *)
(*   lay     the paths (strings) the config names: map, in (route-pairs to    *)
(*           read), graph, edges, pairs, dir, info, abs, veh (to be written)   *)
(*   veh     are vehicles exported?                                          *)
(*   plain   is the tool built without its gpl-part? Then it can neither        *)
(*           evaluate nor balance, and doesn't know the explorator             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Tasks == {"graph", "edges", "pairs", "routing", "evaluate"}
Order == <<"graph", "edges", "pairs", "routing", "evaluate", "balance">>
(* balancing is specified in Pipeline; here it is just what a plain tool can't do *)
Unbuilt(r) == IF r.plain THEN {"evaluate", "balance"} ELSE {}
(* evaluating a balance routes anyway *)
Todo(asked) == SelectSeq(Order, LAMBDA t : t \in asked /\ ~(t = "routing" /\ "evaluate" \in asked))

(* what has to be in order for anything, and for a task *)
Always == {"cli", "config", "parsing", "map"}
Needs(t) == CASE t = "graph" -> {"wgraph"} [] t = "edges" -> {"wedges"} [] t = "pairs" -> {"routing", "wpairs"}
              [] t = "routing" -> {"routing", "pairsfile"} [] t = "evaluate" -> {"routing", "pairsfile", "evaluating"}
              [] t = "balance" -> {}
Parts == Always \cup UNION {Needs(t) : t \in Tasks}
Kinds(p) == CASE p = "cli" -> {"no-config", "unknown-flag", "log-level"}
              [] p = "config" -> {"absent", "ext", "broken"}
              [] p = "parsing" -> {"missing", "invalid"}
              [] p = "map" -> {"absent", "malformed", "ext"}
              [] p \in {"wgraph", "wedges"} -> {"missing", "invalid", "ext", "column", "nodir"}
              [] p = "wpairs" -> {"missing", "invalid", "ext", "nodir"}
              [] p = "routing" -> {"missing", "invalid", "metric", "algorithm"}   \* and "unbuilt"
              [] p = "pairsfile" -> {"unset"}
              [] p = "evaluating" -> {"missing", "invalid", "column", "ext"}

Has(r, P) == \E x \in r.bad : x.p \in P
Wanted(r) == Always \cup UNION {Needs(t) : t \in r.asked}
(* a section nobody needs may be refused unless it is just absent *)
Open(r) == \E x \in r.bad : x.p \notin Wanted(r) /\ x.k \notin {"missing", "unset"}

There(fs, p) == p \in DOMAIN fs
Targets(r, t) == CASE t = "graph" -> {r.lay.graph} [] t = "edges" -> {r.lay.edges} [] t = "pairs" -> {r.lay.pairs}
                   [] t \in {"routing", "balance"} -> {} [] t = "evaluate" -> {r.lay.info, r.lay.abs} \cup IF r.veh THEN {r.lay.veh} ELSE {}
Role(r, t, p) == CASE t \in {"graph", "edges", "pairs"} -> t
                   [] OTHER -> IF p = r.lay.info THEN "info" ELSE IF p = r.lay.abs THEN "abs" ELSE "veh"

(* lists: contents that are readable lists of pairs the map knows *)
CanDo(fs, r, t, lists) ==
  /\ ~Has(r, Needs(t))
  /\ t \notin Unbuilt(r)
  /\ \A p \in Targets(r, t) : ~There(fs, p)
  /\ Cardinality(Targets(r, t)) = (IF t = "evaluate" THEN (IF r.veh THEN 3 ELSE 2) ELSE IF t \in {"routing", "balance"} THEN 0 ELSE 1)
  /\ t \in {"routing", "evaluate"} => There(fs, r.lay.in) /\ fs[r.lay.in] \in lists
Add(fs, new) == [p \in DOMAIN fs \cup DOMAIN new |-> IF p \in DOMAIN fs THEN fs[p] ELSE new[p]]
(* lib: the content the library writes, by role *)
Done(fs, r, t, lib) == Add(fs, [p \in Targets(r, t) |-> lib[Role(r, t, p)]])

RECURSIVE Work(_, _, _, _, _)
(* <<all done?, file system>> after working off ts *)
Work(fs, r, ts, lists, lib) ==
  IF ts = <<>> THEN <<TRUE, fs>>
  ELSE IF ~CanDo(fs, r, Head(ts), lists) THEN <<FALSE, fs>>
  ELSE Work(Done(fs, r, Head(ts), lib), r, Tail(ts), lists, lib)
Result(fs, r, lists, lib) == IF Has(r, Always) THEN <<FALSE, fs>> ELSE Work(fs, r, Todo(r.asked), lists, lib)

(* ---- the contract ---- *)
MayCreate(r) == UNION {Targets(r, t) : t \in r.asked} \cup IF "evaluate" \in r.asked THEN {r.lay.dir} ELSE {}
Contract(fs, r, ok, after, lists, lib) ==
  LET res == Result(fs, r, lists, lib)
      want == res[2]
      judged == {p \in DOMAIN want \ DOMAIN fs : \E t \in r.asked : p \in Targets(r, t) /\ Role(r, t, p) \notin {"abs", "veh"}}
  IN   (IF \E p \in DOMAIN fs : p \notin DOMAIN after \/ after[p] # fs[p] THEN {"existing_file_changed"} ELSE {})
  \cup (IF \E p \in DOMAIN after \ DOMAIN fs : p \notin MayCreate(r) THEN {"unasked_file"} ELSE {})
  \cup (IF ok /\ ~res[1] THEN {"success_despite_fault"} ELSE {})
  \cup (IF ~ok /\ res[1] /\ ~Open(r) /\ (There(fs, r.lay.veh) => "evaluate" \notin r.asked) THEN {"failed_without_reason"} ELSE {})
  \cup (IF ok /\ res[1] /\ \E p \in DOMAIN want : p \notin DOMAIN after THEN {"asked_file_missing"} ELSE {})
  \cup (IF ok /\ res[1] /\ \E p \in judged : p \in DOMAIN after /\ after[p] # want[p] THEN {"asked_file_differs_from_library"} ELSE {})

(* ---- layouts ---- *)
Default == [cfg |-> "c.yaml", map |-> "m.fmi", in |-> "p.route-pairs", graph |-> "g2.fmi", edges |-> "e2.csv", pairs |-> "p2.route-pairs",
            dir |-> "out", info |-> "out/info.csv", abs |-> "out/abs_workloads.csv", veh |-> "out/smarts.xml"]
Here == [Default EXCEPT !.dir = ".", !.info = "info.csv", !.abs = "abs_workloads.csv", !.veh = "smarts.xml"]
Layouts == {Default, Here,
            [Default EXCEPT !.in = "p2.route-pairs"],     \* routes over the pairs written before
            [Default EXCEPT !.pairs = "p.route-pairs"],   \* the list to read is the list to write
            [Default EXCEPT !.graph = "m.fmi"],           \* the map to read is the map to write
            [Here EXCEPT !.edges = "info.csv"], [Here EXCEPT !.edges = "abs_workloads.csv"],
            [Default EXCEPT !.info = "out/abs_workloads.csv"]}
Writable(l) == {l.graph, l.edges, l.pairs, l.info, l.abs, l.veh}
=============================================================================
