----------------------------- MODULE ToolDesign -----------------------------
(* The tool as a machine that works off one task after another, run several times in one directory: *)
(* every schedule of failures and of files being there keeps the contract.                            *)
EXTENDS Tool
CONSTANTS MaxRuns, MaxBad, MaxOdd   \* MaxOdd: how many unusual things come together in the first run
VARIABLES fs, start, r, todo, st, runs, last
vars == <<fs, start, r, todo, st, runs, last>>

Lib == [graph |-> "lib.graph", edges |-> "lib.edges", pairs |-> "lib.pairs", info |-> "lib.info", abs |-> "lib.abs", veh |-> "lib.veh"]
Lists == {"list", "lib.pairs"}
Faults == UNION {{[p |-> p, k |-> k] : k \in Kinds(p)} : p \in Parts}
Bads == {{}} \cup {{x} : x \in Faults} \cup IF MaxBad > 1 THEN {{x, y} : x, y \in {z \in Faults : z.k \in {"missing", "invalid", "unset"}}} ELSE {}
Inputs(l) == {[p \in {l.cfg, l.map} |-> "given"]} \cup {[p \in {l.cfg, l.map, l.in} |-> IF p = l.in THEN c ELSE "given"] : c \in {"list", "rubbish"}}
Files == UNION {{Add(f, [p \in X |-> "old"]) : X \in {{}} \cup {{p} : p \in Writable(l)}, f \in Inputs(l)} : l \in {Default}}

Fresh(f) == /\ \/ r' \in [asked : SUBSET Tasks, bad : Bads, lay : Layouts, veh : {TRUE, FALSE}, plain : {FALSE}]
               \/ r' \in [asked : SUBSET (Tasks \cup {"balance"}), bad : {{}}, lay : {Default}, veh : {FALSE}, plain : {TRUE}]
            /\ fs' = f /\ start' = f /\ todo' = Todo(r'.asked) /\ st' = "starting"
Init == /\ fs \in Files /\ start = fs /\ runs = 0 /\ st = "idle" /\ todo = <<>> /\ last = <<>>
        /\ r = [asked |-> {}, bad |-> {}, lay |-> Default, veh |-> FALSE, plain |-> FALSE]
Begin == /\ st \in {"idle", "ok", "failed"} /\ runs < MaxRuns
         /\ runs' = runs + 1 /\ last' = IF st = "idle" THEN <<>> ELSE <<[r |-> r, ok |-> st = "ok"]>>
         /\ \/ Fresh(fs) /\ IF runs > 0 THEN r'.bad = {} /\ r'.lay = r.lay /\ r'.veh = r.veh
                            ELSE Cardinality(r'.bad) + (IF r'.lay = Default THEN 0 ELSE 1) + (IF fs[r'.lay.cfg] = "given" /\ \A p \in Writable(Default) : ~There(fs, p) THEN 0 ELSE 1) <= MaxOdd
            \/ runs > 0 /\ r' = r /\ fs' = fs /\ start' = fs /\ todo' = Todo(r.asked) /\ st' = "starting"   \* the same once more
ReadMap == /\ st = "starting" /\ st' = (IF Has(r, Always) THEN "failed" ELSE "working") /\ UNCHANGED <<fs, start, r, todo, runs, last>>
DoTask == /\ st = "working" /\ todo # <<>> /\ CanDo(fs, r, Head(todo), Lists)
          /\ fs' = Done(fs, r, Head(todo), Lib) /\ todo' = Tail(todo) /\ UNCHANGED <<start, r, st, runs, last>>
(* a failing task may have begun *)
Fail == /\ st = "working" /\ todo # <<>> /\ ~CanDo(fs, r, Head(todo), Lists)
        /\ \E X \in SUBSET {p \in Targets(r, Head(todo)) : ~There(fs, p)} :
             fs' = Add(fs, [p \in X |-> "partial"])
        /\ st' = "failed" /\ UNCHANGED <<start, r, todo, runs, last>>
End == /\ st = "working" /\ todo = <<>> /\ st' = "ok" /\ UNCHANGED <<fs, start, r, todo, runs, last>>
Next == Begin \/ ReadMap \/ DoTask \/ Fail \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadMap \/ DoTask \/ Fail \/ End)

Over == st \in {"ok", "failed"}
Keeps == Over => Contract(start, r, st = "ok", fs, Lists, Lib) = {}
NeverOverwrites == [][\A p \in DOMAIN fs : p \in DOMAIN fs' /\ fs'[p] = fs[p]]_vars
OkIsComplete == st = "ok" => \A t \in r.asked : ("evaluate" \in r.asked /\ t = "routing") \/ \A p \in Targets(r, t) : There(fs, p)
UnaskedIsUntouched == Over => \A t \in Tasks \ r.asked : \A p \in Targets(r, t) : There(fs, p) => There(start, p) \/ \E u \in r.asked : p \in Targets(r, u)
(* writing the same twice fails, reading the same twice does not *)
Twice == Over /\ last # <<>> /\ last[1].r = r /\ last[1].ok =>
           (st = "ok") = (\A t \in r.asked : Targets(r, t) = {})
PlainRefuses == st = "ok" /\ r.plain => {"evaluate", "balance"} \cap r.asked = {}
Halts == [](st = "starting" => <>Over)
=============================================================================
