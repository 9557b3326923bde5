--------------------------- MODULE TraceConstructor ---------------------------
(* Runs of the wrapping binary: cfg, fault, calls (of the external tools, as they were received), res, kept (are all *)
(* files as they were, except for the contracted map?), there (is the contracted map, as the constructor wrote it?) *)
EXTENDS Constructor, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
If(b, name) == IF b THEN {} ELSE {name}
T == Cases[c]
Ev == T.ev[l]
StepsOf(s) == [k \in 1..Len(s) |-> s[k].step]
Run(e) ==
  LET want == Calls(T.cfg, e.fault) IN
  IF e.fault \notin Faults THEN {"GEN_fault"}
  ELSE IF e.res \notin {"ok", "err"} THEN {e.res}
  ELSE      If((e.res = "ok") = Succeeds(e.fault), IF e.res = "ok" THEN "success_despite_fault" ELSE "failed_without_reason")
       \cup If(e.kept, "other_file_changed")
       \cup If(StepsOf(e.calls) = StepsOf(want), "steps_are_not_as_configured")
       \cup (IF StepsOf(e.calls) # StepsOf(want) THEN {}
             ELSE UNION {If(e.calls[k] = want[k], want[k].step \o "_is_not_as_configured") : k \in 1..Len(want)})
       \cup If(e.res = "ok" => e.there, "contracted_map_missing")
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Next == l <= Len(T.ev) /\ bad' = Run(Ev) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_<<c, l, bad>>
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
