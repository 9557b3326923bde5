------------------------------ MODULE TraceFs ------------------------------
(* Validates recorded histories of exports and reads against ExportFs: the file system is the state. *)
EXTENDS ExportFs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, fs, bad
vars == <<c, l, fs, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ fs = {} /\ bad = {}
X == Cases[c].ev[l]
Event(op) == l <= Len(Cases[c].ev) /\ X.op = op
(* the user changes the file system between exports *)
UserSet == Event("set") /\ fs' = Entries(X.after) /\ bad' = {}
Export == Event("export") /\ fs' = Entries(X.after) /\ bad' = ExportFaults(fs, X)
Read == Event("read") /\ fs' = Entries(X.after) /\ bad' = ReadFaults(fs, X)
Broken == Event("broken") /\ UNCHANGED fs /\ bad' = {X.what}
Next == (UserSet \/ Export \/ Read \/ Broken) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
