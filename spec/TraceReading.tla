---------------------------- MODULE TraceReading ----------------------------
(* Validates what reading malformed files and configurations answered against Reading and ConfigShape. *)
EXTENDS Reading, ConfigShape, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
vars == <<c, l, bad>>
E == Cases[c].ev[l]
(* the lines of a case are numbered, files are written as the numbers of their lines *)
File(f) == [k \in 1..Len(f) |-> Cases[c].lines[f[k]]]
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Event(op) == l <= Len(Cases[c].ev) /\ E.op = op

(* well-formed originals are read; otherwise nothing would be learnt from their corruptions *)
Original == IF E.base /\ ~E.ok THEN {"well_formed_input_refused"} ELSE {}
ReadingMap == Event("map") /\ bad' = MapFaults(File(E.file), E.nc, E.ec, E.ok, E.g) \cup Original
ReadingPairs == Event("pairs") /\ bad' = PairsFaults(File(E.file), E.ok, E.pairs) \cup Original
ReadingTable == Event("table") /\ bad' = TableFaults(File(E.file), E.header, E.cols, E.before, E.ok, E.after) \cup Original
ReadingConfig == Event("config") /\ bad' = ShapeFaults(E.sec, E.muts, E.ok) \cup Original
(* there is no such file *)
Absent == Event("absent") /\ bad' = IF E.ok THEN {"missing_file_accepted"} ELSE {}
(* whatever the answer is, there is one *)
Answered == Event("any") /\ bad' = {}
Broken == Event("broken") /\ bad' = {E.what}
Next == /\ ReadingMap \/ ReadingPairs \/ ReadingTable \/ ReadingConfig \/ Absent \/ Answered \/ Broken
        /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
