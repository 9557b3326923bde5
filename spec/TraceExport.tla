---------------------------- MODULE TraceExport ----------------------------
(* Validates recorded exports (and reading them back) against Exporting. *)
EXTENDS Exporting, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, g, bad
vars == <<c, l, g, bad>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ g = <<>> /\ bad = {}
X == Cases[c].ev[l]
Event(op) == l <= Len(Cases[c].ev) /\ X.op = op
Load == Event("load") /\ g' = X.g /\ bad' = {}
ExportMap == Event("map") /\ UNCHANGED g /\ bad' = MapFaults(g, X)
Reread == Event("reread") /\ UNCHANGED g /\ bad' = RereadFaults(g, X)
ExportTable == Event("table") /\ UNCHANGED g /\ bad' = TableFaults(g, X)
MergeBack == Event("merged") /\ UNCHANGED g /\ bad' = MergeFaults(g, X)
ExportRoutes == Event("routes") /\ UNCHANGED g /\ bad' = RouteFaults(g, X)
ExportVehicles == Event("vehicles") /\ UNCHANGED g /\ bad' = VehicleFaults(g, X)
ExportWorkloads == Event("workloads") /\ UNCHANGED g /\ bad' = WorkloadFaults(g, X)
ReadRoutes == Event("routefile") /\ UNCHANGED g /\ bad' = RouteFileFaults(X)
Broken == Event("broken") /\ UNCHANGED g /\ bad' = {X.what}
Next == /\ Load \/ ExportMap \/ Reread \/ ExportTable \/ MergeBack \/ ExportRoutes \/ ExportVehicles \/ ExportWorkloads \/ ReadRoutes \/ Broken
        /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
