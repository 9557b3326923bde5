------------------------------ MODULE ExportFs ------------------------------
(***************************************************************************)
(* What exports may do to the file system (C12).                            *)
(* The file system is a set of entries <<path, content>>; paths are          *)
(* numbers, contents positive numbers, directories have content Dir.          *)
(* An export x is a record                                                  *)
(*   kind     "map", "table", "routes", "vehicles", "workloads"              *)
(*   ext      extension of its target in lower case ("" if none)             *)
(*   targets  <<[p, want, fits], ...>> files it has to write, their complete  *)
(*            content, and whether the device has room for it                 *)
(*   parent   does the directory of the target exist?                         *)
(*   ok       was success reported?                                          *)
(*   after    the file system afterwards                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Dir == 0
SupportedForWriting == [map |-> {"fmi"}, table |-> {"csv"}, workloads |-> {"csv"}, routes |-> {"route-pairs"}]
SupportedForReading == [map |-> {"fmi", "pbf"}, routes |-> {"route-pairs"}, config |-> {"yaml"}]
Checked == {"map", "table", "workloads", "routes"}
Supported(x) == x.kind \notin Checked \/ x.ext \in SupportedForWriting[x.kind]

Present(fs, p) == \E e \in fs : e[1] = p
Entries(s) == {s[i] : i \in 1..Len(s)}
TargetPaths(x) == {x.targets[i].p : i \in 1..Len(x.targets)}
Blocked(fs, x) == ~x.parent \/ \E p \in TargetPaths(x) : Present(fs, p)
Room(x) == \A i \in 1..Len(x.targets) : x.targets[i].fits

(* a successful export adds exactly its complete targets *)
Written(fs, x) == fs \cup {<<x.targets[i].p, x.targets[i].want>> : i \in 1..Len(x.targets)}

ExportFaults(fs, x) ==
  LET after == Entries(x.after)
      new == {e \in after : ~Present(fs, e[1])}
  IN   (IF ~(fs \subseteq after) THEN {"existing_file_changed"} ELSE {})
  \cup (IF \E e \in new : e[1] \notin TargetPaths(x) THEN {"unexpected_file"} ELSE {})
  \cup (IF ~Supported(x) /\ x.ok THEN {"unsupported_extension_accepted"} ELSE {})
  \cup (IF ~Supported(x) /\ new # {} THEN {"refused_export_created_file"} ELSE {})
  \cup (IF Supported(x) /\ Blocked(fs, x) /\ x.ok THEN {"blocked_export_reported_success"} ELSE {})
  \cup (IF Supported(x) /\ ~Blocked(fs, x) /\ Room(x) /\ ~x.ok THEN {"export_refused"} ELSE {})
  \cup (IF Supported(x) /\ ~Blocked(fs, x) /\ x.ok /\ after # Written(fs, x) THEN {"incomplete_export_reported_success"} ELSE {})

(* reading: y.kind, y.ext, y.ok, and whether the file exists with sane content *)
ReadFaults(fs, y) ==
     (IF y.ext \notin SupportedForReading[y.kind] /\ y.ok THEN {"unsupported_extension_read"} ELSE {})
\cup (IF y.ext \in SupportedForReading[y.kind] /\ y.sane /\ ~y.ok THEN {"supported_file_refused"} ELSE {})
\cup (IF ~y.exists /\ y.ok THEN {"missing_file_read"} ELSE {})
\cup (IF Entries(y.after) # fs THEN {"reading_changed_files"} ELSE {})
=============================================================================
