--------------------------- MODULE ExportProtocol ---------------------------
(***************************************************************************)
(* How an export writes its file: exclusive creation, buffered writing of    *)
(* Size blocks, a final flush; the device may run full at any block.          *)
(* Several exports run at the same time, with any targets; the user's own     *)
(* files lie under some of the paths.                                        *)
(* Checked: no content that was there is ever changed, and whoever reports    *)
(* success has written its complete content.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Exporters, Paths, Size, Buffer
VARIABLES fs,      \* path -> [owner, blocks]; owner 0: the user's, -1: no file
          target, pc, written, buffered
vars == <<fs, target, pc, written, buffered>>
None == [owner |-> -1, blocks |-> 0]
Users == [owner |-> 0, blocks |-> 1]
Init ==
  /\ fs \in [Paths -> {None, Users}]
  /\ target \in [Exporters -> Paths]
  /\ pc = [e \in Exporters |-> "create"]
  /\ written = [e \in Exporters |-> 0]
  /\ buffered = [e \in Exporters |-> 0]
Create(e) ==
  /\ pc[e] = "create"
  /\ IF fs[target[e]] = None
     THEN /\ fs' = [fs EXCEPT ![target[e]] = [owner |-> e, blocks |-> 0]]
          /\ pc' = [pc EXCEPT ![e] = "write"]
     ELSE /\ pc' = [pc EXCEPT ![e] = "err"] /\ UNCHANGED fs
  /\ UNCHANGED <<target, written, buffered>>
Fill(e) ==   \* a block goes to the buffer
  /\ pc[e] = "write" /\ written[e] < Size /\ buffered[e] < Buffer
  /\ written' = [written EXCEPT ![e] = @ + 1]
  /\ buffered' = [buffered EXCEPT ![e] = @ + 1]
  /\ UNCHANGED <<fs, target, pc>>
Drain(e) ==  \* the buffer goes to the device, because it is full or at the end
  /\ pc[e] = "write" /\ buffered[e] > 0 /\ (buffered[e] = Buffer \/ written[e] = Size)
  /\ \/ /\ fs' = [fs EXCEPT ![target[e]].blocks = @ + buffered[e]]
        /\ buffered' = [buffered EXCEPT ![e] = 0]
        /\ UNCHANGED pc
     \/ /\ pc' = [pc EXCEPT ![e] = "err"]       \* device full
        /\ UNCHANGED <<fs, buffered>>
  /\ UNCHANGED <<target, written>>
Finish(e) ==
  /\ pc[e] = "write" /\ written[e] = Size /\ buffered[e] = 0
  /\ pc' = [pc EXCEPT ![e] = "ok"]
  /\ UNCHANGED <<fs, target, written, buffered>>
Next == \E e \in Exporters : Create(e) \/ Fill(e) \/ Drain(e) \/ Finish(e)
Spec == Init /\ [][Next]_vars /\ \A e \in Exporters : WF_vars(Create(e) \/ Fill(e) \/ Drain(e) \/ Finish(e))
NeverOverwritten == [][\A p \in Paths : fs[p] # None => fs'[p].owner = fs[p].owner /\ (fs[p].owner = 0 => fs'[p] = fs[p])]_fs
SuccessIsComplete == \A e \in Exporters : pc[e] = "ok" => fs[target[e]] = [owner |-> e, blocks |-> Size]
Ends == <>(\A e \in Exporters : pc[e] \in {"ok", "err"})
=============================================================================
