---------------------------- MODULE MasterWorker ----------------------------
(***************************************************************************)
(* The design of multi-threaded route counting: a master hands packages of *)
(* route-pairs to NW workers over one queue per worker and collects        *)
(* outcomes from one common queue. Workers may fail (MayFail). Workers are  *)
(* 1..NW, the master is 0. Real constants: Init 50, Plus 30, Minus 10.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NW, Total, InitSize, Plus, Minus, MayFail, History

Ws == 1..NW
VARIABLES left,      \* route-pairs not handed out yet
          size,      \* current size of packages
          wq,        \* wq[w]: packages on their way to worker w
          oq,        \* outcomes <<w, n>> on their way to the master
          sock,      \* sock[w]: does the master still hold w's queue?
          pcM, last, got, counted, result,
          pcW, cur,
          hist       \* who moved (only if History)
vars == <<left, size, wq, oq, sock, pcM, last, got, counted, result, pcW, cur, hist>>

Note(a) == hist' = IF History THEN Append(hist, a) ELSE hist

Init == /\ left = Total /\ size = InitSize
        /\ wq = [w \in Ws |-> <<>>]
        /\ oq = [w \in Ws |-> <<w, 0>>]     \* every worker announces itself before it is started
        /\ sock = [w \in Ws |-> TRUE]
        /\ pcM = "try" /\ last = 0 /\ got = 0 /\ counted = 0 /\ result = "none"
        /\ pcW = [w \in Ws |-> "idle"] /\ cur = [w \in Ws |-> 0]
        /\ hist = <<>>

Ended(w) == pcW[w] \in {"done", "dead"}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* ---- the master ---- *)
Pop(newsize) ==
  /\ last' = oq[1][1] /\ got' = oq[1][2]
  /\ size' = IF oq[1][1] = 1 THEN newsize ELSE size
  /\ oq' = Tail(oq)
  /\ pcM' = "handle"
  /\ UNCHANGED <<left, wq, sock, counted, result, pcW, cur>>

TryRecv == /\ pcM = "try"
           /\ IF oq # <<>> THEN Pop(size + Plus)
              ELSE pcM' = "block" /\ UNCHANGED <<left, size, wq, oq, sock, last, got, counted, result, pcW, cur>>
BlockRecv == /\ pcM = "block" /\ oq # <<>> /\ Pop(Max(Minus, size - Minus))
(* all senders are gone *)
Disconnect == /\ pcM = "block" /\ oq = <<>> /\ \A w \in Ws : Ended(w)
              /\ pcM' = "final"
              /\ UNCHANGED <<left, size, wq, oq, sock, last, got, counted, result, pcW, cur>>

Package == Min(left, IF last = 2 THEN 1 ELSE size)
Handle == /\ pcM = "handle"
          /\ counted' = counted + got
          /\ got' = 0
          /\ IF left > 0
             THEN IF Ended(last)
                  THEN /\ result' = "err" /\ pcM' = "end"          \* sending fails
                       /\ UNCHANGED <<left, wq, sock>>
                  ELSE /\ wq' = [wq EXCEPT ![last] = Append(@, Package)]
                       /\ left' = left - Package
                       /\ pcM' = "try"
                       /\ UNCHANGED <<sock, result>>
             ELSE /\ sock' = [sock EXCEPT ![last] = FALSE]
                  /\ pcM' = "join"
                  /\ UNCHANGED <<left, wq, result>>
          /\ UNCHANGED <<size, oq, last, pcW, cur>>
Join == /\ pcM = "join" /\ Ended(last)
        /\ IF pcW[last] = "dead" THEN result' = "err" /\ pcM' = "end"
                                 ELSE result' = result /\ pcM' = "try"
        /\ UNCHANGED <<left, size, wq, oq, sock, last, got, counted, pcW, cur>>
(* sockets nobody asked for anymore belong to workers that stopped on their own *)
Final == /\ pcM = "final"
         /\ sock' = [w \in Ws |-> FALSE]
         /\ result' = IF left > 0 \/ \E w \in Ws : sock[w] /\ pcW[w] = "dead" THEN "err" ELSE "ok"
         /\ pcM' = "end"
         /\ UNCHANGED <<left, size, wq, oq, last, got, counted, pcW, cur>>

Master == (TryRecv \/ BlockRecv \/ Disconnect \/ Handle \/ Join \/ Final) /\ Note(0)

(* ---- worker w ---- *)
Take(w) == /\ pcW[w] = "idle" /\ wq[w] # <<>>
           /\ cur' = [cur EXCEPT ![w] = Head(wq[w])]
           /\ wq' = [wq EXCEPT ![w] = Tail(@)]
           /\ pcW' = [pcW EXCEPT ![w] = "busy"]
           /\ UNCHANGED <<left, size, oq, sock, pcM, last, got, counted, result>>
Stop(w) == /\ pcW[w] = "idle" /\ wq[w] = <<>> /\ (~sock[w] \/ pcM = "end")
           /\ pcW' = [pcW EXCEPT ![w] = "done"]
           /\ UNCHANGED <<left, size, wq, oq, sock, pcM, last, got, counted, result, cur>>
Finish(w) == /\ pcW[w] = "busy"
             /\ oq' = Append(oq, <<w, cur[w]>>)
             /\ cur' = [cur EXCEPT ![w] = 0]
             /\ pcW' = [pcW EXCEPT ![w] = "idle"]
             /\ UNCHANGED <<left, size, wq, sock, pcM, last, got, counted, result>>
Fail(w) == /\ MayFail /\ pcW[w] = "busy"
           /\ pcW' = [pcW EXCEPT ![w] = "dead"]
           /\ UNCHANGED <<left, size, wq, oq, sock, pcM, last, got, counted, result, cur>>
Worker(w) == (Take(w) \/ Stop(w) \/ Finish(w) \/ Fail(w)) /\ Note(w)

Next == Master \/ \E w \in Ws : Worker(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Master) /\ \A w \in Ws : WF_vars(Worker(w))

(* ---- properties ---- *)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))

Dead == {w \in Ws : pcW[w] = "dead"}
(* no route-pair is lost or worked off twice *)
Conservation == left + SumTo([w \in Ws |-> SumOf(wq[w])], NW) + SumTo(cur, NW)
                + SumOf([i \in 1..Len(oq) |-> oq[i][2]]) + counted + got = Total
OkIsComplete == result = "ok" => counted = Total /\ \A w \in Ws : pcW[w] = "done"
FailureReported == Dead # {} => result # "ok"
NoFailureNoError == Dead = {} => result # "err"
PackagesNotEmpty == \A w \in Ws : \A i \in 1..Len(wq[w]) : wq[w][i] > 0
Terminates == <>(result # "none")
WorkersStop == <>(\A w \in Ws : Ended(w))

(* every behaviour as a list of movers *)
Emit == result = "none" \/ (\E w \in Ws : ~Ended(w)) \/ PrintT("STAT|sched|" \o ToString(hist))
=============================================================================
