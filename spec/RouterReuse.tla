----------------------------- MODULE RouterReuse -----------------------------
(***************************************************************************)
(* The buffers a router keeps between queries (costs, predecessors and the   *)
(* list of touched entries of src/routing/dijkstra.rs) over every history    *)
(* of queries on graphs of 1..MaxN nodes, each query touching any set of     *)
(* nodes.  A query may only start with buffers that fit the graph and hold   *)
(* nothing of earlier queries: then its answer is a fresh router's.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxN, MaxQ
VARIABLES len,      \* length of the buffers
          dirty,    \* indices holding values of a query
          touched,  \* indices remembered as touched
          graph,    \* nodes of the current query's graph, 0 between queries
          count
vars == <<len, dirty, touched, graph, count>>
Init == len = 0 /\ dirty = {} /\ touched = {} /\ graph = 0 /\ count = 0

(* init_query: forget what was touched, then fit the buffers to the graph *)
Start(n) == /\ graph = 0 /\ count < MaxQ
            /\ graph' = n
            /\ count' = count + 1
            /\ dirty' = {i \in dirty \ touched : i <= n}
            /\ touched' = {}
            /\ len' = n
Touch(i) == /\ graph # 0 /\ i \in 1..graph
            /\ dirty' = dirty \cup {i}
            /\ touched' = touched \cup {i}
            /\ UNCHANGED <<len, graph, count>>
End == /\ graph # 0 /\ graph' = 0
       /\ UNCHANGED <<len, dirty, touched, count>>
Next == (\E n \in 1..MaxN : Start(n)) \/ (\E i \in 1..MaxN : Touch(i)) \/ End
Spec == Init /\ [][Next]_vars
Clean == dirty \subseteq touched
Fits == graph # 0 => len = graph /\ \A i \in dirty : i <= len
=============================================================================
