------------------------------- MODULE Reading -------------------------------
(***************************************************************************)
(* What a text-file says, or that it says nothing (C13).                    *)
(*                                                                         *)
(* A file is a sequence of lines [f, t]: f is "comment", "empty", "data",    *)
(* "spaces" (white-space only) or "bytes" (no text at all); t is its         *)
(* sequence of tokens. A token is a record                                  *)
(*   k   its kind                                                           *)
(*         "int"    an integer, i is its value                              *)
(*         "big"    an integer up to 2^63-1 beyond TLC's numbers            *)
(*         "umax"   an integer from 2^63 up to 2^64-1                       *)
(*         "nbig"   an integer down to -2^63 beyond TLC's numbers           *)
(*         "huge"   an integer beyond all of them                           *)
(*         "dec"    a number with point or exponent                         *)
(*         "nan", "inf"                                                     *)
(*         "ch"     ch followed by an integer (a shortcut-id)               *)
(*         "word"   anything else                                           *)
(*   i   its value as integer (a unique stand-in for "big", "umax", "nbig")  *)
(*   c   its value as coordinate, in 10^-7;  co: cannot be told in TLC       *)
(*   m   its value as metric, in 10^-3;      mo: cannot be told in TLC       *)
(*                                                                         *)
(* Readings have a status: "ok" with what was said, "bad" (an error has to   *)
(* be returned), or "open" (nothing is demanded but an orderly answer).      *)
(***************************************************************************)
EXTENDS Building

RECURSIVE Run(_, _)
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "open" \in S THEN "open" ELSE "ok"

(* ------------------------------ fields ------------------------------ *)
AsI64(t) == IF t.k \in {"int", "big", "nbig"} THEN "ok" ELSE "bad"
AsUsize(t) == IF (t.k = "int" /\ t.i >= 0) \/ t.k \in {"big", "umax"} THEN "ok" ELSE "bad"
AsShortcut(t) == IF t.k = "int" /\ t.i = -1 THEN "ok" ELSE AsUsize(t)
AsEdgeId(t) == IF t.k = "ch" THEN "open" ELSE AsUsize(t)
AsCoord(t) == IF t.k \in {"word", "ch"} THEN "bad" ELSE IF t.co THEN "open" ELSE "ok"
AsMetric(t) == IF t.k \in {"word", "ch", "nan"} THEN "bad" ELSE IF t.mo THEN "open" ELSE "ok"
As(col, t) ==
  CASE col \in {"id", "src", "dst"} -> AsI64(t)
    [] col = "lvl" -> AsUsize(t)
    [] col \in {"sc0", "sc1"} -> AsShortcut(t)
    [] col = "eid" -> AsEdgeId(t)
    [] col \in {"lat", "lon"} -> AsCoord(t)
    [] col = "m" -> AsMetric(t)
    [] OTHER -> "ok"

(* a line under the columns of a configuration; surplus tokens mean nothing *)
LineStatus(cols, line) ==
  IF line.f = "bytes" THEN "bad"
  ELSE IF Len(line.t) < Len(cols) THEN "bad"
  ELSE Worst({As(cols[k], line.t[k]) : k \in 1..Len(cols)})

At(cols, x) == CHOOSE k \in 1..Len(cols) : cols[k] = x
Has(cols, x) == \E k \in 1..Len(cols) : cols[k] = x

NodeOf(cols, line) ==
  [id |-> line.t[At(cols, "id")].i, lat |-> line.t[At(cols, "lat")].c, lon |-> line.t[At(cols, "lon")].c,
   lvl |-> IF Has(cols, "lvl") THEN line.t[At(cols, "lvl")].i ELSE 0]
OneSided(cols, line) ==
  Has(cols, "sc0") /\ (line.t[At(cols, "sc0")].i = -1) # (line.t[At(cols, "sc1")].i = -1)
EdgeOf(cols, line) ==
  LET M == SelectSeq([k \in 1..Len(cols) |-> k], LAMBDA k : cols[k] = "m") IN
  [s |-> line.t[At(cols, "src")].i, d |-> line.t[At(cols, "dst")].i,
   m |-> [k \in 1..Len(M) |-> line.t[M[k]].m],
   sc |-> IF ~Has(cols, "sc0") \/ line.t[At(cols, "sc0")].i = -1 THEN <<>>
          ELSE <<line.t[At(cols, "sc0")].i + 1, line.t[At(cols, "sc1")].i + 1>>,
   id |-> IF Has(cols, "eid") THEN line.t[At(cols, "eid")].i ELSE None]

(* ------------------------------ the header ------------------------------ *)
Functional(file) == SelectSeq(file, LAMBDA l : l.f \notin {"comment", "empty"})

(* the lines in front of the counts have several tokens, the counts are lines of one token *)
First(L) == LET S == {k \in 1..Len(L) : Len(L[k].t) = 1} IN IF S = {} THEN Len(L) + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
Run(L, k) == IF k <= Len(L) /\ Len(L[k].t) = 1 THEN Run(L, k + 1) ELSE k   \* the line behind the counts
(* the numbers among them, in order *)
Counts(L) ==
  LET a == First(L)
      b == Run(L, a) IN
  SelectSeq([k \in 1..(b - a) |-> L[a + k - 1].t[1]], LAMBDA t : AsUsize(t) = "ok")
Body(L) == Run(L, First(L))
Unclear(L, upto) == \E k \in 1..Len(L) : k < upto /\ L[k].f \in {"spaces", "bytes"}

(* ------------------------------ maps ------------------------------ *)
(* configurations that cannot describe a map *)
ConfigFault(nc, ec) ==
  \/ ~Has(nc, "id") \/ ~Has(nc, "lat") \/ ~Has(nc, "lon")
  \/ Cardinality({k \in 1..Len(ec) : ec[k] \in {"sc0", "sc1"}}) \notin {0, 2}
  \/ Cardinality({k \in 1..Len(ec) : ec[k] = "m"}) > 5
EndpointFault(ec) == ~Has(ec, "src") \/ ~Has(ec, "dst") \/ \E x \in {"src", "dst"} : Cardinality({k \in 1..Len(ec) : ec[k] = x}) > 1

ReadMap(file, nc, ec) ==
  LET L == Functional(file)
      cs == Counts(L)
      a == Body(L)
      big == Len(cs) >= 2 /\ \E k \in {Len(cs) - 1, Len(cs)} : cs[k].k # "int"
      nn == cs[Len(cs) - 1].i
      ne == cs[Len(cs)].i
      NLines == [k \in 1..nn |-> L[a + k - 1]]
      ELines == [k \in 1..ne |-> L[a + nn + k - 1]]
      st == Worst({LineStatus(nc, NLines[k]) : k \in 1..nn} \cup {LineStatus(ec, ELines[k]) : k \in 1..ne})
      map == [N |-> [k \in 1..nn |-> NodeOf(nc, NLines[k])], E |-> [k \in 1..ne |-> EdgeOf(ec, ELines[k])]]
  IN
  IF ConfigFault(nc, ec) THEN [st |-> "bad", why |-> "configuration"]
  ELSE IF Unclear(L, a) THEN [st |-> "open", why |-> "header"]
  ELSE IF Len(cs) < 2 THEN [st |-> "bad", why |-> "no_counts"]
  ELSE IF big \/ nn > Len(L) \/ ne > Len(L) \/ a + nn + ne - 1 > Len(L) THEN [st |-> "bad", why |-> "fewer_lines_than_announced"]
  ELSE IF EndpointFault(ec) /\ ne > 0 THEN [st |-> "bad", why |-> "configuration"]
  ELSE IF st = "bad" THEN [st |-> "bad", why |-> "fields"]
  ELSE IF st = "open" THEN [st |-> "open", why |-> "fields"]
  ELSE IF \E k \in 1..ne : OneSided(ec, ELines[k]) THEN [st |-> "bad", why |-> "half_a_shortcut"]
  ELSE IF \E j, k \in 1..nn : map.N[j].id = map.N[k].id /\ map.N[j] # map.N[k] THEN [st |-> "open", why |-> "two_nodes_of_one_id"]
  ELSE IF ~Admissible(map) THEN [st |-> "bad", why |-> "content"]
  ELSE [st |-> "ok", why |-> "", map |-> map]

MapFaults(file, nc, ec, ok, g) ==
  LET r == ReadMap(file, nc, ec) IN
  CASE r.st = "open" -> {}
    [] r.st = "bad" -> IF ok THEN {"malformed_map_accepted:" \o r.why} ELSE {}
    [] OTHER -> IF ~ok THEN {}
                ELSE {"graph_of_other_content:" \o x : x \in NodeFaults(r.map, g) \cup EdgeFaults(r.map, g)
                                                              \cup AdjacencyFaults(g) \cup ShortcutFaults(r.map, g)}

(* ------------------------------ route-pairs ------------------------------ *)
ReadPairs(file) ==
  LET L == Functional(file)
      cs == Counts(L)
      a == Body(L)
      n == cs[Len(cs)].i
      Rows == [k \in 1..n |-> L[a + k - 1]]
      Row(l) == IF l.f = "bytes" \/ Len(l.t) # 3 THEN "bad" ELSE Worst({AsI64(l.t[1]), AsI64(l.t[2]), AsUsize(l.t[3])})
  IN
  IF Unclear(L, a) THEN [st |-> "open", why |-> "header"]
  ELSE IF Len(cs) < 1 THEN [st |-> "bad", why |-> "no_count"]
  ELSE IF cs[Len(cs)].k # "int" \/ n > Len(L) \/ a + n - 1 > Len(L) THEN [st |-> "bad", why |-> "fewer_lines_than_announced"]
  ELSE IF \E k \in 1..n : Row(Rows[k]) = "bad" THEN [st |-> "bad", why |-> "fields"]
  ELSE [st |-> "ok", why |-> "", pairs |-> [k \in 1..n |-> [s |-> Rows[k].t[1].i, d |-> Rows[k].t[2].i, n |-> Rows[k].t[3].i]]]

PairsFaults(file, ok, pairs) ==
  LET r == ReadPairs(file) IN
  CASE r.st = "open" -> {}
    [] r.st = "bad" -> IF ok THEN {"malformed_route_pairs_accepted:" \o r.why} ELSE {}
    [] OTHER -> IF ok /\ pairs # r.pairs THEN {"other_route_pairs"} ELSE {}

(* ------------------------------ edge-tables ------------------------------ *)
(* A table says, row by row, the metrics of the edge with the row's id; cols is a sequence of "eid", "ign" and   *)
(* the numbers of metrics as "m1", "m2", ..; E are the edges before.                                             *)
MetricNo(col) == CASE col = "m1" -> 1 [] col = "m2" -> 2 [] col = "m3" -> 3 [] OTHER -> 0
ReadTable(file, header, cols, E) ==
  LET L == Functional(file)
      Rows == IF header /\ L # <<>> THEN Tail(L) ELSE L
      Field(col, t) == IF col = "eid" THEN AsUsize(t)
                       ELSE IF col = "ign" THEN "ok"
                       ELSE IF t.k \in {"int", "dec"} /\ ~t.mo /\ t.m < 0 THEN "bad"
                       ELSE IF t.k = "nbig" THEN "bad"
                       ELSE AsMetric(t)
      Row(l) == IF l.f = "bytes" \/ Len(l.t) < Len(cols) THEN "bad" ELSE Worst({Field(cols[k], l.t[k]) : k \in 1..Len(cols)})
      st == Worst({Row(Rows[k]) : k \in 1..Len(Rows)})
      Id(k) == Rows[k].t[At(cols, "eid")].i
      Last(id, j) == LET S == {k \in 1..Len(Rows) : Id(k) = id} IN Rows[CHOOSE k \in S : \A x \in S : x <= k].t[j].m
      New(e) == IF ~\E k \in 1..Len(Rows) : Id(k) = e.id THEN e
                ELSE [e EXCEPT !.m = [x \in 1..Len(e.m) |->
                         IF \E j \in 1..Len(cols) : MetricNo(cols[j]) = x
                         THEN Last(e.id, CHOOSE j \in 1..Len(cols) : MetricNo(cols[j]) = x) ELSE e.m[x]]]
  IN
  IF ~Has(cols, "eid") THEN [st |-> IF Rows = <<>> THEN "open" ELSE "bad", why |-> "no_edge_id"]
  ELSE IF header /\ L # <<>> /\ L[1].f \in {"spaces", "bytes"} THEN [st |-> "open", why |-> "header"]
  ELSE IF \E k \in 1..Len(Rows) : Rows[k].f = "spaces" THEN [st |-> "open", why |-> "white-space"]
  ELSE IF st = "bad" THEN [st |-> "bad", why |-> "fields"]
  ELSE IF \E k \in 1..Len(Rows) : \A i \in 1..Len(E) : E[i].id # Id(k) THEN [st |-> "bad", why |-> "unknown_id"]
  ELSE IF st = "open" THEN [st |-> "open", why |-> "fields"]
  ELSE [st |-> "ok", why |-> "", E |-> [i \in 1..Len(E) |-> New(E[i])]]

TableFaults(file, header, cols, E, ok, have) ==
  LET r == ReadTable(file, header, cols, E)
      Keyed(X) == {[id |-> X[i].id, s |-> X[i].s, d |-> X[i].d, m |-> X[i].m] : i \in 1..Len(X)} IN
  CASE r.st = "open" -> {}
    [] r.st = "bad" -> IF ok THEN {"malformed_table_accepted:" \o r.why} ELSE {}
    [] OTHER -> IF ok /\ Keyed(have) # Keyed(r.E) THEN {"graph_of_other_table"} ELSE {}
=============================================================================
