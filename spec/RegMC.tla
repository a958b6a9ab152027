---- MODULE RegMC ----
EXTENDS Reg, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
D(n, m, g) == [n |-> n, ty |-> IF m % 2 = 0 THEN "plane" ELSE "axis", mark |-> m, good |-> g]
F(pn, ok, ds) == [ok |-> ok, pn |-> pn, ds |-> ds]
Contents(n) == IF n = "s1.json" THEN { F("P1", TRUE, <<D("d0", 1, TRUE), D("d1", 2, FALSE)>>), F("P1", FALSE, <<>>) }
               ELSE { F("", TRUE, <<D("d0", 4, TRUE)>>) }
Names == {"s1.json", "p1.dsl", "P1", "A", "none"}
Ops(s) ==
  (IF Len(s.disk) > 3 THEN {} ELSE { [k |-> "write", n |-> d \o "/" \o n, f |-> f, bad |-> 1] :
       d \in {"p", "q"}, n \in {"s1.json", "p1.dsl", "p1.datums.json"}, f \in Contents("x") }
     \cup { [k |-> "write", n |-> d \o "/s1.json", f |-> f, bad |-> 2] : d \in {"p", "q"}, f \in Contents("s1.json") })
  \cup { [k |-> "path", n |-> "q"], [k |-> "clear"], [k |-> "sources"] }
  \cup (IF Len(s.boxes) > 5 THEN {} ELSE { [k |-> "source", n |-> "A", ds |-> <<D("d0", 6, TRUE)>>], [k |-> "one", n |-> "A", d |-> D("d1", 7, TRUE)] })
  \cup (IF Len(s.boxes) > 5 THEN {} ELSE { [k |-> "get", n |-> n, d |-> "d0"] : n \in Names } \cup { [k |-> x, n |-> n] : x \in {"table", "list"}, n \in Names })
M == INSTANCE ModelBase WITH ApplyOp <- GApply, InitSet <- {[paths |-> <<>>], [paths |-> <<"p">>]}, InitState <- GInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == GGood(st)
Q(n) == [k |-> "table", n |-> n]
(* asking twice gives the same answer, and asking for one source never changes what another one holds *)
InvTwice == \A n \in Names : LET r == GApply(st, Q(n)) IN GApply(r.st, Q(n)).obs = r.obs
InvOthers == \A n, m \in Names : Has(st.names, m) => GApply(GApply(st, Q(n)).st, Q(m)).obs = GApply(st, Q(m)).obs \/ m = "P1"
(* what cannot be found leaves no trace *)
InvTrace == \A n \in Names : LET r == GApply(st, Q(n)) IN r.obs.res # "ok" => r.st = st
(* the three queries agree *)
InvAgree == \A n \in Names : LET t == GApply(st, Q(n)).obs l == GApply(st, [k |-> "list", n |-> n]).obs g == GApply(st, [k |-> "get", n |-> n, d |-> "d0"]).obs
   IN /\ (t.res = "ok" => l.ds = [i \in 1..Len(t.ds) |-> t.ds[i].n])
      /\ (g.res = "ok") = (t.res = "ok" /\ \E i \in 1..Len(l.ds) : l.ds[i] = "d0")
====
