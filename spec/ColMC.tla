---- MODULE ColMC ----
EXTENDS Col, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
B(a, b, c, u) == [lo |-> <<a, b, c>>, hi |-> <<a + u, b + 2, c + 1>>]
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Rz == <<<<0, 0 - 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
T(R, t) == [R |-> R, t |-> t, form |-> "list"]
Ts == { T(I3, <<0, 0, 0>>), T(I3, <<2, 0, 0>>), T(Rz, <<1, 0, 0>>), T(Rz, <<5, 1, 0>>) }
Gr(n, p, c, m) == [n |-> n, part |-> p, kind |-> "gear", c |-> c, v |-> <<0, 0, 1>>, d2 |-> 8, h2 |-> 4, m |-> m, x |-> 2000, hel |-> 0, lab |-> "", int |-> FALSE]
Th(n, p, c, int) == [n |-> n, part |-> p, kind |-> "thread", c |-> c, v |-> <<0, 0, 2>>, d2 |-> 6, h2 |-> 9, m |-> 500, x |-> 0, hel |-> 0, lab |-> "ISO_METRIC", int |-> int]
Ifs == { Gr("i", "A", <<0, 0, 0>>, 1000), Gr("j", "B", <<0, 0, 3>>, 1000), Gr("k", "B", <<4, 0, 0>>, 2000), Th("l", "A", <<0, 0, 0>>, TRUE), Th("m", "B", <<1, 0, 0>>, FALSE) }
Parts == {"A", "B"}
Ops(s) ==
  { [k |-> "reg", r |-> 1, i |-> i] : i \in Ifs } \cup { [k |-> "unreg", r |-> 1, n |-> n] : n \in {"i", "k", "none"} } \cup { [k |-> "use", r |-> r] : r \in 1..2 }
  \cup { [k |-> "geo", n |-> "B", bs |-> bs, form |-> "mesh"] : bs \in { <<>>, <<B(0, 0, 0, 3)>>, <<B(3, 0, 0, 1), B(5, 0, 0, 1)>> } }
  \cup { [k |-> "forget"] }
  \cup { [k |-> "check", a |-> "A", b |-> "B", Ta |-> a, Tb |-> b, how |-> h] : a \in Ts, b \in { t \in Ts : t.R = I3 }, h \in {"AABB", "MESH"} }
  \cup { [k |-> "pair", r |-> 1, p |-> "A", q |-> "B"] }
M == INSTANCE ModelBase WITH ApplyOp <- GApply, InitSet <- {[geo |-> <<[n |-> "A", bs |-> <<B(0, 0, 0, 2)>>, form |-> "mesh"]>>]}, InitState <- GInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == GGood(st)
V(a, Ta, b, Tb, h) == Verdict(Fetch(Fetch(st, "A"), "B"), a, Ta, b, Tb, h)
(* the order of the two parts does not matter, and names say why an overlap is meant *)
InvSym == \A a, b \in Ts : LET v == V("A", a, "B", b, "AABB") w == V("B", b, "A", a, "AABB") IN v.hit = w.hit /\ v.meant = w.meant /\ v.err = w.err /\ v.names = w.names
InvNames == \A a, b \in Ts : LET v == V("A", a, "B", b, "MESH") IN (v.meant <=> Len(v.names) > 0) /\ (v.meant => v.hit = "yes")
(* bounding boxes never miss what the finer method finds *)
InvFiner == \A a, b \in Ts : V("A", a, "B", b, "MESH").hit = "yes" => V("A", a, "B", b, "AABB").hit = "yes"
(* moving both parts together changes nothing *)
Then(a, b) == [R |-> [i \in 1..3 |-> [j \in 1..3 |-> a.R[i][1] * b.R[1][j] + a.R[i][2] * b.R[2][j] + a.R[i][3] * b.R[3][j]]],
               t |-> [i \in 1..3 |-> a.R[i][1] * b.t[1] + a.R[i][2] * b.t[2] + a.R[i][3] * b.t[3] + a.t[i]], form |-> "list"]
InvMove == \A a, b, c \in Ts, h \in {"AABB", "MESH"} : V("A", Then(c, a), "B", Then(c, b), h) = V("A", a, "B", b, h)
====
