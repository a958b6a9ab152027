---- MODULE MeshMC ----
EXTENDS Mesh, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
O == <<0, 0, 0>>
X == <<2, 0, 0>>
Y == <<0, 2, 0>>
Z == <<0, 0, 2>>
W == <<2, 2, 2>>
Tetra == << <<O, Y, X>>, <<O, X, Z>>, <<O, Z, Y>>, <<X, Y, Z>> >>
Fan == << <<O, X, Y>>, <<X, W, Y>>, <<O, X, <<1, 0, 0>> >>, <<Y, O, Z>> >>
Far == << <<O, X, Y>>, << <<5, 5, 5>>, <<6, 5, 5>>, <<5, 6, 5>> >> >>
Flatty == << <<O, <<1, 0, 0>>, X>> >>
Double == Tetra \o << <<X, W, Y>> >>
Meshes == {Tetra, Fan, Far, Flatty, Double, <<>>}
Ops(s) ==
  (IF Len(s.live) < 3 THEN { [k |-> "make", faces |-> m, split |-> 2, jit |-> FALSE] : m \in Meshes } ELSE {})
  \cup (IF Len(s.files) > 2 THEN {} ELSE { [k |-> "stl", i |-> i, fmt |-> x, name |-> "part", via |-> "path"] : i \in 1..Len(s.live), x \in {"bin", "txt"} })
  \cup { [k |-> "edit", f |-> f, how |-> h, at |-> 300] : f \in {x \in 1..Len(s.files) : s.files[x].kind = "bin" /\ ~s.files[x].bad}, h \in {"header", "tail", "zeron", "cut", "count"} }
  \cup { [k |-> "edit", f |-> f, how |-> h, at |-> 300] : f \in {x \in 1..Len(s.files) : s.files[x].kind = "txt" /\ ~s.files[x].bad}, h \in {"crlf", "upper", "lead", "zeron", "cut"} }
  \cup { [k |-> "edit", f |-> f, how |-> h, at |-> 300] : f \in {x \in 1..Len(s.files) : s.files[x].kind = "txt" /\ ~s.files[x].bad /\ s.files[x].m # <<>>}, h \in {"drop", "word"} }
  \cup (IF Len(s.live) > 3 THEN {} ELSE { [k |-> "read", f |-> f, via |-> "path", dedup |-> d] : f \in 1..Len(s.files), d \in BOOLEAN })
  \cup { [k |-> "step", i |-> i, name |-> "part", via |-> "path"] : i \in 1..Len(s.live) }
M == INSTANCE ModelBase WITH ApplyOp <- MeApply, InitSet <- {0}, InitState <- MeInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
Ms == { st.live[i] : i \in 1..Len(st.live) }
MeInvGood == MeGood(st)
MeInvReal == \A m \in Ms : Real(Real(m)) = Real(m)
(* shells partition the triangles; a mesh is closed iff all its shells are *)
MeInvShells == \A m0 \in Ms : LET m == Real(m0) s == Shells(m) IN
    /\ { s[k].faces[j] : <<k, j>> \in { <<k, j>> \in (1..Len(s)) \X (1..Len(m)) : j <= Len(s[k].faces) } } = 1..Len(m)
    /\ Closed(m) <=> \A k \in 1..Len(s) : s[k].closed
    /\ \A a, b \in 1..Len(s) : a # b => ToSet(s[a].faces) \cap ToSet(s[b].faces) = {}
(* Euler bound: a closed mesh has 3F = 2E *)
MeInvEuler == \A m0 \in Ms : LET m == Real(m0) IN Closed(m) => 3 * Len(m) = 2 * Cardinality(AllEdges(m))
MeInvTetra == Closed(Tetra) /\ Outward(Tetra) /\ ~Closed(Fan) /\ Len(Shells(Real(Fan))) = 1 /\ Len(Shells(Far)) = 2
====
