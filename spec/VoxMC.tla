---- MODULE VoxMC ----
(* bounded model: small solids under every map, pattern and boolean operation *)
EXTENDS Vox, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
U == << <<0, 0>>, <<3, 0>>, <<3, 2>>, <<2, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 2>> >>
Sq == << <<-1, -1>>, <<2, -1>>, <<2, 2>>, <<-1, 2>> >>
Hole == << <<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>> >>
Makers == { [k |-> "box", lo |-> <<0, 0, 0>>, d |-> <<2, 1, 1>>], [k |-> "box", lo |-> <<1, 0, -1>>, d |-> <<1, 2, 2>>], [k |-> "box", lo |-> <<-1, -2, -1>>, d |-> <<4, 5, 4>>],
            [k |-> "ext", p |-> U, holes |-> <<>>, z |-> 0, h |-> 1, dir |-> 1, via |-> "xy", close |-> FALSE, flip |-> FALSE],
            [k |-> "ext", p |-> Sq, holes |-> <<Hole>>, z |-> 1, h |-> 2, dir |-> -1, via |-> "any", close |-> TRUE, flip |-> FALSE] }
Ops(s) ==
  LET N == 1..Len(s.live)
      Raw == {i \in N : ~s.live[i].obj}
      Full == {i \in Raw : s.live[i].cells # {}}
      Some == {i \in N : s.live[i].cells # {}}
  IN (IF Len(s.live) < 2 THEN Makers ELSE {})
     \cup (IF Len(s.live) > 4 THEN {} ELSE
       { [k |-> "wrap", i |-> i] : i \in Full }
       \cup { [k |-> "rot", i |-> i, ax |-> ax, q |-> 1, c2 |-> c] : i \in Some, ax \in {"x", "-y", "z", "d"}, c \in {<<0, 0, 0>>, <<1, 3, -1>>} }
       \cup { [k |-> "mir", i |-> i, pl |-> pl] : i \in Some, pl \in {"xy", "xz", "yz"} }
       \cup { [k |-> "tr", i |-> i, v |-> <<1, -2, 0>>] : i \in Some }
       \cup { [k |-> "scl", i |-> i, s |-> q, c |-> <<1, 0, 0>>] : i \in {x \in Some : Cardinality(s.live[x].cells) < 20}, q \in {<<2, 2, 2>>, <<-1, -1, -1>>} }
       \cup { [k |-> "scl", i |-> i, s |-> q, c |-> <<0, 1, 0>>] : i \in {x \in Full : Cardinality(s.live[x].cells) < 20}, q \in {<<2, 1, 1>>, <<1, -1, 1>>} }
       \cup { [k |-> "bool", op |-> o, i |-> i, j |-> j] : o \in {"union", "intersection", "difference"}, i \in Full, j \in Full }
       \cup { q \in { [k |-> "stack", es |-> <<i, -1, j>>, ax |-> a, start |-> 1, gap |-> 1, align |-> l] : i \in Full, j \in Full, a \in {"x", "z"}, l \in {"min", "center"} } :
                 Whole(s.live, q.es, Axis(q.ax), q.align) }
       \cup { [k |-> "row", i |-> i, n |-> 2, v |-> <<0, 2, 1>>] : i \in Full }
       \cup { [k |-> "ring", i |-> i, n |-> 4, ax |-> "z", full |-> TRUE, q |-> 0, c2 |-> <<1, 1, 0>>] : i \in Full })
     \cup { [k |-> "at", i |-> i, pts |-> << <<1, 2, 3>>, <<5, 1, 2>>, <<-2, 6, 3>> >>] : i \in Full }
     \cup { [k |-> "meet", i |-> i, j |-> j] : i \in Full, j \in Full }
     \cup { [k |-> "measure", i |-> i] : i \in Full }
M == INSTANCE ModelBase WITH ApplyOp <- VApply, InitSet <- {0}, InitState <- VInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
N == 1..Len(st.live)
C(i) == st.live[i].cells
Card(S) == Cardinality(S)
(* inclusion and exclusion *)
VInvBool == \A i, j \in N : LET A == C(i) B == C(j) u == Bool("union", A, B) n == Bool("intersection", A, B) d == Bool("difference", A, B)
              IN Card(u) + Card(n) = Card(A) + Card(B) /\ Card(d) + Card(n) = Card(A) /\ d \cap B = {} /\ u = d \cup B
                 /\ Bool("difference", A, Bool("difference", A, B)) = n
(* maps keep volume and area, and compose as motions do *)
Same(S, T) == Card(S) = Card(T) /\ Area(S) = Area(T)
Axes == {"x", "y", "z", "-x", "-y", "-z", "d"}
VInvIso == \A i \in N : LET A == C(i) IN /\ \A ax \in Axes : Same(A, Rotated(A, ax, 1, <<1, 1, 3>>))
                                         /\ \A pl \in Planes : Same(A, Mirrored(A, pl))
                                         /\ Same(A, Moved(A, <<3, -2, 1>>))
VInvBack == \A i \in N : LET A == C(i) IN
    /\ \A ax \in Axes : Rotated(Rotated(A, ax, 1, <<1, 1, 3>>), ax, Period(ax) - 1, <<1, 1, 3>>) = A
    /\ \A ax \in {"x", "y", "z"} : Rotated(A, ax, 3, <<0, 2, 4>>) = Rotated(A, IF ax = "x" THEN "-x" ELSE IF ax = "y" THEN "-y" ELSE "-z", 1, <<0, 2, 4>>)
    /\ \A pl \in Planes : Mirrored(Mirrored(A, pl), pl) = A
    /\ Mirrored(Mirrored(A, "xz"), "yz") = Rotated(A, "z", 2, <<0, 0, 0>>)
    /\ Rotated(Rotated(A, "x", 1, <<0, 0, 0>>), "y", 1, <<0, 0, 0>>) = Rotated(Rotated(A, "y", 1, <<0, 0, 0>>), "-z", 1, <<0, 0, 0>>)
VInvScale == \A i \in N : LET A == C(i) IN
    /\ Card(A) < 20 => (Card(Scaled(A, <<2, 2, 2>>, <<1, 0, 0>>)) = 8 * Card(A) /\ Area(Scaled(A, <<2, 2, 2>>, <<1, 0, 0>>)) = 4 * Area(A))
    /\ Scaled(A, <<-1, 1, 1>>, <<0, 0, 0>>) = Mirrored(A, "yz")
    /\ Scaled(A, <<-1, -1, 1>>, <<1, 2, 0>>) = Rotated(A, "z", 2, <<2, 4, 0>>)
(* a solid has room between its faces: area bounds *)
VInvShape == \A i \in N : LET A == C(i) IN A = {} \/ (Area(A) >= 6 /\ Area(A) <= 6 * Card(A) /\ Area(A) % 2 = 0)
VInvSets == VGood(st)
====
