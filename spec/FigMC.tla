---- MODULE FigMC ----
(* bounded model: a catalogue of figures; laws of the path operations *)
EXTENDS Fig, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
A(s, e, rev) == [t |-> "arc", c |-> <<0, 1, 0>>, r |-> 2, s |-> s, e |-> e, rev |-> rev]
L(a, b) == [t |-> "line", a |-> a, b |-> b]
Figs == { L(<<0, 0, 0>>, <<3, 4, 0>>), [t |-> "circle", c |-> <<1, -1, 0>>, r |-> 2], A(30, 300, FALSE), A(270, 405, TRUE),
          [t |-> "poly", p |-> << <<0, 0, 0>>, <<3, 0, 0>>, <<3, 2, 0>>, <<-1, 2, 0>> >>],
          [t |-> "poly", p |-> << <<0, 0, 0>>, <<4, 0, 0>>, <<0, 3, 0>>, <<0, 0, 0>> >>],
          [t |-> "list", g |-> << L(<<-2, 1, 0>>, <<-2, -1, 0>>), L(<<-2, -1, 0>>, <<2, -1, 0>>), L(<<2, -1, 0>>, <<2, 1, 0>>), A(0, 180, FALSE) >>] }
Ops(s) ==
  { [k |-> "new", fig |-> f] : f \in (IF Len(s.figs) = 0 THEN Figs ELSE {}) }
  \cup UNION { { [k |-> "translate", i |-> i, v |-> <<1, -2, 0>>] } \cup { [k |-> "rotate", i |-> i, ax |-> <<0, 0, 1>>, deg |-> d, c |-> c] : d \in {90, 30}, c \in {Zero3, <<2, 1, 0>>} }
               \cup { [k |-> "mirror", i |-> i, pl |-> p, keep |-> b] : p \in {"xz", "yz"}, b \in BOOLEAN }
               \cup { [k |-> "scale", i |-> i, n |-> <<3, 3, 3>>, d |-> 2, c |-> Zero3] }
               \cup { [k |-> "segment", i |-> i, n1 |-> q[1], n2 |-> q[2], d |-> 4] : q \in (IF \E j \in 1..Len(s.figs[i].path) : s.figs[i].path[j].t = "arc" /\ s.figs[i].path[j].free THEN {} ELSE {<<0, 4>>, <<1, 3>>, <<0, 1>>}) }
               \cup { [k |-> "reverse", i |-> i] } : i \in {x \in {Len(s.figs)} : x > 0} }
M == INSTANCE ModelBase WITH ApplyOp <- FApply, InitSet <- {0}, InitState <- FInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == FGood(st)
(* paths are equal up to whole turns of their arcs and rounding *)
SameE(a, b) == a.t = b.t /\ IF a.t = "line" THEN NearV(a.a, b.a, 12) /\ NearV(a.b, b.b, 12)
                            ELSE NearV(a.c, b.c, 12) /\ Near(a.r, b.r, 2) /\ (a.free \/ ((a.s - b.s) % 360000 = 0 /\ a.w = b.w))
SamePath(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameE(p[i], q[i])
All(P(_)) == \A i \in 1..Len(st.figs) : P(st.figs[i])
Twice(f) == /\ SamePath(Rev(Rev(f.path)), f.path)
            /\ \A pl \in {"xy", "xz", "yz"} : SamePath(Mirror(Mirror(f, pl), pl).path, f.path)
            /\ SamePath(Translate(Translate(f, <<3, -1, 2>>), <<-3, 1, -2>>).path, f.path)
InvTwice == All(Twice)
Quarter(f) == LET R(x) == RotateZ(x, 90, <<1, 0, 0>>) IN SamePath(R(R(R(R(f)))).path, f.path)
InvQuarter == All(Quarter)
(* turning about z by quarters agrees with the exact matrix, for straight figures *)
Agree(f) == (\A j \in 1..Len(f.path) : f.path[j].t = "line") =>
               SamePath(RotateZ(f, 90, <<1, 2, 0>>).path, RotateAx(f, <<0, 0, 1>>, 90, <<1, 2, 0>>).path)
InvAgree == All(Agree)
LengthLaw(f) == LET l == PLen(f.path) t == 20 + l \div 1000
                IN /\ Near(PLen(RotateZ(f, 30, Zero3).path), l, t) /\ PLen(Rev(f.path)) = l
                   /\ Near(PLen(Mirror(f, "xz").path), l, t) /\ Near(2 * PLen(Scale(f, <<3, 3, 3>>, 2, Zero3).path), 3 * l, 3 * t)
                   /\ Near(PLen(Segment(f, 0, 1, 4).path) + PLen(Segment(f, 1, 4, 4).path), l, t)
InvLength == All(LengthLaw)
(* every sample lies in the box, and samples of a piece lie on the figure *)
Inside(p, b) == \A j \in 1..3 : p[j] >= b[1][j] - 12 /\ p[j] <= b[2][j] + 12
BoxLaw(f) == \A i \in 1..Len(f.path) : \A n \in 0..4 :
                (f.path[i].t = "line" \/ ~f.path[i].free) => Inside(EAt(f.path[i], n, 4), Box(f))
InvBox == All(BoxLaw)
Joined(f) == Closed(f) => Closed([f EXCEPT !.path = Rev(@)]) /\ Closed(Mirror(f, "yz")) /\ Closed(RotateZ(f, 30, Zero3))
InvClosed == All(Joined)
====
