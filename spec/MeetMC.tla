---- MODULE MeetMC ----
(* all pairs of pieces on a small grid: laws of meeting and enclosing *)
EXTENDS Meet
CONSTANTS Depth
VARIABLES e, f
G == 0..Depth
P3 == {<<x, y, 0>> : x \in G, y \in G}
Segs == {Line(a, b) : a \in P3, b \in P3} \ {Line(a, a) : a \in P3}
Arcs == {ArcP(c, r, s, w) : c \in {<<1, 1, 0>>, <<0, 2, 0>>}, r \in 1..2, s \in {0, 90, 225}, w \in {90, 180, 360, 285}}
MInit == e \in Segs \cup Arcs /\ f \in Arcs \cup Segs
MNext == FALSE /\ UNCHANGED <<e, f>>
MView == <<e, f>>
SameC(A, B) == /\ \A x \in A : x.sure => \E y \in B : y.sure /\ Near2(x.p, y.p, 5)
InvSym == SameC(Cands(e, f, TRUE), Cands(f, e, TRUE)) /\ SameC(Cands(f, e, TRUE), Cands(e, f, TRUE))
InvOn == \A x \in Cands(e, f, TRUE) : OnCarrier(e, x.p) /\ OnCarrier(f, x.p)
InvMore == SameC(Cands(e, f, TRUE), Cands(e, f, FALSE))
Flip(x) == IF x.t = "line" THEN Line(x.b, x.a) ELSE x
InvFlip == SameC(Cands(e, f, TRUE), Cands(Flip(e), Flip(f), TRUE))
(* a segment meets a circle once if its ends are on different sides, and never if both are within *)
Full(x) == x.t = "arc" /\ x.w = 360
InCirc(x, p) == D2(V2(x.c, p), V2(x.c, p)) < x.r * x.r
OnCirc(x, p) == D2(V2(x.c, p), V2(x.c, p)) = x.r * x.r
InvSide == (e.t = "line" /\ Full(f) /\ ~OnCirc(f, e.a) /\ ~OnCirc(f, e.b)) =>
              LET n == Cardinality({x.p : x \in Cands(e, f, TRUE)})
              IN /\ InCirc(f, e.a) # InCirc(f, e.b) => n = 1
                 /\ InCirc(f, e.a) /\ InCirc(f, e.b) => n = 0
(* enclosing a half-unit point does not depend on where the circle starts, and agrees with distance *)
InvCirc == Full(e) => \A x, y \in 0..2 * Depth : LET p == <<x, y>> d == Dbl(e)
              IN ~OnB(d, p) => (Inside(<<d>>, p) <=> D2(V2(d.c, p), V2(d.c, p)) < d.r * d.r)
(* the triangle over a segment: agrees with orientation tests *)
InvTri == (e.t = "line" /\ f.t = "line") =>
   LET q == [i \in 1..3 |-> Dbl(<<e, Line(e.b, f.a), Line(f.a, e.a)>>[i])]
       o(a, b, p) == Sgn(X2(V2(a, b), V2(a, p)))
   IN X2(V2(e.a, e.b), V2(e.a, f.a)) # 0 => \A x, y \in 0..2 * Depth :
        LET p == <<x, y>> IN Border(q, p) \/ (Inside(q, p) <=> (o(q[1].a, q[1].b, p) = o(q[2].a, q[2].b, p) /\ o(q[2].a, q[2].b, p) = o(q[3].a, q[3].b, p)))
====
