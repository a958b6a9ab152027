-------------------------------- MODULE Brep --------------------------------
(* Topology graphs of boundary representations: vertices, edges (lines and    *)
(* arcs given by centre or by bulge), faces bounded by loops of directed      *)
(* edges on flat rectangles, shells, solids with voids.  What may join the    *)
(* graph, incidence, closedness, containment and crossing, the curves of the  *)
(* edges, the way through a file, and moves of the whole.                     *)
(* Coordinates are integers; corners of shells are even, points asked for odd.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
Has(q, n) == \E i \in 1..Len(q) : q[i].n = n
Get(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Each(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Zero3 == <<0, 0, 0>>

\* ---------------------------------------------------------------- moves ----
Turn1(p, a) == CASE a = 1 -> <<p[1], 0 - p[3], p[2]>> [] a = 2 -> <<p[3], p[2], 0 - p[1]>> [] a = 3 -> <<0 - p[2], p[1], p[3]>>
RECURSIVE TurnN(_, _, _)
TurnN(p, a, q) == IF q = 0 THEN p ELSE TurnN(Turn1(p, a), a, q - 1)
To(m, p) ==
  CASE m.m = "move" -> Add3(p, m.d)
    [] m.m = "turn" -> Add3(m.c, TurnN(Sub3(p, m.c), m.a, m.q))
    [] m.m = "flip" -> [p EXCEPT ![m.a] = 0 - @]
    [] m.m = "grow" -> Add3(m.c, Mul3(m.f, Sub3(p, m.c)))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
Dir(m, v) == LET w == Sub3(To(m, v), To(m, Zero3)) IN <<Sgn(w[1]), Sgn(w[2]), Sgn(w[3])>>
\* does the move reverse the sense of rotation seen from above?
Reverses(m) == CASE m.m \in {"move", "grow"} -> FALSE [] m.m = "flip" -> m.a \in {1, 2} [] m.m = "turn" -> m.a \in {1, 2} /\ m.q = 2
RectTo(m, r) == IF ~r.has THEN r ELSE
  LET a == To(m, r.lo) b == To(m, r.hi) IN
  [r EXCEPT !.lo = <<Mn(a[1], b[1]), Mn(a[2], b[2]), Mn(a[3], b[3])>>, !.hi = <<Mx(a[1], b[1]), Mx(a[2], b[2]), Mx(a[3], b[3])>>, !.nrm = Dir(m, @)]
\* round surfaces: ball (o, r1), cylinder (o, ax, r1, v0..v1), cone of 45 degrees (o, ax, v0..v1), torus (o, ax, r1, r2)
NoRound == [kind |-> "none"]
RoundTo(m, d) == IF d.kind = "none" THEN d ELSE
  LET f == IF m.m = "grow" THEN m.f ELSE 1 IN
  [d EXCEPT !.o = To(m, @), !.ax = Dir(m, @), !.r1 = f * @, !.r2 = f * @, !.v0 = f * @, !.v1 = f * @]
\* what its points tell: centre and radius of the rings at both ends of its range
RoundSeen(d) ==
  CASE d.kind = "none" -> <<>>
    [] d.kind = "ball" -> << <<d.o, d.r1>> >>
    [] d.kind = "cyl" -> << <<Add3(d.o, Mul3(d.v0, d.ax)), d.r1>>, <<Add3(d.o, Mul3(d.v1, d.ax)), d.r1>> >>
    [] d.kind = "cone" -> << <<Add3(d.o, Mul3(d.v0, d.ax)), d.v0>>, <<Add3(d.o, Mul3(d.v1, d.ax)), d.v1>> >>
    [] d.kind = "tor" -> << <<d.o, d.r1 + d.r2>>, <<d.o, d.r1 - d.r2>> >>
PointsTo(m, g) ==
  [g EXCEPT !.v = Each(@, LAMBDA x : [x EXCEPT !.p = To(m, @)]),
            !.e = Each(@, LAMBDA x : IF x.kind = "line" THEN x ELSE [x EXCEPT !.c = To(m, @), !.o = IF Reverses(m) THEN 0 - @ ELSE @])]
GraphTo(m, g) == [PointsTo(m, g) EXCEPT !.f = Each(@, LAMBDA x : [x EXCEPT !.r = RectTo(m, @), !.rd = RoundTo(m, @)])]

\* ------------------------------------------------------------- topology ----
FaceEdges(f) == Flat(Each(f.loops, LAMBDA l : Each(l.t, LAMBDA t : t.e)))
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE LET h == Head(q) IN <<h>> \o Uniq(SelectSeq(Tail(q), LAMBDA x : x # h))
VertexEdges(g, n) == Each(SelectSeq(g.e, LAMBDA x : x.a = n \/ x.b = n), LAMBDA x : x.n)
EdgeFaces(g, n) == Each(SelectSeq(g.f, LAMBDA f : \E i \in 1..Len(FaceEdges(f)) : FaceEdges(f)[i] = n), LAMBDA x : x.n)
FacesOf(g, sh) == [i \in 1..Len(sh.fs) |-> Get(g.f, sh.fs[i])]
ShellEdges(g, sh) == Flat(Each(FacesOf(g, sh), FaceEdges))
Uses(g, sh, n) == LET q == ShellEdges(g, sh) IN Cardinality({ i \in 1..Len(q) : q[i] = n })
Sides(g, sh, P(_)) == Each(SelectSeq(g.e, LAMBDA x : P(Uses(g, sh, x.n))), LAMBDA x : x.n)
Border(g, sh) == Sides(g, sh, LAMBDA u : u = 1)
Crowded(g, sh) == Sides(g, sh, LAMBDA u : u > 2)
Closed(g, sh) == Border(g, sh) = <<>> /\ Crowded(g, sh) = <<>>
ShellVerts(g, sh) == LET q == ShellEdges(g, sh) IN UNION { {Get(g.e, q[i]).a, Get(g.e, q[i]).b} : i \in 1..Len(q) }
Counts(g, sh) == LET V == Cardinality(ShellVerts(g, sh)) E == Len(Uniq(ShellEdges(g, sh))) F == Len(sh.fs)
  IN [v |-> V, e |-> E, f |-> F, x |-> V - E + F]

\* ------------------------------------------------------------- geometry ----
Rects(g, sh) == SelectSeq(Each(FacesOf(g, sh), LAMBDA f : f.r), LAMBDA r : r.has)
LowOf(S) == CHOOSE x \in S : \A y \in S : x <= y
HighOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Box(rs) ==
  IF rs = <<>> THEN [has |-> FALSE]
  ELSE LET lo(k) == LowOf({ rs[i].lo[k] : i \in 1..Len(rs) }) hi(k) == HighOf({ rs[i].hi[k] : i \in 1..Len(rs) })
       IN [has |-> TRUE, lo |-> <<lo(1), lo(2), lo(3)>>, hi |-> <<hi(1), hi(2), hi(3)>>]
Touch(a, b, t) == \A k \in 1..3 : a.lo[k] - t <= b.hi[k] + t /\ b.lo[k] - t <= a.hi[k] + t
Meets(g, s1, s2) == LET p == Rects(g, s1) q == Rects(g, s2) IN \E i \in 1..Len(p), j \in 1..Len(q) : Touch(p[i], q[j], 0)
InBox(b, p) == \A k \in 1..3 : b.lo[k] <= p[k] /\ p[k] <= b.hi[k]
\* a ray in direction +X crosses the shell an odd number of times
Within(g, sh, p) ==
  LET rs == Rects(g, sh) IN
  /\ rs # <<>> /\ InBox(Box(rs), p)
  /\ Cardinality({ i \in 1..Len(rs) : rs[i].nrm[1] # 0 /\ rs[i].lo[1] > p[1] /\ rs[i].lo[2] < p[2] /\ p[2] < rs[i].hi[2] /\ rs[i].lo[3] < p[3] /\ p[3] < rs[i].hi[3] }) % 2 = 1
Size(r) == (IF r.nrm[1] # 0 THEN 1 ELSE r.hi[1] - r.lo[1]) * (IF r.nrm[2] # 0 THEN 1 ELSE r.hi[2] - r.lo[2]) * (IF r.nrm[3] # 0 THEN 1 ELSE r.hi[3] - r.lo[3])
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Size(Head(rs)) + Total(Tail(rs))
\* a solid: closed shells that do not cross; the first is outside of the others
SolidBad(g, ss) ==
  \/ ss = <<>>
  \/ \E i \in 1..Len(ss) : LET sh == Get(g.s, ss[i]) IN sh.closed = "no" \/ ~Closed(g, sh)
  \/ \E i, j \in 1..Len(ss) : i < j /\ Meets(g, Get(g.s, ss[i]), Get(g.s, ss[j]))
  \/ \E i \in 2..Len(ss) : LET rs == Rects(g, Get(g.s, ss[i])) IN rs # <<>> /\ ~Within(g, Get(g.s, ss[1]), rs[1].lo)

\* --------------------------------------------------------------- curves ----
Around(c, p, o, j) == Add3(c, TurnN(Sub3(p, c), 3, (IF o > 0 THEN j ELSE 4 - j) % 4))
Curve(g, e) ==
  LET p == Get(g.v, e.a).p q == Get(g.v, e.b).p IN
  IF e.kind = "line" THEN [kind |-> "line", at |-> <<p, q>>]
  ELSE [kind |-> "arc", c |-> e.c, at |-> [j \in 1..(e.q + 1) |-> Around(e.c, p, e.o, j - 1)]]

\* ------------------------------------------------------------ histories ----
Empty == [v |-> <<>>, e |-> <<>>, f |-> <<>>, s |-> <<>>, sol |-> <<>>]
GInit(i) == [gs |-> <<Empty>>]
Ret(s, o) == [st |-> s, obs |-> o]
Ok(s) == Ret(s, [res |-> "ok"])
Put(s, op, g) == Ok([s EXCEPT !.gs[op.g] = g])
\* a box: corners by bits (x most significant), twelve edges, six faces x- x+ y- y+ z- z+
Bits == << <<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>> >>
BoxEdges == << <<0, 1>>, <<2, 3>>, <<4, 5>>, <<6, 7>>, <<0, 2>>, <<1, 3>>, <<4, 6>>, <<5, 7>>, <<0, 4>>, <<1, 5>>, <<2, 6>>, <<3, 7>> >>
BoxLoops == << <<1, 6, 2, 5>>, <<7, 4, 8, 3>>, <<9, 3, 10, 1>>, <<2, 12, 4, 11>>, <<5, 11, 7, 9>>, <<10, 8, 12, 6>> >>
BoxSense == << <<TRUE, TRUE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE, FALSE>> >>
BoxN == << <<-1, 0, 0>>, <<1, 0, 0>>, <<0, -1, 0>>, <<0, 1, 0>>, <<0, 0, -1>>, <<0, 0, 1>> >>
Nm(n, c, i) == n \o c \o ToString(i)
BoxRect(lo, hi, i) ==
  LET k == (i + 1) \div 2 x == IF i % 2 = 1 THEN lo[k] ELSE hi[k] IN [has |-> TRUE, lo |-> [lo EXCEPT ![k] = x], hi |-> [hi EXCEPT ![k] = x], nrm |-> BoxN[i]]
RECURSIVE Keep(_, _)
Keep(drop, i) == IF i > 6 THEN <<>> ELSE (IF \E j \in 1..Len(drop) : drop[j] = i THEN <<>> ELSE <<i>>) \o Keep(drop, i + 1)
WithBox(g, op) ==
  LET vs == [i \in 1..8 |-> [n |-> Nm(op.n, "v", i - 1), p |-> [k \in 1..3 |-> IF Bits[i][k] = 0 THEN op.lo[k] ELSE op.hi[k]], t |-> 0]]
      es == [i \in 1..12 |-> [n |-> Nm(op.n, "e", i), a |-> Nm(op.n, "v", BoxEdges[i][1]), b |-> Nm(op.n, "v", BoxEdges[i][2]), kind |-> "line", c |-> Zero3, o |-> 1, q |-> 0, sense |-> TRUE, t |-> 0]]
      fs == [j \in 1..Len(Keep(op.drop, 1)) |-> LET i == Keep(op.drop, 1)[j] IN
               [n |-> Nm(op.n, "f", i), r |-> BoxRect(op.lo, op.hi, i), rd |-> NoRound, sense |-> TRUE,
                loops |-> << [ty |-> "outer", t |-> [m \in 1..4 |-> [e |-> Nm(op.n, "e", BoxLoops[i][m]), s |-> BoxSense[i][m]]]] >>]]
  IN [g EXCEPT !.v = @ \o vs, !.e = @ \o es, !.f = @ \o fs]
AddShell(g, op, fs) == \* the shell as it would be stored
  LET sh0 == [n |-> op.n, fs |-> fs, ty |-> op.ty, closed |-> op.closed] IN
  IF op.check /\ op.closed = "?" THEN [sh0 EXCEPT !.closed = IF Closed(g, sh0) THEN "yes" ELSE "no"] ELSE sh0
ShellOp(s, op, g, fs) ==
  LET sh == AddShell(g, op, fs) IN
  IF op.check /\ op.closed = "yes" /\ ~Closed(g, sh)
  THEN Ret([s EXCEPT !.gs[op.g] = g], [res |-> "exc:ShellClosureError", n1 |-> Len(Border(g, sh)), n3 |-> Len(Crowded(g, sh))])
  ELSE Put(s, op, [g EXCEPT !.s = Append(@, sh)])
OwnerOf(g, n) == LET q == SelectSeq(g.s, LAMBDA sh : \E i \in 1..Len(sh.fs) : sh.fs[i] = n) IN IF q = <<>> THEN "" ELSE q[Len(q)].n

GApply(s, op) ==
  LET g == s.gs[op.g] IN
  CASE op.k = "vert" -> Put(s, op, [g EXCEPT !.v = Append(@, [n |-> op.n, p |-> op.p, t |-> op.t])])
    [] op.k = "edge" -> Put(s, op, [g EXCEPT !.e = Append(@, [n |-> op.n, a |-> op.a, b |-> op.b, kind |-> op.kind, c |-> op.c, o |-> op.o, q |-> op.q, sense |-> op.sense, t |-> op.t])])
    [] op.k = "face" -> Put(s, op, [g EXCEPT !.f = Append(@, [n |-> op.n, loops |-> op.loops, r |-> op.r, rd |-> op.rd, sense |-> op.sense])])
    [] op.k = "shell" -> ShellOp(s, op, g, op.fs)
    [] op.k = "box" -> LET h == WithBox(g, op) IN ShellOp(s, op, h, Each(Keep(op.drop, 1), LAMBDA i : Nm(op.n, "f", i)))
    [] op.k = "solid" -> IF op.check /\ SolidBad(g, op.ss) THEN Ret(s, [res |-> "exc:SolidValidationError"])
                         ELSE Put(s, op, [g EXCEPT !.sol = Append(@, [n |-> op.n, ss |-> op.ss])])
    [] op.k = "place" -> Put(s, op, [g EXCEPT !.v = Each(@, LAMBDA x : IF x.n = op.n THEN [x EXCEPT !.p = op.p] ELSE x)])
    [] op.k = "mark" -> Put(s, op, [g EXCEPT !.s = Each(@, LAMBDA x : IF x.n = op.n THEN [x EXCEPT !.closed = op.closed] ELSE x)])
    [] op.k = "moved" -> Ok([s EXCEPT !.gs = Append(@, GraphTo(op.m, g))])     \* a moved copy of the solid that carries the graph
    [] op.k = "inplace" -> Put(s, op, GraphTo(op.m, g))
    [] op.k = "points" -> Put(s, op, PointsTo(op.m, g))                         \* moves vertices and edges only
    [] op.k = "reload" -> Ok([s EXCEPT !.gs = Append(@, g)])
    [] op.k = "squash" -> Ret(s, [res |-> "ok", has |-> FALSE])
    [] op.k = "bare" -> Ret(s, [res |-> "ok", has |-> FALSE])
    [] op.k = "ask" ->
         Ret(s, [res |-> "ok", a |->
           CASE op.w = "sum" -> [v |-> Len(g.v), e |-> Len(g.e), l |-> Len(Flat(Each(g.f, LAMBDA f : f.loops))), f |-> Len(g.f), s |-> Len(g.s), sol |-> Len(g.sol)]
             [] op.w = "vert" -> [p |-> Get(g.v, op.n).p, es |-> VertexEdges(g, op.n)]
             [] op.w = "edge" -> LET e == Get(g.e, op.n) IN [ends |-> <<e.a, e.b>>, fs |-> EdgeFaces(g, op.n), sense |-> e.sense, t |-> e.t, curve |-> Curve(g, e)]
             [] op.w = "face" -> LET f == Get(g.f, op.n) IN
                  [es |-> Uniq(FaceEdges(f)), sense |-> f.sense, loops |-> f.loops, r |-> f.r, rings |-> RoundSeen(f.rd)]
             [] op.w = "shell" -> LET sh == Get(g.s, op.n) IN
                  [fs |-> sh.fs, ty |-> sh.ty, flag |-> sh.closed, closed |-> Closed(g, sh), border |-> Border(g, sh), crowd |-> Crowded(g, sh), cnt |-> Counts(g, sh),
                   box |-> Box(Rects(g, sh)), area |-> Total(Rects(g, sh))]
             [] op.w = "valid" -> [ok |-> ~SolidBad(g, Get(g.sol, op.n).ss), ss |-> Get(g.sol, op.n).ss]
             [] op.w = "in" -> [in |-> Within(g, Get(g.s, op.n), op.p)]
             [] op.w = "near" -> LET a == Box(Rects(g, Get(g.s, op.n))) b == Box(Rects(g, Get(g.s, op.n2))) IN [near |-> a.has /\ b.has /\ Touch(a, b, op.t)]
             [] op.w = "meet" -> [meet |-> Meets(g, Get(g.s, op.n), Get(g.s, op.n2))]
             [] op.w = "same" -> LET a == Get(g.v, op.n) b == Get(g.v, op.n2) d == Sub3(a.p, b.p) t == IF op.t > 0 THEN op.t ELSE Mx(a.t, b.t)
                                 IN [same |-> d[1] * d[1] + d[2] * d[2] + d[3] * d[3] <= t * t]
             [] op.w = "gone" -> [gone |-> TRUE]])
Distinct(q) == Cardinality({ q[i].n : i \in 1..Len(q) }) = Len(q)
GGood(s) == \A i \in 1..Len(s.gs) : LET g == s.gs[i] IN Distinct(g.v) /\ Distinct(g.e) /\ Distinct(g.f) /\ Distinct(g.s) /\ Distinct(g.sol)
=============================================================================
