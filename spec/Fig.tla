-------------------------------- MODULE Fig --------------------------------
(* Plane figures as paths: a path is a sequence of straight and circular      *)
(* pieces travelled in order.  Every operation on figures is an operation on  *)
(* paths; sampling at u goes the fraction u of the length along the path.     *)
(* Arguments arrive in whole units; paths are kept in thousandths.            *)
EXTENDS Fix, FiniteSets

K(v) == VScale(1000, v)
Line(a, b) == [t |-> "line", a |-> a, b |-> b]
Arc(c, r, s, w, free) == [t |-> "arc", c |-> c, r |-> r, s |-> s, w |-> w, free |-> free]

(* what the user builds: e.t in line, arc, circle, poly, list *)
RECURSIVE PathOf(_), Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN <<>> ELSE PathOf(q[i]) \o Cat(q, i + 1)
PathOf(e) ==
  CASE e.t = "line" -> << Line(K(e.a), K(e.b)) >>
    [] e.t = "circle" -> << Arc(K(e.c), 1000 * e.r, 0, 360000, FALSE) >>
    [] e.t = "arc" -> LET s == 1000 * e.s w == 1000 * ((e.e - e.s) % 360)
                      IN << IF e.rev THEN Arc(K(e.c), 1000 * e.r, s + w, -w, FALSE) ELSE Arc(K(e.c), 1000 * e.r, s, w, FALSE) >>
    [] e.t = "poly" -> [i \in 1..Len(e.p) - 1 |-> Line(K(e.p[i]), K(e.p[i + 1]))]
    [] e.t = "list" -> Cat(e.g, 1)
    [] OTHER -> <<>>                                      \* a point has no extent
RECURSIVE KindOf(_)
KindOf(e) == IF e.t = "poly" THEN IF e.p[1] = e.p[Len(e.p)] THEN "gon" ELSE "poly" ELSE e.t
Fig(e) == [k |-> KindOf(e), path |-> PathOf(e)]

(* --------------------------------------------------------------- pieces *)
ELen(e) == IF e.t = "line" THEN DistV(e.a, e.b) ELSE ArcLen(e.r, e.w)
EStart(e) == IF e.t = "line" THEN e.a ELSE Polar(e.c, e.r, e.s)
EEnd(e) == IF e.t = "line" THEN e.b ELSE Polar(e.c, e.r, e.s + e.w)
EAt(e, n, d) == IF e.t = "line"
                THEN <<e.a[1] + MulDiv(e.b[1] - e.a[1], n, d), e.a[2] + MulDiv(e.b[2] - e.a[2], n, d), e.a[3] + MulDiv(e.b[3] - e.a[3], n, d)>>
                ELSE Polar(e.c, e.r, e.s + MulDiv(e.w, n, d))
EFits(e, p, n, d) == IF e.t = "arc" /\ e.free
                     THEN Near(DistV(p, e.c), e.r, Tol) /\ Near(p[3], e.c[3], Tol)
                     ELSE NearV(p, EAt(e, n, d), Tol)
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN 0 ELSE Sum(q, i - 1) + ELen(q[i])
PLen(q) == Sum(q, Len(q))
(* is p the point at distance D along the path (either piece at a joint)? *)
RECURSIVE FitsFrom(_, _, _, _, _)
FitsFrom(q, p, D, i, from) ==
  IF i > Len(q) THEN FALSE
  ELSE LET l == ELen(q[i])
           x == Max(0, Min(l, D - from))
       IN \/ D >= from - Tol /\ D <= from + l + Tol /\ (IF l = 0 THEN NearV(p, EStart(q[i]), Tol) ELSE EFits(q[i], p, x, l))
          \/ FitsFrom(q, p, D, i + 1, from + l)
Fits(q, p, D) == FitsFrom(q, p, D, 1, 0)
Linear(f) == f.k \in {"line", "arc", "circle"}
(* sampling; a closed polygon repeats, lines and arcs continue beyond their ends *)
SampleOk(f, p, n, d) ==
  IF Linear(f) THEN EFits(f.path[1], p, n, d)
  ELSE LET L == PLen(f.path) m == IF f.k = "gon" THEN n % d ELSE n
       IN \/ Fits(f.path, p, MulDiv(L, m, d))
          \/ f.k = "gon" /\ m = 0 /\ Fits(f.path, p, L)

ERev(e) == IF e.t = "line" THEN Line(e.b, e.a) ELSE Arc(e.c, e.r, e.s + e.w, -e.w, e.free)
Rev(q) == [i \in 1..Len(q) |-> ERev(q[Len(q) + 1 - i])]
(* the pieces between the distances D1 < D2 *)
RECURSIVE Cut(_, _, _, _)
Cut(q, D1, D2, from) ==
  IF q = <<>> THEN <<>>
  ELSE LET e == Head(q) l == ELen(e)
           x == Max(0, D1 - from) y == Min(l, D2 - from)
           piece == IF e.t = "line" THEN Line(EAt(e, x, l), EAt(e, y, l))
                    ELSE Arc(e.c, e.r, e.s + MulDiv(e.w, x, l), MulDiv(e.w, y - x, l), e.free)
       IN (IF l > 0 /\ y > x THEN << piece >> ELSE <<>>) \o Cut(Tail(q), D1, D2, from + l)
Segment(f, n1, n2, d) ==
  LET L == PLen(f.path)
      whole == f.k = "circle" /\ n2 - n1 = d
      lo == Min(n1, n2) hi == Max(n1, n2)
      Part(m1, m2) == Cut(f.path, MulDiv(L, m1, d), MulDiv(L, m2, d), 0)
      c == IF n1 <= n2 THEN Part(n1, n2)
           ELSE IF f.k = "gon" THEN Part(n1, d) \o Part(0, n2)          \* over the seam
           ELSE Rev(Part(n2, n1))
      ends == c # <<>> /\ Len(c) > 1 /\ NearV(EStart(c[1]), EEnd(c[Len(c)]), 1)
      k == CASE whole -> "circle" [] f.k = "circle" -> "arc"
             [] f.k \in {"gon", "poly"} -> IF ends THEN "gon" ELSE "poly" [] OTHER -> f.k
  IN [k |-> k, path |-> IF whole THEN f.path ELSE c]

(* ------------------------------------------------------- transformations *)
(* [c |-> R, s, t]: x -> (R x) s + t ; arcs only ever see turns about z *)
MapE(e, P(_), A(_), rs, wsgn) ==
  IF e.t = "line" THEN Line(P(e.a), P(e.b))
  ELSE Arc(P(e.c), (rs[1] * e.r) \div rs[2], A(e.s), wsgn * e.w, e.free)
MapP(q, P(_), A(_), rs, wsgn) == [i \in 1..Len(q) |-> MapE(q[i], P, A, rs, wsgn)]
Ident(a) == a
FreeAll(f) == IF f.k = "circle" THEN [f EXCEPT !.path = [i \in 1..Len(@) |-> [@[i] EXCEPT !.free = TRUE]]] ELSE f
Translate(f, v) == LET P(x) == VAdd(x, K(v)) IN [f EXCEPT !.path = MapP(@, P, Ident, <<1, 1>>, 1)]
RotateZ(f, deg, c) == LET P(x) == RotZ(x, K(c), 1000 * deg) A(a) == a + 1000 * deg
                      IN FreeAll([f EXCEPT !.path = MapP(@, P, A, <<1, 1>>, 1)])
RotateAx(f, ax, deg, c) == LET P(x) == VAdd(MV(RotM(ax, deg), VSub(x, K(c))), K(c))     \* no arcs
                           IN [f EXCEPT !.path = MapP(@, P, Ident, <<1, 1>>, 1)]
ScaleV(x, c, n, d) == [i \in 1..3 |-> c[i] + MulDiv(x[i] - c[i], n[i], d)]
Tup(x) == <<x[1], x[2], x[3]>>
Scale(f, n, d, c) == LET P(x) == Tup(ScaleV(x, K(c), n, d)) IN [f EXCEPT !.path = MapP(@, P, Ident, <<n[1], d>>, 1)]
Flip(x, pl) == <<IF pl = "yz" THEN -x[1] ELSE x[1], IF pl = "xz" THEN -x[2] ELSE x[2], IF pl = "xy" THEN -x[3] ELSE x[3]>>
Mirror(f, pl) == LET P(x) == Flip(x, pl)
                     A(a) == CASE pl = "yz" -> 180000 - a [] pl = "xz" -> -a [] OTHER -> a
                 IN FreeAll([f EXCEPT !.path = MapP(@, P, A, <<1, 1>>, IF pl = "xy" THEN 1 ELSE -1)])
(* a product of matrices, rightmost first: factors [m |-> "T"|"R"|"S", v, deg, inv] *)
Factor(x, g) ==
  CASE g.m = "T" -> IF g.inv THEN VSub(x, K(g.v)) ELSE VAdd(x, K(g.v))
    [] g.m = "R" -> MV(RotM(g.v, IF g.inv THEN 360 - g.deg ELSE g.deg), x)
    [] OTHER -> IF g.inv THEN <<Rnd(x[1], g.v[1]), Rnd(x[2], g.v[2]), Rnd(x[3], g.v[3])>>
                ELSE <<x[1] * g.v[1], x[2] * g.v[2], x[3] * g.v[3]>>
RECURSIVE Factors(_, _, _)
Factors(x, gs, i) == IF i = 0 THEN x ELSE Factors(Factor(x, gs[i]), gs, i - 1)
Matrix(f, gs) == LET P(x) == Factors(x, gs, Len(gs)) IN [f EXCEPT !.path = MapP(@, P, Ident, <<1, 1>>, 1)]

(* ------------------------------------------------------------ properties *)
RECURSIVE MinOf(_, _, _), MaxOf(_, _, _)
MinOf(q, j, i) == IF i = 1 THEN q[1][j] ELSE Min(q[i][j], MinOf(q, j, i - 1))
MaxOf(q, j, i) == IF i = 1 THEN q[1][j] ELSE Max(q[i][j], MaxOf(q, j, i - 1))
(* cardinal points of an arc that its sweep passes *)
OnArc(e, a) == LET d == IF e.w > 0 THEN (a - e.s) % 360000 ELSE (e.s - a) % 360000 IN d <= Abs(e.w) \/ e.free
Extremes(e) == IF e.t = "line" THEN <<e.a, e.b>>
               ELSE <<EStart(e), EEnd(e)>> \o SelectSeq([i \in 1..4 |-> Polar(e.c, e.r, 90000 * (i - 1))],
                      LAMBDA p : \E k \in 0..3 : p = Polar(e.c, e.r, 90000 * k) /\ OnArc(e, 90000 * k))
RECURSIVE AllExt(_, _)
AllExt(q, i) == IF i > Len(q) THEN <<>> ELSE Extremes(q[i]) \o AllExt(q, i + 1)
Box(f) == LET q == AllExt(f.path, 1) n == Len(q)
          IN << <<MinOf(q, 1, n), MinOf(q, 2, n), MinOf(q, 3, n)>>, <<MaxOf(q, 1, n), MaxOf(q, 2, n), MaxOf(q, 3, n)>> >>
Gapless(f) == \A i \in 1..Len(f.path) - 1 : NearV(EEnd(f.path[i]), EStart(f.path[i + 1]), 3 * Tol)
Closed(f) == Gapless(f) /\ NearV(EEnd(f.path[Len(f.path)]), EStart(f.path[1]), 3 * Tol)
RECURSIVE AddAll(_, _)
AddAll(q, i) == IF i = 0 THEN Zero3 ELSE VAdd(AddAll(q, i - 1), q[i].a)
CenterOk(f, p) ==
  CASE f.k = "circle" -> NearV(p, f.path[1].c, Tol)
    [] f.k = "gon" -> LET s == AddAll(f.path, Len(f.path)) n == Len(f.path)
                      IN NearV(p, <<Rnd(s[1], n), Rnd(s[2], n), Rnd(s[3], n)>>, Tol)
    [] f.k = "list" -> TRUE                              \* no definition is given for lists
    [] OTHER -> SampleOk(f, p, 1, 2)
(* off every line and circle that carries a piece by a clear margin *)
Off(e, p) == IF e.t = "line"
             THEN LET v == VSub(e.b, e.a) w == VSub(p, e.a) l == Max(Mag(v), 1)
                      X(i, j) == Abs(MulDiv(v[i], w[j], l) - MulDiv(v[j], w[i], l))
                  IN X(1, 2) > 60 \/ X(2, 3) > 60 \/ X(1, 3) > 60
             ELSE Abs(DistV(p, e.c) - e.r) > 60 \/ Abs(p[3] - e.c[3]) > 60

(* ----------------------------------------------------------- transitions *)
FInit(i) == [figs |-> <<>>]
Ret(s, o) == [st |-> s, obs |-> o]
New(s, f) == Ret([s EXCEPT !.figs = Append(@, f)], [res |-> "ok", kept |-> TRUE])
FApply(s, op) ==
  CASE op.k = "new" -> New(s, Fig(op.fig))
    [] op.k = "translate" -> New(s, Translate(s.figs[op.i], op.v))
    [] op.k = "rotate" -> New(s, IF op.ax = <<0, 0, 1>> THEN RotateZ(s.figs[op.i], op.deg, op.c) ELSE RotateAx(s.figs[op.i], op.ax, op.deg, op.c))
    [] op.k = "scale" -> New(s, Scale(s.figs[op.i], op.n, op.d, op.c))
    [] op.k = "mirror" -> LET m == Mirror(s.figs[op.i], op.pl) IN New(s, IF op.keep THEN [m EXCEPT !.path = Rev(@)] ELSE m)
    [] op.k = "matrix" -> New(s, Matrix(s.figs[op.i], op.gs))
    [] op.k = "segment" -> New(s, Segment(s.figs[op.i], op.n1, op.n2, op.d))
    [] op.k = "reverse" -> New(s, LET f == s.figs[op.i] IN [f EXCEPT !.path = Rev(@)])
    [] op.k = "copy" -> New(s, s.figs[op.i])
    [] op.k = "probe" ->
         LET f == s.figs[op.i] m == op.m b == Box(f)
         IN Ret(s, [res |-> "ok", kept |-> TRUE,
                    sample |-> \A j \in 1..Len(op.us) : SampleOk(f, m.pts[j], op.us[j][1], op.us[j][2]),
                    length |-> Near(m.len, PLen(f.path), Tol + PLen(f.path) \div 2000),
                    center |-> CenterOk(f, m.ctr),
                    bbox |-> NearV(m.lo, b[1], Tol) /\ NearV(m.hi, b[2], Tol),
                    closed |-> f.k # "list" \/ ((m.closed = Closed(f)) /\ (m.cont = Gapless(f)))])
    [] op.k = "unsample" ->
         \* on: the point was sampled from the figure; back: the figure sampled at the answer
         LET f == s.figs[op.i]
         IN Ret(s, [res |-> "ok", kept |-> TRUE,
                    hit |-> IF (op.on \/ op.found) /\ (f.k # "list" \/ Gapless(f)) THEN op.found /\ NearV(op.back, op.p, 2 * Tol)
                            ELSE TRUE,
                    miss |-> op.found => \E j \in 1..Len(f.path) : ~Off(f.path[j], op.p)])

FGood(s) == \A i \in 1..Len(s.figs) : \A j \in 1..Len(s.figs[i].path) :
               s.figs[i].path[j].t = "arc" => s.figs[i].path[j].r > 0 /\ Abs(s.figs[i].path[j].w) <= 360000
=============================================================================
